// Harness side of the Python suites: only the public CPython API; symbolically it is the model in vpy.cpp, natively the real libpython.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <initializer_list>
#include "vh.h"
extern "C" PyObject *vpy_module();   // the generated module, borrowed
typedef __int128 i128;
static inline PyObject *vint(i128 v) { return _PyLong_FromByteArray((const unsigned char *)&v, 16, 1, 1); }
static inline bool vint_get(PyObject *o, i128 *v) {
    if (!o || !PyLong_Check(o)) return false;
    return _PyLong_AsByteArray((PyLongObject *)o, (unsigned char *)v, 16, 1, 1) == 0; }
static inline bool is_int(PyObject *o, i128 want) { i128 v = 0; return vint_get(o, &v) && v == want && Py_TYPE(o) == &PyLong_Type; }
static inline PyObject *vstr(const char *s, size_t n) { return PyUnicode_FromStringAndSize(s, n); }
static inline bool is_str(PyObject *o, const char *s, size_t n) {
    if (!o || !PyUnicode_Check(o)) return false;
    Py_ssize_t m = 0; const char *p = PyUnicode_AsUTF8AndSize(o, &m);
    if (!p || (size_t)m != n) return false;
    bool eq = true;
    for (size_t i = 0; i < n; i++) eq &= p[i] == s[i];
    return eq; }
static inline PyObject *vattr(PyObject *o, const char *n) { PyObject *r = PyObject_GetAttrString(o, n); CHK(r != 0); return r; }
// calls f with args (references to the arguments are stolen)
static inline PyObject *vcallf(PyObject *f, std::initializer_list<PyObject *> args) {
    PyObject *t = PyTuple_New(args.size()); size_t i = 0;
    for (PyObject *a : args) PyTuple_SetItem(t, i++, a);
    PyObject *r = PyObject_Call(f, t, 0);
    Py_DECREF(t);
    CHK((r == 0) == (PyErr_Occurred() != 0));    // a result or an exception, never both or neither
    return r; }
static inline PyObject *vcall(PyObject *o, const char *m, std::initializer_list<PyObject *> args) {
    PyObject *f = vattr(o, m); PyObject *r = vcallf(f, args); Py_DECREF(f); return r; }
static inline PyObject *vclass(const char *c) { return vattr(vpy_module(), c); }
static inline PyObject *scall(const char *c, const char *m, std::initializer_list<PyObject *> args) {
    PyObject *k = vclass(c); PyObject *r = vcall(k, m, args); Py_DECREF(k); return r; }
static inline PyObject *vnew(const char *c, std::initializer_list<PyObject *> args) {
    PyObject *k = vclass(c); PyObject *r = vcallf(k, args); Py_DECREF(k); return r; }
static inline bool raised(PyObject *type) {
    if (!PyErr_Occurred()) return false;
    bool m = PyErr_ExceptionMatches(type);
    PyErr_Clear(); return m; }
// the pending exception has this type and str(exception) is s
static inline bool raised_msg(PyObject *type, const char *s, size_t n) {
    PyObject *t = 0, *v = 0, *tb = 0;
    PyErr_Fetch(&t, &v, &tb);
    if (!t) return false;
    PyErr_NormalizeException(&t, &v, &tb);
    bool ok = PyErr_GivenExceptionMatches(t, type);
    PyObject *m = PyObject_Str(v);
    ok = ok && is_str(m, s, n);
    Py_XDECREF(m); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    return ok; }
static inline PyObject *vlist(std::initializer_list<PyObject *> a) { PyObject *l = PyList_New(a.size()); size_t i = 0; for (PyObject *x : a) PyList_SetItem(l, i++, x); return l; }
static inline PyObject *vnone() { Py_INCREF(Py_None); return Py_None; }
static inline PyObject *vbool(bool b) { PyObject *o = b ? Py_True : Py_False; Py_INCREF(o); return o; }
extern "C" const char *vpy_doc(PyObject *cls, const char *meth);   // documentation of a class (meth = 0) or a method, null if there is none
static inline bool vdoc_has(PyObject *cls, const char *meth, const char *w) {
    const char *d = vpy_doc(cls, meth);
    if (!d) return false;
    for (; *d; d++) { size_t i = 0; while (w[i] && d[i] == w[i]) i++; if (!w[i]) return true; }
    return false; }
