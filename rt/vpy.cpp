// Model of the CPython C API used by rust-cpython glue and the harnesses (object layouts from the real headers).
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>
#include <string.h>
#include "vh.h"
typedef __int128 i128;
#undef PyCFunction_NewEx
extern "C" {
void vpy_unsupported(const char *);          // deliberately undefined: reaching it makes the run inconclusive
PyObject *PyInit_vmod();

PyTypeObject PyType_Type, PyBaseObject_Type, PyLong_Type, PyBool_Type, PyFloat_Type, PyUnicode_Type, PyTuple_Type, PyList_Type, PyDict_Type, PyModule_Type, PyCFunction_Type, PyBytes_Type;
static PyTypeObject Descr_Type, Iter_Type, None_Type;
struct _longobject _Py_TrueStruct, _Py_FalseStruct;
PyObject _Py_NoneStruct;
static PyTypeObject E_Base, E_Exception, E_Type, E_Value, E_Overflow, E_System, E_UDecode, E_UEncode, E_Attr, E_NotImpl, E_Buffer,
    E_Runtime, E_Arith, E_ZDiv, E_Lookup, E_Index, E_Key, E_OS, E_Assert, E_Memory, E_StopIt, E_Import, E_Name, E_Eof, E_Ref, E_FP, E_Uni;
PyObject *PyExc_BaseException = (PyObject *)&E_Base, *PyExc_Exception = (PyObject *)&E_Exception, *PyExc_TypeError = (PyObject *)&E_Type, *PyExc_ValueError = (PyObject *)&E_Value,
    *PyExc_OverflowError = (PyObject *)&E_Overflow, *PyExc_SystemError = (PyObject *)&E_System, *PyExc_UnicodeDecodeError = (PyObject *)&E_UDecode, *PyExc_UnicodeEncodeError = (PyObject *)&E_UEncode,
    *PyExc_AttributeError = (PyObject *)&E_Attr, *PyExc_NotImplementedError = (PyObject *)&E_NotImpl, *PyExc_BufferError = (PyObject *)&E_Buffer,
    *PyExc_RuntimeError = (PyObject *)&E_Runtime,
    *PyExc_ArithmeticError = (PyObject *)&E_Arith,
    *PyExc_ZeroDivisionError = (PyObject *)&E_ZDiv,
    *PyExc_LookupError = (PyObject *)&E_Lookup,
    *PyExc_IndexError = (PyObject *)&E_Index,
    *PyExc_KeyError = (PyObject *)&E_Key,
    *PyExc_OSError = (PyObject *)&E_OS,
    *PyExc_AssertionError = (PyObject *)&E_Assert,
    *PyExc_MemoryError = (PyObject *)&E_Memory,
    *PyExc_StopIteration = (PyObject *)&E_StopIt,
    *PyExc_ImportError = (PyObject *)&E_Import,
    *PyExc_NameError = (PyObject *)&E_Name,
    *PyExc_EOFError = (PyObject *)&E_Eof,
    *PyExc_ReferenceError = (PyObject *)&E_Ref,
    *PyExc_FloatingPointError = (PyObject *)&E_FP,
    *PyExc_UnicodeError = (PyObject *)&E_Uni;

struct MLong { PyObject ob; i128 v; };
struct MStr { PyObject ob; size_t n; bool bad; char d[1]; };
struct MEnt { PyObject *k, *v; };
struct MDict { PyObject ob; size_t n, cap; MEnt *e; };
struct MMod { PyObject ob; PyObject *dict; const char *name; };
struct MFn { PyObject ob; PyMethodDef *def; PyObject *self; };
struct MDescr { PyObject ob; PyTypeObject *t; PyMethodDef *def; };
struct MIter { PyObject ob; PyObject *seq; Py_ssize_t i; };

static PyObject *mk(size_t n, PyTypeObject *t) { PyObject *o = (PyObject *)malloc(n); o->ob_refcnt = 1; o->ob_type = t; return o; }
void _Py_Dealloc(PyObject *o) {
    v_chk(o->ob_refcnt == 0, "object destroyed with a reference count of zero");
    Py_TYPE(o)->tp_dealloc(o); }
static void d_plain(PyObject *o) { free(o); }
static void d_static(PyObject *) { v_chk(0, "a static Python object lost its last reference"); }
static void d_tuple(PyObject *o) { PyTupleObject *t = (PyTupleObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free(o); }
static void d_list(PyObject *o) { PyListObject *t = (PyListObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free(t->ob_item); free(o); }
static void d_dict(PyObject *o) { MDict *d = (MDict *)o; for (size_t i = 0; i < d->n; i++) { Py_DECREF(d->e[i].k); Py_DECREF(d->e[i].v); } free(d->e); free(o); }
static void d_fn(PyObject *o) { Py_XDECREF(((MFn *)o)->self); free(o); }
static void d_iter(PyObject *o) { Py_XDECREF(((MIter *)o)->seq); free(o); }
static void stat(PyObject *o, PyTypeObject *t) { o->ob_refcnt = 1 << 28; o->ob_type = t; }
static void mtype(PyTypeObject *t, const char *n, unsigned long flags, destructor d, PyTypeObject *base) {
    stat((PyObject *)t, &PyType_Type); t->tp_name = n; t->tp_flags = flags | Py_TPFLAGS_READY; t->tp_dealloc = d; t->tp_base = base; }
static const unsigned long EXC = Py_TPFLAGS_BASE_EXC_SUBCLASS;
static PyObject *vmod_;
PyObject *vpy_module() {
    if (vmod_) return vmod_;
    PyTypeObject *O = &PyBaseObject_Type;
    mtype(O, "object", 0, d_plain, 0);
    mtype(&PyType_Type, "type", Py_TPFLAGS_TYPE_SUBCLASS, d_static, O);
    mtype(&PyLong_Type, "int", Py_TPFLAGS_LONG_SUBCLASS, d_plain, O);
    mtype(&PyBool_Type, "bool", Py_TPFLAGS_LONG_SUBCLASS, d_static, &PyLong_Type);
    mtype(&PyFloat_Type, "float", 0, d_plain, O);
    mtype(&PyUnicode_Type, "str", Py_TPFLAGS_UNICODE_SUBCLASS, d_plain, O);
    mtype(&PyBytes_Type, "bytes", Py_TPFLAGS_BYTES_SUBCLASS, d_plain, O);
    mtype(&PyTuple_Type, "tuple", Py_TPFLAGS_TUPLE_SUBCLASS, d_tuple, O);
    mtype(&PyList_Type, "list", Py_TPFLAGS_LIST_SUBCLASS, d_list, O);
    mtype(&PyDict_Type, "dict", Py_TPFLAGS_DICT_SUBCLASS, d_dict, O);
    mtype(&PyModule_Type, "module", 0, d_static, O);
    mtype(&PyCFunction_Type, "builtin_function_or_method", 0, d_fn, O);
    mtype(&Descr_Type, "method_descriptor", 0, d_plain, O);
    mtype(&Iter_Type, "list_iterator", 0, d_iter, O);
    mtype(&None_Type, "NoneType", 0, d_static, O);
    mtype(&E_Base, "BaseException", EXC, d_plain, O);
    mtype(&E_Exception, "Exception", EXC, d_plain, &E_Base);
    mtype(&E_Type, "TypeError", EXC, d_plain, &E_Exception);
    mtype(&E_Value, "ValueError", EXC, d_plain, &E_Exception);
    mtype(&E_Overflow, "OverflowError", EXC, d_plain, &E_Exception);
    mtype(&E_System, "SystemError", EXC, d_plain, &E_Exception);
    mtype(&E_UDecode, "UnicodeDecodeError", EXC, d_plain, &E_Value);
    mtype(&E_UEncode, "UnicodeEncodeError", EXC, d_plain, &E_Value);
    mtype(&E_Attr, "AttributeError", EXC, d_plain, &E_Exception);
    mtype(&E_NotImpl, "NotImplementedError", EXC, d_plain, &E_Exception);
    mtype(&E_Buffer, "BufferError", EXC, d_plain, &E_Exception);
    mtype(&E_Runtime, "RuntimeError", EXC, d_plain, &E_Exception);
    mtype(&E_Arith, "ArithmeticError", EXC, d_plain, &E_Exception);
    mtype(&E_ZDiv, "ZeroDivisionError", EXC, d_plain, &E_Arith);
    mtype(&E_Lookup, "LookupError", EXC, d_plain, &E_Exception);
    mtype(&E_Index, "IndexError", EXC, d_plain, &E_Lookup);
    mtype(&E_Key, "KeyError", EXC, d_plain, &E_Lookup);
    mtype(&E_OS, "OSError", EXC, d_plain, &E_Exception);
    mtype(&E_Assert, "AssertionError", EXC, d_plain, &E_Exception);
    mtype(&E_Memory, "MemoryError", EXC, d_plain, &E_Exception);
    mtype(&E_StopIt, "StopIteration", EXC, d_plain, &E_Exception);
    mtype(&E_Import, "ImportError", EXC, d_plain, &E_Exception);
    mtype(&E_Name, "NameError", EXC, d_plain, &E_Exception);
    mtype(&E_Eof, "EOFError", EXC, d_plain, &E_Exception);
    mtype(&E_Ref, "ReferenceError", EXC, d_plain, &E_Exception);
    mtype(&E_FP, "FloatingPointError", EXC, d_plain, &E_Arith);
    mtype(&E_Uni, "UnicodeError", EXC, d_plain, &E_Value);
    stat((PyObject *)&_Py_TrueStruct, &PyBool_Type); stat((PyObject *)&_Py_FalseStruct, &PyBool_Type); stat(&_Py_NoneStruct, &None_Type);
    vmod_ = PyInit_vmod();
    v_chk(vmod_ != 0 && !PyErr_Occurred(), "the module initialises");
    return vmod_; }

// ---- exceptions
static PyObject *et, *ev, *etb;
PyObject *PyErr_Occurred() { return et; }
void PyErr_Restore(PyObject *t, PyObject *v, PyObject *tb) { PyObject *a = et, *b = ev, *c = etb; et = t; ev = v; etb = tb; Py_XDECREF(a); Py_XDECREF(b); Py_XDECREF(c); }
void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **tb) { *t = et; *v = ev; *tb = etb; et = ev = etb = 0; }
void PyErr_Clear() { PyErr_Restore(0, 0, 0); }
void PyErr_SetString(PyObject *t, const char *s) { Py_INCREF(t); PyErr_Restore(t, PyUnicode_FromStringAndSize(s, strlen(s)), 0); }
void PyErr_NormalizeException(PyObject **, PyObject **, PyObject **) {}
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { for (; a; a = a->tp_base) if (a == b) return 1; return b == &PyBaseObject_Type; }
int PyErr_GivenExceptionMatches(PyObject *e, PyObject *t) { return e && t && PyType_IsSubtype((PyTypeObject *)e, (PyTypeObject *)t); }
int PyErr_ExceptionMatches(PyObject *t) { return PyErr_GivenExceptionMatches(et, t); }
PyObject *PyErr_NewException(const char *name, PyObject *base, PyObject *) {
    PyTypeObject *t = (PyTypeObject *)calloc(1, sizeof(PyTypeObject));
    char *nm = (char *)malloc(strlen(name) + 1); memcpy(nm, name, strlen(name) + 1);
    mtype(t, nm, EXC, d_plain, base ? (PyTypeObject *)base : &E_Exception);
    return (PyObject *)t; }

// ---- numbers
static bool long_of(PyObject *o, i128 *v) {
    if (o == (PyObject *)&_Py_TrueStruct) { *v = 1; return true; }
    if (o == (PyObject *)&_Py_FalseStruct) { *v = 0; return true; }
    if (Py_TYPE(o) == &PyLong_Type) { *v = ((MLong *)o)->v; return true; }
    return false; }
static PyObject *mklong(i128 v) { MLong *l = (MLong *)mk(sizeof(MLong), &PyLong_Type); l->v = v; return &l->ob; }
PyObject *PyLong_FromLong(long v) { return mklong(v); }
PyObject *PyLong_FromLongLong(long long v) { return mklong(v); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return mklong(v); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return mklong((i128)(unsigned __int128)v); }
PyObject *PyLong_FromUnsignedLong(unsigned long v) { return mklong((i128)(unsigned __int128)v); }
PyObject *_PyLong_FromByteArray(const unsigned char *b, size_t n, int, int) { i128 v; if (n != 16) vpy_unsupported("FromByteArray"); memcpy(&v, b, 16); return mklong(v); }
int _PyLong_AsByteArray(PyLongObject *o, unsigned char *b, size_t, int, int) { i128 v = 0; if (!long_of((PyObject *)o, &v)) return -1; memcpy(b, &v, 16); return 0; }
PyObject *PyNumber_Index(PyObject *o) { i128 v; if (long_of(o, &v)) { Py_INCREF(o); return o; } PyErr_SetString(PyExc_TypeError, "object cannot be interpreted as an integer"); return 0; }
static bool index_of(PyObject *o, i128 *v) { if (long_of(o, v)) return true; PyErr_SetString(PyExc_TypeError, "object cannot be interpreted as an integer"); return false; }
long long PyLong_AsLongLong(PyObject *o) { i128 v = 0; if (!index_of(o, &v)) return -1;
    if (v < (i128)INT64_MIN || v > (i128)INT64_MAX) { PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C long"); return -1; }
    return (long long)v; }
long PyLong_AsLong(PyObject *o) { return PyLong_AsLongLong(o); }
unsigned long long PyLong_AsUnsignedLongLong(PyObject *o) {
    i128 v = 0; if (!long_of(o, &v)) { PyErr_SetString(PyExc_TypeError, "an integer is required"); return (unsigned long long)-1; }
    if (v < 0) { PyErr_SetString(PyExc_OverflowError, "can't convert negative int to unsigned"); return (unsigned long long)-1; }
    if (v > (i128)UINT64_MAX) { PyErr_SetString(PyExc_OverflowError, "int too big to convert"); return (unsigned long long)-1; }
    return (unsigned long long)v; }
unsigned long PyLong_AsUnsignedLong(PyObject *o) { return PyLong_AsUnsignedLongLong(o); }
PyObject *PyFloat_FromDouble(double d) { PyFloatObject *f = (PyFloatObject *)mk(sizeof(PyFloatObject), &PyFloat_Type); f->ob_fval = d; return (PyObject *)f; }
double PyFloat_AsDouble(PyObject *o) {
    if (Py_TYPE(o) == &PyFloat_Type) return ((PyFloatObject *)o)->ob_fval;
    i128 v; if (long_of(o, &v)) { if (v < (i128)INT32_MIN || v > (i128)INT32_MAX) vpy_unsupported("big int to float"); return (double)(int)v; }
    PyErr_SetString(PyExc_TypeError, "must be real number"); return -1.0; }

// ---- text
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { MStr *u = (MStr *)mk(sizeof(MStr) + n, &PyUnicode_Type); u->n = n; u->bad = false; if (n) memcpy(u->d, s, n); u->d[n] = 0; return &u->ob; }
PyObject *PyUnicode_FromString(const char *s) { return PyUnicode_FromStringAndSize(s, strlen(s)); }
PyObject *PyUnicode_FromOrdinal(int c) { if (c < 0xd800 || c > 0xdfff) vpy_unsupported("FromOrdinal"); PyObject *o = PyUnicode_FromStringAndSize("", 0); ((MStr *)o)->bad = true; return o; }
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *n) {
    if (Py_TYPE(o) != &PyUnicode_Type) { PyErr_SetString(PyExc_TypeError, "bad argument type for built-in operation"); return 0; }
    MStr *u = (MStr *)o; if (u->bad) { PyErr_SetString(PyExc_UnicodeEncodeError, "surrogates not allowed"); return 0; }
    if (n) *n = u->n; return u->d; }
const char *PyUnicode_AsUTF8(PyObject *o) { return PyUnicode_AsUTF8AndSize(o, 0); }
PyObject *PyObject_Str(PyObject *o) { if (Py_TYPE(o) == &PyUnicode_Type) { Py_INCREF(o); return o; } return PyUnicode_FromStringAndSize("?", 1); }
PyObject *PyObject_Repr(PyObject *o) { if (Py_TYPE(o)->tp_repr) return Py_TYPE(o)->tp_repr(o); return PyUnicode_FromStringAndSize("?", 1); }

// ---- containers
PyObject *PyTuple_New(Py_ssize_t n) { PyTupleObject *t = (PyTupleObject *)mk(sizeof(PyTupleObject) + n * sizeof(PyObject *), &PyTuple_Type); t->ob_base.ob_size = n; for (Py_ssize_t i = 0; i < n; i++) t->ob_item[i] = 0; return (PyObject *)t; }
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { PyTupleObject *t = (PyTupleObject *)o; v_chk(i >= 0 && i < t->ob_base.ob_size && o->ob_refcnt == 1, "PyTuple_SetItem on a fresh tuple"); PyObject *old = t->ob_item[i]; t->ob_item[i] = v; Py_XDECREF(old); return 0; }
Py_ssize_t PyTuple_Size(PyObject *o) { return Py_TYPE(o) == &PyTuple_Type ? ((PyTupleObject *)o)->ob_base.ob_size : -1; }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { return i >= 0 && i < PyTuple_Size(o) ? ((PyTupleObject *)o)->ob_item[i] : 0; }
PyObject *PyList_New(Py_ssize_t n) { PyListObject *t = (PyListObject *)mk(sizeof(PyListObject), &PyList_Type); t->ob_base.ob_size = n; t->allocated = n; t->ob_item = (PyObject **)calloc(n ? n : 1, sizeof(PyObject *)); return (PyObject *)t; }
int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { PyListObject *t = (PyListObject *)o; v_chk(i >= 0 && i < t->ob_base.ob_size, "PyList_SetItem in range"); PyObject *old = t->ob_item[i]; t->ob_item[i] = v; Py_XDECREF(old); return 0; }
Py_ssize_t PyList_Size(PyObject *o) { return Py_TYPE(o) == &PyList_Type ? ((PyListObject *)o)->ob_base.ob_size : -1; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { return i >= 0 && i < PyList_Size(o) ? ((PyListObject *)o)->ob_item[i] : 0; }
int PySequence_Check(PyObject *o) { PyTypeObject *t = Py_TYPE(o); return t == &PyList_Type || t == &PyTuple_Type || t == &PyUnicode_Type || t == &PyBytes_Type; }
PyObject *PyObject_GetIter(PyObject *o) {
    if (Py_TYPE(o) != &PyList_Type && Py_TYPE(o) != &PyTuple_Type) { if (PySequence_Check(o)) vpy_unsupported("iterate str"); PyErr_SetString(PyExc_TypeError, "object is not iterable"); return 0; }
    MIter *it = (MIter *)mk(sizeof(MIter), &Iter_Type); Py_INCREF(o); it->seq = o; it->i = 0; return &it->ob; }
int PyIter_Check(PyObject *o) { return Py_TYPE(o) == &Iter_Type; }
PyObject *PyIter_Next(PyObject *o) {
    MIter *it = (MIter *)o; PyObject *s = it->seq;
    if (it->i >= (Py_TYPE(s) == &PyList_Type ? PyList_Size(s) : PyTuple_Size(s))) return 0;
    PyObject *r = Py_TYPE(s) == &PyList_Type ? PyList_GetItem(s, it->i) : PyTuple_GetItem(s, it->i);
    it->i++; Py_INCREF(r); return r; }
PyObject *PyDict_New() { MDict *d = (MDict *)mk(sizeof(MDict), &PyDict_Type); d->n = d->cap = 0; d->e = 0; return &d->ob; }
static MEnt *dfind(PyObject *o, const char *k, size_t n) { MDict *d = (MDict *)o; for (size_t i = 0; i < d->n; i++) { MStr *s = (MStr *)d->e[i].k; if (s->n == n && !memcmp(s->d, k, n)) return &d->e[i]; } return 0; }
int PyDict_SetItem(PyObject *o, PyObject *k, PyObject *v) {
    MDict *d = (MDict *)o; if (Py_TYPE(k) != &PyUnicode_Type) vpy_unsupported("dict key");
    Py_INCREF(v); if (MEnt *e = dfind(o, ((MStr *)k)->d, ((MStr *)k)->n)) { PyObject *old = e->v; e->v = v; Py_DECREF(old); return 0; }
    if (d->n == d->cap) { d->cap = d->cap ? d->cap * 2 : 8; MEnt *e = (MEnt *)malloc(d->cap * sizeof(MEnt)); if (d->n) memcpy(e, d->e, d->n * sizeof(MEnt)); free(d->e); d->e = e; }
    Py_INCREF(k); d->e[d->n].k = k; d->e[d->n].v = v; d->n++; return 0; }
PyObject *PyDict_GetItem(PyObject *o, PyObject *k) { if (Py_TYPE(k) != &PyUnicode_Type) vpy_unsupported("dict key"); MEnt *e = dfind(o, ((MStr *)k)->d, ((MStr *)k)->n); return e ? e->v : 0; }
Py_ssize_t PyDict_Size(PyObject *o) { return ((MDict *)o)->n; }
int PyDict_Next(PyObject *o, Py_ssize_t *pos, PyObject **k, PyObject **v) { MDict *d = (MDict *)o; if (*pos < 0 || (size_t)*pos >= d->n) return 0; if (k) *k = d->e[*pos].k; if (v) *v = d->e[*pos].v; ++*pos; return 1; }
PyObject *PyDict_Items(PyObject *o) { MDict *d = (MDict *)o; PyObject *l = PyList_New(d->n); for (size_t i = 0; i < d->n; i++) { PyObject *t = PyTuple_New(2); Py_INCREF(d->e[i].k); Py_INCREF(d->e[i].v); PyTuple_SetItem(t, 0, d->e[i].k); PyTuple_SetItem(t, 1, d->e[i].v); PyList_SetItem(l, i, t); } return l; }

// ---- types, modules, calls
PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t) { PyObject *o = (PyObject *)calloc(1, t->tp_basicsize); o->ob_refcnt = 1; o->ob_type = t; return o; }
void PyObject_Free(void *p) { free(p); }
int PyType_Ready(PyTypeObject *t) { if (!t->tp_base) t->tp_base = &PyBaseObject_Type; if (!t->tp_dict) t->tp_dict = PyDict_New(); t->tp_flags |= Py_TPFLAGS_READY; ((PyObject *)t)->ob_refcnt += 1 << 28; return 0; }
PyObject *PyDescr_NewMethod(PyTypeObject *t, PyMethodDef *d) { MDescr *m = (MDescr *)mk(sizeof(MDescr), &Descr_Type); m->t = t; m->def = d; return &m->ob; }
PyObject *PyCFunction_NewEx(PyMethodDef *d, PyObject *self, PyObject *) { MFn *f = (MFn *)mk(sizeof(MFn), &PyCFunction_Type); f->def = d; f->self = self; Py_XINCREF(self); return &f->ob; }
PyObject *PyModule_Create2(PyModuleDef *d, int) { MMod *m = (MMod *)mk(sizeof(MMod), &PyModule_Type); m->dict = PyDict_New(); m->name = d->m_name; return &m->ob; }
const char *PyModule_GetName(PyObject *m) { return ((MMod *)m)->name; }
PyObject *PyModule_GetDict(PyObject *m) { return ((MMod *)m)->dict; }
int PyObject_SetAttr(PyObject *o, PyObject *k, PyObject *v) { if (Py_TYPE(o) != &PyModule_Type) vpy_unsupported("SetAttr"); return PyDict_SetItem(((MMod *)o)->dict, k, v); }
PyObject *PyObject_GetAttrString(PyObject *o, const char *name) {
    v_chk(!et, "no exception pending when an attribute is looked up");
    size_t n = strlen(name); PyObject *r = 0;
    if (Py_TYPE(o) == &PyModule_Type) { if (MEnt *e = dfind(((MMod *)o)->dict, name, n)) r = e->v; }
    else {
        bool ty = PyType_Check(o);
        for (PyTypeObject *t = ty ? (PyTypeObject *)o : Py_TYPE(o); t && !r; t = t->tp_base) if (t->tp_dict) if (MEnt *e = dfind(t->tp_dict, name, n)) r = e->v;
        if (r && !ty && Py_TYPE(r) == &Descr_Type) return PyCFunction_NewEx(((MDescr *)r)->def, o, 0);
    }
    if (!r) { PyErr_SetString(PyExc_AttributeError, name); return 0; }
    Py_INCREF(r); return r; }
PyObject *PyObject_Call(PyObject *f, PyObject *args, PyObject *kw) {
    v_chk(!PyErr_Occurred(), "no exception pending when a call starts");
    if (Py_TYPE(f) == &PyCFunction_Type) { MFn *m = (MFn *)f; return ((PyCFunctionWithKeywords)(void *)m->def->ml_meth)(m->self, args, kw); }
    if (PyType_Check(f)) { PyTypeObject *t = (PyTypeObject *)f; if (!t->tp_new) { PyErr_SetString(PyExc_TypeError, "cannot create instances"); return 0; } return t->tp_new(t, args, kw); }
    PyErr_SetString(PyExc_TypeError, "object is not callable"); return 0; }
const char *vpy_doc(PyObject *k, const char *meth) {   // the documentation of a class or of one of its methods
    if (!PyType_Check(k)) return 0;
    PyTypeObject *t = (PyTypeObject *)k;
    if (!meth && t->tp_doc) return t->tp_doc;
    if (!meth) meth = "__doc__";
    MEnt *e = dfind(t->tp_dict, meth, strlen(meth));
    if (!e) return 0;
    if (Py_TYPE(e->v) == &PyUnicode_Type) return PyUnicode_AsUTF8AndSize(e->v, 0);
    if (Py_TYPE(e->v) == &Descr_Type) return ((MDescr *)e->v)->def->ml_doc;
    return Py_TYPE(e->v) == &PyCFunction_Type ? ((MFn *)e->v)->def->ml_doc : 0; }
int Py_IsInitialized() { return 1; }
int PyEval_ThreadsInitialized() { return 1; }
void PyEval_InitThreads() {}
PyGILState_STATE PyGILState_Ensure() { return PyGILState_LOCKED; }
void PyGILState_Release(PyGILState_STATE) {}
int PyGILState_Check() { return 1; }
}
