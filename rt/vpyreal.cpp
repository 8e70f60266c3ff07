// Native replay of the Python suites: the real interpreter.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
extern "C" PyObject *PyInit_vmod();
extern "C" PyObject *vpy_module() {
    static PyObject *m;
    if (!m) {
        PyImport_AppendInittab("vmod", PyInit_vmod);
        Py_InitializeEx(0);
        m = PyImport_ImportModule("vmod");
        if (!m) { PyErr_Print(); abort(); }
    }
    return m; }
extern "C" const char *vpy_doc(PyObject *k, const char *meth) {
    PyObject *o = k; Py_INCREF(o);
    if (meth) { Py_DECREF(o); o = PyObject_GetAttrString(k, meth); if (!o) { PyErr_Clear(); return 0; } }
    PyObject *d = PyObject_GetAttrString(o, "__doc__"); Py_DECREF(o);
    if (!d || !PyUnicode_Check(d)) { PyErr_Clear(); Py_XDECREF(d); return 0; }
    const char *r = PyUnicode_AsUTF8(d);
    static char buf[4096]; size_t n = 0; for (; r[n] && n < sizeof buf - 1; n++) buf[n] = r[n]; buf[n] = 0;
    Py_DECREF(d);
    return buf; }
