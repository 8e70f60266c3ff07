#include "vpy.h"
#define BEGIN v_allow_leak(); vpy_module(); uint64_t live0 = v_live();
#define FINISH CHK(!PyErr_Occurred()); CHK(v_live() == live0);
static bool eat(PyObject *r, i128 want) { bool ok = is_int(r, want); Py_XDECREF(r); return ok; }
HARNESS(py_api) {   // every declared function is there and behaves as declared, nothing else is
    BEGIN
    int32_t v = (int32_t)nd_u32(), x = (int32_t)nd_u32();
    PyObject *d = vnew("Doc", {vint(v)});
    CHK(d != 0); if (!d) return;
    CHK(eat(vcall(d, "get", {}), v));
    PyObject *n = vcall(d, "add", {vint(x)}); CHK(n == Py_None); Py_XDECREF(n);
    int32_t s = (int32_t)((uint32_t)v + (uint32_t)x);
    CHK(eat(vcall(d, "neg", {}), (int32_t)(0u - (uint32_t)s)));
    CHK(eat(vcall(d, "read", {}), s ^ 9));
    CHK(eat(vcall(d, "hidden", {}), s ^ 3));
    PyObject *h = PyObject_GetAttrString(d, "hidden_def"); CHK(!h); Py_XDECREF(h); CHK(raised(PyExc_AttributeError));
    Py_DECREF(d);
    CHK(eat(scall("Doc", "twice", {vint(x)}), (int32_t)(2u * (uint32_t)x)));
    CHK(eat(scall("Doc", "thrice", {vint(x)}), (int32_t)(3u * (uint32_t)x)));
    CHK(eat(scall("Stat", "a", {vint(x)}), (int32_t)(2u * (uint32_t)x)));
    CHK(eat(scall("Stat", "b", {vint(x)}), (int32_t)(3u * (uint32_t)x)));
    FINISH
}
HARNESS(py_enum) {
    BEGIN
    uint32_t l = nd_u32();
    PyObject *r = scall("Doc", "flip", {vint(l)});
    if (l == 4 || l == 2 || l == 6) CHK(is_int(r, l == 2 ? 2 : 10 - l)); else { CHK(!r); CHK(raised(PyExc_ValueError)); }
    Py_XDECREF(r);
    PyObject *k = vclass("Level");
    PyObject *h = PyObject_GetAttrString(k, "HIDDEN"); CHK(!h); Py_XDECREF(h); CHK(raised(PyExc_AttributeError));
    CHK(eat(vattr(k, "LOW"), 4)); CHK(eat(vattr(k, "MID"), 2)); CHK(eat(vattr(k, "HIGH"), 6));
    Py_DECREF(k);
    FINISH
}
HARNESS(py_words) {   // the words of the documentation are in the documentation Python shows
    BEGIN
    PyObject *k = vclass("Doc");
    CHK(vdoc_has(k, 0, "Block")); CHK(vdoc_has(k, 0, "* class")); CHK(vdoc_has(k, 0, "int x; }\n; \\")); CHK(vdoc_has(k, 0, "make \\ \"it\""));
    CHK(vdoc_has(k, "get", "read")); CHK(vdoc_has(k, "get", "several lines \\u"));
    CHK(vdoc_has(k, "add", "a\nb\n\nc \\ \n"));
    CHK(vdoc_has(k, "neg", "?" "?/ {} \""));
    CHK(vdoc_has(k, "read", "seems harmless")); CHK(vdoc_has(k, "read", "def hidden_def(&self)"));
    CHK(vdoc_has(k, "hidden", "swaps\n@staticmethod")); CHK(vdoc_has(k, "hidden", "tail words"));
    CHK(vdoc_has(k, "twice", "text \\"));
    CHK(vdoc_has(k, "thrice", "*/ int bad( /*")); CHK(vdoc_has(k, "thrice", "second words"));
    CHK(vdoc_has(k, "flip", "x")); CHK(vdoc_has(k, "flip", "y"));
    Py_DECREF(k);
    k = vclass("Level"); CHK(vdoc_has(k, 0, "block comment of an enum")); CHK(vdoc_has(k, 0, "static HIDDEN = 4u32;")); Py_DECREF(k);
    k = vclass("Stat"); CHK(vdoc_has(k, 0, "no constructor \\")); CHK(vdoc_has(k, "a", "first \\")); CHK(!vdoc_has(k, "b", "first")); Py_DECREF(k);
    FINISH
}
