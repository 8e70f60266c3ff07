#include "vpy.h"
static uint32_t calls() { PyObject *r = scall("R", "calls", {}); i128 v = -1; CHK(vint_get(r, &v)); Py_DECREF(r); return (uint32_t)v; }
static int live() { PyObject *r = scall("R", "live", {}); i128 v = -1; CHK(vint_get(r, &v)); Py_DECREF(r); return (int)v; }
#define BEGIN v_allow_leak(); vpy_module(); uint64_t live0 = v_live();
#define FINISH CHK(!PyErr_Occurred()); CHK(v_live() == live0);
// the pending exception is exactly the module's Error with this text
static bool err_is(const char *s, size_t n) {
    PyObject *t = 0, *v = 0, *tb = 0;
    PyErr_Fetch(&t, &v, &tb);
    PyObject *e = vclass("Error");
    bool ok = t == e && PyType_IsSubtype((PyTypeObject *)e, (PyTypeObject *)PyExc_Exception);
    Py_DECREF(e);
    PyErr_Restore(t, v, tb);
    bool m = raised_msg(PyExc_Exception, s, n);
    return ok && m; }
HARNESS(res_int) {
    BEGIN
    bool ok = nd_bool(); int32_t x = (int32_t)nd_u32(); char m[4]; size_t n = nd_pick(4);
    for (size_t i = 0; i < n; i++) { m[i] = (char)(nd_u8() & 0x7f); }
    PyObject *r = scall("R", "int", {vbool(ok), vint(x), vstr(m, n)});
    if (ok) CHK(is_int(r, x)); else { CHK(!r); CHK(err_is(m, n)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(res_unit) { BEGIN bool ok = nd_bool(); PyObject *r = scall("R", "unit", {vbool(ok)}); if (ok) CHK(r == Py_None); else { CHK(!r); CHK(err_is("no", 2)); } Py_XDECREF(r); FINISH }
HARNESS(res_text) {
    BEGIN
    bool ok = nd_bool(); char m[4]; size_t n = nd_pick(4);
    for (size_t i = 0; i < n; i++) { m[i] = (char)(nd_u8() & 0x7f); }
    PyObject *r = scall("R", "text", {vbool(ok), vstr(m, n)});
    if (ok) CHK(is_str(r, m, n)); else { char e[3] = {'i', 'n', (char)('a' + n)}; CHK(!r); CHK(err_is(e, 3)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(res_chain) {   // the causes are part of the message
    BEGIN
    uint8_t k = nd_u8(); bool deep = nd_bool(); char c = 'a' + k % 26;
    PyObject *r = scall("R", deep ? "deep" : "wrapped", {vint(k)});
    CHK(!r);
    char e[64]; const char *p = deep ? "deep\nCaused by:\nouter\nCaused by:\nin" : "outer\nCaused by:\nin"; size_t n = 0;
    for (; p[n]; n++) e[n] = p[n];
    e[n++] = c;
    CHK(err_is(e, n));
    FINISH
}
HARNESS(res_opt) { BEGIN uint8_t k = nd_u8(); PyObject *r = scall("R", "opt", {vint(k)}); if (k == 0) CHK(r == Py_None); else if (k == 1) { CHK(!r); CHK(err_is("one", 3)); } else CHK(is_int(r, k)); Py_XDECREF(r); FINISH }
HARNESS(res_vec) {
    BEGIN
    bool ok = nd_bool(); uint8_t n = nd_u8();
    PyObject *r = scall("R", "vec", {vbool(ok), vint(n)});
    if (ok) { CHK(r && PyList_Check(r) && PyList_Size(r) == n % 4); for (int i = 0; r && i < n % 4; i++) CHK(is_int(PyList_GetItem(r, i), i)); } else { CHK(!r); CHK(err_is("v", 1)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(res_mode) {
    BEGIN
    bool ok = nd_bool(); uint32_t m = nd_u32(); uint32_t c0 = calls();
    PyObject *r = scall("R", "mode", {vbool(ok), vint(m)});
    if (m != 1 && m != 4) { CHK(!r); CHK(raised(PyExc_ValueError)); CHK(calls() == c0); }
    else if (ok) CHK(is_int(r, m)); else { CHK(!r); CHK(err_is("m", 1)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(res_pair) {
    BEGIN
    bool ok = nd_bool(); int8_t a = (int8_t)nd_u8();
    PyObject *r = scall("R", "pair", {vbool(ok), vint(a)});
    if (ok) { CHK(r && PyTuple_Check(r) && PyTuple_Size(r) == 2); if (r) { CHK(is_int(PyTuple_GetItem(r, 0), a)); CHK(PyTuple_GetItem(r, 1) == Py_True); } } else { CHK(!r); CHK(err_is("p", 1)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(res_part) {
    BEGIN
    bool ok = nd_bool(); int32_t v = (int32_t)nd_u32();
    PyObject *r = scall("R", "part", {vbool(ok), vint(v)});
    if (ok) { CHK(r != 0); CHK(live() == 1); PyObject *g = vcall(r, "get", {}); CHK(is_int(g, v)); Py_XDECREF(g); Py_DECREF(r); } else { CHK(!r); CHK(err_is("part", 4)); }
    CHK(live() == 0);
    FINISH
}
HARNESS(method_res) {    // a failing method leaves the object usable and unchanged
    BEGIN
    int32_t v = (int32_t)nd_u32(), l = (int32_t)nd_u32(), w = (int32_t)nd_u32();
    PyObject *o = vnew("Part", {vint(v)}); CHK(o != 0);
    PyObject *r = vcall(o, "checked", {vint(l)});
    if (v <= l) CHK(is_int(r, v)); else { CHK(!r); CHK(err_is("limit", 5)); }
    Py_XDECREF(r);
    r = vcall(o, "set", {vint(w)});
    if (w >= 0) CHK(r == Py_None); else { CHK(!r); CHK(err_is("neg", 3)); }
    Py_XDECREF(r);
    r = vcall(o, "get", {}); CHK(is_int(r, w >= 0 ? w : v)); Py_XDECREF(r);
    Py_DECREF(o); CHK(live() == 0);
    FINISH
}
HARNESS(args_fail) {     // any argument that cannot be converted: no call, nothing leaks, the right exception
    BEGIN
    uint32_t c0 = calls();
    i128 n = (int64_t)nd_u64(), m = (int64_t)nd_u64(); bool text = nd_bool();
    PyObject *r = scall("R", "two", {text ? vstr("abc", 3) : vnone(), vint(n), vint(m)});
    bool nok = n >= 0 && n <= 255, mrange = m >= 0 && m <= (i128)UINT32_MAX, mok = m == 1 || m == 4;
    bool ok = text && nok && mok;
    CHK((r != 0) == ok);
    if (r) CHK(is_int(r, 3 + n + m));
    else if (!text) CHK(raised(PyExc_TypeError));
    else if (!nok || !mrange) CHK(raised(PyExc_OverflowError));
    else CHK(raised(PyExc_ValueError));
    Py_XDECREF(r);
    CHK(calls() == c0 + ok);
    FINISH
}
HARNESS(args_object) {    // an argument that must be an object of an exported class
    BEGIN
    uint32_t c0 = calls();
    int32_t v = (int32_t)(int16_t)nd_u16(); i128 n = (int64_t)nd_u64(); uint32_t k = nd_pick(4);
    PyObject *o = vnew("Part", {vint(v)}); CHK(o != 0);
    PyObject *p;
    switch (k) { case 0: p = o; Py_INCREF(o); break; case 1: p = vnone(); break; case 2: p = vint(4); break; default: p = vclass("Part"); }
    PyObject *r = scall("R", "parts", {vstr("xy", 2), p, vint(n)});
    bool ok = k == 0 && n >= -128 && n <= 127;
    CHK((r != 0) == ok);
    if (r) CHK(is_int(r, 2 + v + n)); else CHK(raised(k ? PyExc_TypeError : PyExc_OverflowError));
    Py_XDECREF(r);
    CHK(calls() == c0 + ok);
    Py_DECREF(o); CHK(live() == 0);
    FINISH
}
HARNESS(args_enum_msg) {   // the message names the value and the enum
    BEGIN
    PyObject *r = scall("R", "mode", {vbool(true), vint(7)});
    CHK(!r);
    static const char M[] = "7 is not valid value for enum Mode";
    CHK(raised_msg(PyExc_ValueError, M, sizeof M - 1));
    FINISH
}
HARNESS(args_modes) {
    BEGIN
    uint32_t c0 = calls(), a = nd_u32(), b = nd_u32(), c = nd_u32(); bool none = nd_bool();
    PyObject *r = scall("R", "modes", {vlist({vint(a), vint(b)}), none ? vnone() : vint(c)});
    auto good = [](uint32_t x) { return x == 1 || x == 4; };
    bool ok = good(a) && good(b) && (none || good(c));
    CHK((r != 0) == ok);
    if (r) CHK(is_int(r, 2 + !none)); else CHK(raised(PyExc_ValueError));
    Py_XDECREF(r);
    CHK(calls() == c0 + ok);
    FINISH
}
HARNESS(after_failure) {   // a failure leaves nothing pending: the next call works
    BEGIN
    PyObject *r = scall("R", "unit", {vbool(false)}); CHK(!r); CHK(err_is("no", 2));
    uint8_t k = nd_u8(); r = scall("R", "wrapped", {vint(k)}); CHK(!r); PyErr_Clear();
    r = scall("R", "unit", {vbool(true)}); CHK(r == Py_None); Py_XDECREF(r);
    FINISH
}
HARNESS(err_long) {     // long messages
    BEGIN
    static const uint32_t N[] = {64, 257, 1030}; uint32_t n = N[nd_pick(3)]; uint8_t c = nd_u8(); v_assume(c < 0x80); static char b[1040];
    for (uint32_t i = 0; i < n; i++) b[i] = (char)('a' + i % 26);
    b[n / 2] = (char)c;
    PyObject *r = scall("R", "int", {vbool(false), vint(1), vstr(b, n)}); CHK(!r); CHK(err_is(b, n));
    FINISH
}
