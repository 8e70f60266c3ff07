#include "vpy.h"
static i128 nd_big() { uint64_t lo = nd_u64(); int8_t hi = (int8_t)nd_u8(); return ((i128)hi << 64) | (i128)(unsigned __int128)lo; }
static uint32_t calls() { PyObject *r = scall("Num", "calls", {}); i128 v = -1; CHK(vint_get(r, &v)); Py_DECREF(r); return (uint32_t)v; }
#define BEGIN v_allow_leak(); vpy_module(); uint64_t live0 = v_live();
#define FINISH CHK(!PyErr_Occurred()); CHK(v_live() == live0);
// any Python int handed to an integer parameter: the exact value when it is in range, else OverflowError and no call
static void int_rt(const char *m, i128 lo, i128 hi) {
    BEGIN
    i128 x = nd_big();
    uint32_t c0 = calls();
    PyObject *r = scall("Num", m, {vint(x)});
    bool fits = x >= lo && x <= hi;
    CHK((r != 0) == fits);
    if (r) { CHK(is_int(r, x)); Py_DECREF(r); OBS(1); } else { CHK(raised(PyExc_OverflowError)); OBS(0); }
    CHK(calls() == c0 + (fits ? 1 : 0));
    FINISH
}
#define RT(name, m, lo, hi) HARNESS(name) { int_rt(m, lo, hi); }
RT(i8, "i8_", INT8_MIN, INT8_MAX)
RT(u8, "u8_", 0, UINT8_MAX)
RT(i16, "i16_", INT16_MIN, INT16_MAX)
RT(u16, "u16_", 0, UINT16_MAX)
RT(i32, "i32_", INT32_MIN, INT32_MAX)
RT(u32, "u32_", 0, UINT32_MAX)
RT(i64, "i64_", INT64_MIN, INT64_MAX)
RT(u64, "u64_", 0, UINT64_MAX)
RT(isize, "isize_", INT64_MIN, INT64_MAX)
RT(usize, "usize_", 0, UINT64_MAX)
// ---- wrong kinds of argument, bool, floats
static void not_int(const char *m) {
    BEGIN
    uint32_t c0 = calls();
    PyObject *a = 0;
    switch (nd_pick(4)) { case 0: a = vnone(); break; case 1: a = PyFloat_FromDouble(1.0); break; case 2: a = vstr("7", 1); break; default: a = vlist({}); }
    PyObject *r = scall("Num", m, {a});
    CHK(!r); CHK(raised(PyExc_TypeError)); CHK(calls() == c0);
    FINISH
}
HARNESS(not_int_i32) { not_int("i32_"); }
HARNESS(not_int_u64) { not_int("u64_"); }
HARNESS(not_int_enum) { not_int("enum_"); }
HARNESS(bool_as_int) {   // bool is an int in Python
    BEGIN
    bool b = nd_bool();
    PyObject *r = scall("Num", "i16_", {vbool(b)});
    CHK(is_int(r, b)); Py_XDECREF(r);
    FINISH
}
HARNESS(bool_) {
    BEGIN
    bool b = nd_bool();
    PyObject *r = scall("Num", "bool_", {vbool(b)});
    CHK(r == (b ? Py_False : Py_True)); Py_XDECREF(r);
    uint64_t x = nd_u64();
    r = scall("Num", "bool_", {vint((int64_t)x)});
    CHK(!r); CHK(raised(PyExc_TypeError));
    FINISH
}
HARNESS(f64) {
    BEGIN
    uint64_t x = nd_f64();
    PyObject *r = scall("Num", "f64_", {PyFloat_FromDouble(vp_f64(x))});
    CHK(r && Py_TYPE(r) == &PyFloat_Type);
    if (r) { double y = PyFloat_AsDouble(r); CHK(vp_b64(y) == x); Py_DECREF(r); }
    FINISH
}
HARNESS(f64_int) {
    BEGIN
    int16_t x = (int16_t)nd_u16();
    PyObject *r = scall("Num", "f64_", {vint(x)});
    CHK(r && Py_TYPE(r) == &PyFloat_Type && PyFloat_AsDouble(r) == (double)x);
    Py_XDECREF(r);
    r = scall("Num", "f64_", {vstr("1", 1)});
    CHK(!r); CHK(raised(PyExc_TypeError));
    FINISH
}
HARNESS(f32) {     // every f32 survives the trip through Python's float
    BEGIN
    uint32_t x = nd_f32();
    float f = vp_f32(x);
    PyObject *r = scall("Num", "f32_", {PyFloat_FromDouble((double)f)});
    CHK(r && Py_TYPE(r) == &PyFloat_Type);
    if (r) { double y = PyFloat_AsDouble(r); CHK(f != f ? y != y : y == (double)f); Py_DECREF(r); }
    FINISH
}
HARNESS(order) {
    BEGIN
    int32_t a = (int32_t)nd_u32(), b = (int32_t)nd_u32();
    PyObject *r = scall("Num", "sub", {vint(a), vint(b)});
    CHK(is_int(r, (i128)a - b)); Py_XDECREF(r);
    uint8_t c = nd_u8();
    r = scall("Num", "ref_sum", {vint(a), vint(c)});
    CHK(is_int(r, (i128)a + c)); Py_XDECREF(r);
    FINISH
}
HARNESS(arity) {    // too few or too many arguments: TypeError, no call
    BEGIN
    uint32_t c0 = calls();
    PyObject *r = 0;
    switch (nd_pick(4)) {
    case 0: r = scall("Num", "sub", {vint(1)}); break;
    case 1: r = scall("Num", "sub", {vint(1), vint(2), vint(3)}); break;
    case 2: r = scall("Num", "i8_", {}); break;
    default: r = scall("Num", "calls", {vnone()}); }
    CHK(!r); CHK(raised(PyExc_TypeError)); CHK(calls() == c0);
    FINISH
}
HARNESS(unit) {
    BEGIN
    uint32_t x = nd_u32();
    PyObject *r = scall("Num", "nothing", {vint(x)});
    CHK(r == Py_None); Py_XDECREF(r);
    CHK(calls() == x);
    FINISH
}
// ---- enums: class constants are the Rust discriminants; only those are accepted
static const uint32_t DISC[4] = {0, 7, 3, 0x800000C8u};
static const char *const ENAME[4] = {"RED", "GREEN", "BLUE", "FAR"};
HARNESS(enum_consts) {
    BEGIN
    PyObject *k = vclass("Color");
    for (int i = 0; i < 4; i++) { PyObject *c = vattr(k, ENAME[i]); CHK(is_int(c, DISC[i])); Py_XDECREF(c); }
    Py_DECREF(k);
    FINISH
}
HARNESS(enum_swap) {
    BEGIN
    static const char *const M[] = {"Bee", "Cat", "Ant"}; static const int D[] = {4, 2, 9}; uint32_t n = nd_pick(3);
    PyObject *k = vclass("Swap"), *c = vattr(k, M[n]);
    CHK(is_int(c, D[n]));
    PyObject *r = scall("Num", "swap_no", {vint(D[n])}); CHK(is_int(r, n)); Py_XDECREF(r);
    r = scall("Num", "swap_of", {vint(n)}); CHK(is_int(r, D[n])); Py_XDECREF(r);
    Py_XDECREF(c); Py_DECREF(k);
    FINISH
}
HARNESS(enum_implicit) {
    BEGIN
    static const char *const M[] = {"Up", "Down", "Right", "Left"}; static const int D[] = {5, 1, 8, 3}; uint32_t n = nd_pick(4);
    PyObject *k = vclass("Way"), *c = vattr(k, M[n]);
    CHK(is_int(c, D[n]));
    PyObject *r = scall("Num", "way_no", {vint(D[n])}); CHK(is_int(r, n)); Py_XDECREF(r);
    r = scall("Num", "way_of", {vint(n)}); CHK(is_int(r, D[n])); Py_XDECREF(r);
    Py_XDECREF(c); Py_DECREF(k);
    FINISH
}
static int idx(i128 x) { for (int i = 0; i < 4; i++) if (x == DISC[i]) return i; return -1; }
static void enum_in(const char *m, bool index, bool opt) {
    BEGIN
    i128 x = nd_big();
    uint32_t c0 = calls();
    PyObject *r = scall("Num", m, {vint(x)});
    int i = idx(x);
    CHK((r != 0) == (i >= 0));
    if (r) { CHK(is_int(r, index ? i : DISC[(i + 1) % 4])); Py_DECREF(r); CHK(calls() > c0); }
    else { CHK(raised(x < 0 || x > UINT32_MAX ? PyExc_OverflowError : PyExc_ValueError)); CHK(calls() == c0); }
    FINISH
}
HARNESS(enum_) { enum_in("enum_", false, false); }
HARNESS(enum_ref) { enum_in("enum_index", true, false); }
HARNESS(enum_opt) { enum_in("enum_opt", false, true); }
HARNESS(enum_none) { BEGIN PyObject *r = scall("Num", "enum_opt", {vnone()}); CHK(r == Py_None); Py_XDECREF(r); FINISH }

// ---- text: any bytes up to N (ASCII symbolic, one optional multi-byte character), embedded zeros included
#ifdef VP_THOROUGH
#define TN 5
#else
#define TN 3
#endif
struct Text { char b[TN + 5]; size_t n; };
static Text nd_text(uint32_t maxn) {
    Text t; t.n = nd_pick(maxn + 1);
    for (size_t i = 0; i < t.n; i++) { uint8_t c = nd_u8(); v_assume(c < 0x80); t.b[i] = c; }
    switch (nd_pick(4)) { case 0: break;
    case 1: t.b[t.n++] = (char)0xc3; t.b[t.n++] = (char)0xa9; break;
    case 2: t.b[t.n++] = (char)0xe2; t.b[t.n++] = (char)0x82; t.b[t.n++] = (char)0xac; break;
    default: t.b[t.n++] = (char)0xf0; t.b[t.n++] = (char)0x9f; t.b[t.n++] = (char)0x98; t.b[t.n++] = (char)0x80; }
    return t; }
static void text_rt(const char *m) {
    BEGIN
    Text t = nd_text(TN);
    PyObject *r = scall("Txt", m, {vstr(t.b, t.n)});
    CHK(is_str(r, t.b, t.n)); Py_XDECREF(r);
    FINISH
}
HARNESS(str_own) { text_rt("own"); }
HARNESS(str_borrow) { text_rt("borrow"); }
HARNESS(str_opt) { text_rt("opt"); }
HARNESS(str_len) { BEGIN Text t = nd_text(TN); PyObject *r = scall("Txt", "len", {vstr(t.b, t.n)}); CHK(is_int(r, t.n)); Py_XDECREF(r); FINISH }
HARNESS(str_opt_len) {
    BEGIN
    PyObject *r = scall("Txt", "opt", {vnone()}); CHK(r == Py_None); Py_XDECREF(r);
    r = scall("Txt", "opt_len", {vnone()}); CHK(is_int(r, -1)); Py_XDECREF(r);
    Text t = nd_text(2); r = scall("Txt", "opt_len", {vstr(t.b, t.n)}); CHK(is_int(r, t.n)); Py_XDECREF(r);
    FINISH
}
HARNESS(str_cat) {
    BEGIN
    Text a = nd_text(2), b = nd_text(1);
    char c[24]; for (size_t i = 0; i < a.n; i++) c[i] = a.b[i]; for (size_t i = 0; i < b.n; i++) c[a.n + i] = b.b[i];
    PyObject *r = scall("Txt", "cat", {vstr(a.b, a.n), vstr(b.b, b.n)});
    CHK(is_str(r, c, a.n + b.n)); Py_XDECREF(r);
    FINISH
}
HARNESS(str_fixed) {
    BEGIN
    uint8_t k = nd_u8();
    PyObject *r = scall("Txt", "fixed", {vint(k)});
    CHK(k == 0 ? is_str(r, "", 0) : k == 1 ? is_str(r, "a\0b", 3) : is_str(r, "h\xc3\xa9\xe2\x82\xac", 6));
    Py_XDECREF(r);
    FINISH
}
HARNESS(str_bytes) {
    BEGIN
    Text t = nd_text(2);
    PyObject *r = scall("Txt", "bytes", {vstr(t.b, t.n)});
    CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)t.n);
    for (size_t i = 0; r && i < t.n; i++) CHK(is_int(PyList_GetItem(r, i), (uint8_t)t.b[i]));
    Py_XDECREF(r);
    FINISH
}
HARNESS(str_list) {
    BEGIN
    Text a = nd_text(1), b = nd_text(1);
    PyObject *r = scall("Txt", "list", {vlist({vstr(a.b, a.n), vstr(b.b, b.n)})});
    CHK(r && PyList_Check(r) && PyList_Size(r) == 2);
    if (r) { CHK(is_str(PyList_GetItem(r, 0), b.b, b.n)); CHK(is_str(PyList_GetItem(r, 1), a.b, a.n)); Py_DECREF(r); }
    FINISH
}
HARNESS(str_bad) {   // not text, or text that has no UTF-8 form
    BEGIN
    bool sur = false; PyObject *a;
    switch (nd_pick(4)) { case 0: a = vnone(); break; case 1: a = vint(5); break; case 2: a = vlist({}); break; default: sur = true; a = PyUnicode_FromOrdinal(0xd800); }
    static const char *const M[] = {"own", "borrow", "len"};
    PyObject *r = scall("Txt", M[nd_pick(3)], {a});
    CHK(!r); CHK(raised(sur ? PyExc_ValueError : PyExc_TypeError));
    FINISH
}

// ---- Option, Vec, slices, tuples
HARNESS(opt_i) {
    BEGIN
    bool none = nd_bool(); i128 x = nd_big();
    PyObject *r = scall("Agg", "opt_i", {none ? vnone() : vint(x)});
    if (none) CHK(r == Py_None);
    else if (x >= INT32_MIN && x <= INT32_MAX) CHK(is_int(r, x));
    else { CHK(!r); CHK(raised(PyExc_OverflowError)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(opt_u64) { BEGIN uint64_t x = nd_u64(); PyObject *r = scall("Agg", "opt_u64", {vint((i128)(unsigned __int128)x)}); CHK(is_int(r, (i128)(unsigned __int128)x)); Py_XDECREF(r); r = scall("Agg", "opt_u64", {vnone()}); CHK(r == Py_None); Py_XDECREF(r); FINISH }
HARNESS(opt_bool) { BEGIN uint32_t k = nd_pick(3); PyObject *r = scall("Agg", "opt_bool", {k == 2 ? vnone() : vbool(k)}); CHK(is_int(r, k == 2 ? -1 : (int)k)); Py_XDECREF(r); FINISH }
#ifdef VP_THOROUGH
#define VN 5
#else
#define VN 3
#endif
HARNESS(vec) {
    BEGIN
    size_t n = nd_pick(VN + 1); i128 v[VN]; bool tup = nd_bool(); bool fits = true;
    PyObject *l = tup ? PyTuple_New(n) : PyList_New(n);
    for (size_t i = 0; i < n; i++) { v[i] = (int32_t)nd_u32(); fits = fits && v[i] >= INT16_MIN && v[i] <= INT16_MAX; if (tup) PyTuple_SetItem(l, i, vint(v[i])); else PyList_SetItem(l, i, vint(v[i])); }
    PyObject *r = scall("Agg", "vec", {l});
    CHK((r != 0) == fits);
    if (r) { CHK(PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n); for (size_t i = 0; i < n; i++) CHK(is_int(PyList_GetItem(r, i), v[i])); Py_DECREF(r); }
    else CHK(raised(PyExc_OverflowError));
    FINISH
}
HARNESS(slice) {
    BEGIN
    size_t n = nd_pick(VN + 1); uint64_t s = 0;
    PyObject *l = PyList_New(n);
    for (size_t i = 0; i < n; i++) { uint32_t x = nd_u32(); s += (uint64_t)x * (i + 1); PyList_SetItem(l, i, vint(x)); }
    PyObject *r = scall("Agg", "slice", {l}); CHK(is_int(r, (i128)(unsigned __int128)s)); Py_XDECREF(r);
    FINISH
}
HARNESS(vec_opt) {
    BEGIN
    size_t n = nd_pick(3); uint8_t v[2]; bool none[2];
    PyObject *l = PyList_New(n);
    for (size_t i = 0; i < n; i++) { v[i] = nd_u8(); none[i] = nd_bool(); PyList_SetItem(l, i, none[i] ? vnone() : vint(v[i])); }
    PyObject *r = scall("Agg", "vec_opt", {l});
    CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n);
    for (size_t i = 0; r && i < n; i++) CHK(none[i] ? PyList_GetItem(r, i) == Py_None : is_int(PyList_GetItem(r, i), v[i]));
    Py_XDECREF(r);
    FINISH
}
HARNESS(vec_enum) {
    BEGIN
    size_t n = nd_pick(3); i128 v[2]; bool ok = true;
    PyObject *l = PyList_New(n);
    for (size_t i = 0; i < n; i++) { v[i] = nd_u32(); ok = ok && idx(v[i]) >= 0; PyList_SetItem(l, i, vint(v[i])); }
    PyObject *r = scall("Agg", "vec_enum", {l});
    CHK((r != 0) == ok);
    if (r) { CHK(PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n); for (size_t i = 0; i < n; i++) CHK(is_int(PyList_GetItem(r, i), DISC[(idx(v[i]) + 1) % 4])); Py_DECREF(r); }
    else CHK(raised(PyExc_ValueError));
    FINISH
}
HARNESS(vec_vec) {
    BEGIN
    size_t n = nd_pick(3), m = nd_pick(3); uint8_t a[2], b[2];
    PyObject *l = PyList_New(n), *k = PyList_New(m);
    for (size_t i = 0; i < n; i++) { a[i] = nd_u8(); PyList_SetItem(l, i, vint(a[i])); }
    for (size_t i = 0; i < m; i++) { b[i] = nd_u8(); PyList_SetItem(k, i, vint(b[i])); }
    PyObject *r = scall("Agg", "vec_vec", {vlist({l, k})});
    CHK(r && PyList_Check(r) && PyList_Size(r) == 2);
    if (r) {
        PyObject *x = PyList_GetItem(r, 0), *y = PyList_GetItem(r, 1);
        CHK(PyList_Check(x) && PyList_Size(x) == (Py_ssize_t)n && PyList_Check(y) && PyList_Size(y) == (Py_ssize_t)m);
        for (size_t i = 0; i < n; i++) CHK(is_int(PyList_GetItem(x, i), a[i]));
        for (size_t i = 0; i < m; i++) CHK(is_int(PyList_GetItem(y, i), b[i]));
        Py_DECREF(r);
    }
    FINISH
}
HARNESS(vec_bad) {
    BEGIN
    bool type = true; PyObject *a;
    switch (nd_pick(5)) { case 0: a = vnone(); break; case 1: a = vint(3); break; case 2: a = vlist({vint(1), vnone()}); break; case 3: a = vlist({vint(1), vstr("x", 1)}); break;
    default: type = false; a = vlist({vint(1), vint(256)}); }
    PyObject *r = scall("Agg", "vlen", {a});
    CHK(!r); CHK(raised(type ? PyExc_TypeError : PyExc_OverflowError));
    FINISH
}
HARNESS(opt_vec) {
    BEGIN
    uint32_t k = nd_pick(3); int8_t x = (int8_t)nd_u8();
    PyObject *r = scall("Agg", "opt_vec", {k == 0 ? vnone() : k == 1 ? vlist({}) : vlist({vint(x)})});
    if (k == 0) CHK(r == Py_None); else { CHK(r && PyList_Check(r) && PyList_Size(r) == k - 1); if (r && k == 2) CHK(is_int(PyList_GetItem(r, 0), x)); }
    Py_XDECREF(r);
    FINISH
}
HARNESS(tup_pair) {
    BEGIN
    int32_t a = (int32_t)nd_u32(); Text t = nd_text(2);
    PyObject *r = scall("Agg", "pair", {vint(a), vstr(t.b, t.n)});
    CHK(r && PyTuple_Check(r) && PyTuple_Size(r) == 2);
    if (r) { CHK(is_int(PyTuple_GetItem(r, 0), a)); CHK(is_str(PyTuple_GetItem(r, 1), t.b, t.n)); Py_DECREF(r); }
    FINISH
}
HARNESS(tup_triple) {
    BEGIN
    uint8_t a = nd_u8(); bool none = nd_bool(); int64_t b = (int64_t)nd_u64(); bool c = nd_bool();
    PyObject *r = scall("Agg", "triple", {vint(a), none ? vnone() : vint(b), vbool(c)});
    CHK(r && PyTuple_Check(r) && PyTuple_Size(r) == 3);
    if (r) { CHK(none ? PyTuple_GetItem(r, 0) == Py_None : is_int(PyTuple_GetItem(r, 0), b)); CHK(PyTuple_GetItem(r, 1) == (c ? Py_True : Py_False)); CHK(is_int(PyTuple_GetItem(r, 2), a)); Py_DECREF(r); }
    FINISH
}
HARNESS(tup_enum) {
    BEGIN
    uint32_t i = nd_pick(4), j = nd_pick(4);
    PyObject *r = scall("Agg", "tup_enum", {vint(DISC[i]), vint(DISC[j])});
    CHK(r && PyTuple_Check(r) && PyTuple_Size(r) == 2);
    if (r) { CHK(is_int(PyTuple_GetItem(r, 0), DISC[j])); CHK(is_int(PyTuple_GetItem(r, 1), DISC[i])); Py_DECREF(r); }
    FINISH
}
HARNESS(positions) { BEGIN
    uint8_t v[8]; uint64_t w = 0; for (auto &x : v) x = nd_u8();
    PyObject *r;
    r = scall("Ary", "s0", {}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[0] << 0;
    r = scall("Ary", "s1", {vint(v[0])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[1] << 8;
    r = scall("Ary", "s2", {vint(v[0]), vint(v[1])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[2] << 16;
    r = scall("Ary", "s3", {vint(v[0]), vint(v[1]), vint(v[2])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[3] << 24;
    r = scall("Ary", "s4", {vint(v[0]), vint(v[1]), vint(v[2]), vint(v[3])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[4] << 32;
    r = scall("Ary", "s5", {vint(v[0]), vint(v[1]), vint(v[2]), vint(v[3]), vint(v[4])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[5] << 40;
    r = scall("Ary", "s6", {vint(v[0]), vint(v[1]), vint(v[2]), vint(v[3]), vint(v[4]), vint(v[5])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[6] << 48;
    r = scall("Ary", "s7", {vint(v[0]), vint(v[1]), vint(v[2]), vint(v[3]), vint(v[4]), vint(v[5]), vint(v[6])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    w |= (uint64_t)v[7] << 56;
    r = scall("Ary", "s8", {vint(v[0]), vint(v[1]), vint(v[2]), vint(v[3]), vint(v[4]), vint(v[5]), vint(v[6]), vint(v[7])}); CHK(is_int(r, (i128)(unsigned __int128)w)); Py_XDECREF(r);
    FINISH
}
HARNESS(ret_slice) { BEGIN
    uint32_t n = nd_pick(4); int32_t v[3]; for (auto &x : v) x = (int32_t)nd_u32();
    PyObject *r = scall("Slc", "ints", {vint(v[0]), vint(v[1]), vint(v[2]), vint(n)});
    CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n); if (r) { for (uint32_t i = 0; i < n; i++) CHK(is_int(PyList_GetItem(r, i), v[i])); Py_DECREF(r); }
    r = scall("Slc", "opts", {vint(n)});
    CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n); if (r) { for (uint32_t i = 0; i < n; i++) { PyObject *x = PyList_GetItem(r, i); if (i == 1) CHK(x == Py_None); else CHK(is_int(x, i ? v[2] : v[0])); } Py_DECREF(r); }
    r = scall("Slc", "ints", {vint(v[2]), vint(v[0]), vint(v[1]), vint(0)}); CHK(r && PyList_Check(r) && PyList_Size(r) == 0); Py_XDECREF(r);
    FINISH
}
// sizes far beyond the other scenarios
HARNESS(huge_str) {
    BEGIN
    static const uint32_t N[] = {64, 255, 257, 1030}; uint32_t n = N[nd_pick(4)]; uint8_t c = nd_u8(); v_assume(c < 0x80); static char b[1040];
    for (uint32_t i = 0; i < n; i++) b[i] = (char)('a' + i % 26);
    b[n / 2] = (char)c; b[n - 2] = (char)0xc3; b[n - 1] = (char)0xa9;
    static const char *const M[] = {"own", "borrow", "opt"};
    for (auto m : M) { PyObject *r = scall("Txt", m, {vstr(b, n)}); CHK(is_str(r, b, n)); Py_XDECREF(r); }
    PyObject *r = scall("Txt", "bytes", {vstr(b, n)}); CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n);
    for (uint32_t i = 0; r && i < n; i++) CHK(is_int(PyList_GetItem(r, i), (uint8_t)b[i]));
    Py_XDECREF(r);
    FINISH
}
HARNESS(huge_vec) {
    BEGIN
    static const uint32_t N[] = {17, 65, 257}; uint32_t n = N[nd_pick(3)]; int32_t b = (int16_t)nd_u16(); uint64_t s = 0; auto at = [&](uint32_t i) { return i == n / 2 || i == n - 1 ? b : (int)i - 40; };
    PyObject *l = PyList_New(n), *u = PyList_New(n);
    for (uint32_t i = 0; i < n; i++) { PyList_SetItem(l, i, vint(at(i))); PyList_SetItem(u, i, vint(i * 3)); s += (uint64_t)i * 3 * (i + 1); }
    PyObject *r = scall("Agg", "vec", {l}); CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n);
    for (uint32_t i = 0; r && i < n; i++) CHK(is_int(PyList_GetItem(r, i), at(i)));
    Py_XDECREF(r);
    r = scall("Agg", "slice", {u}); CHK(is_int(r, (i128)(unsigned __int128)s)); Py_XDECREF(r);
    FINISH
}
