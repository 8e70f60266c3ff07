#include "vpy.h"
#define BEGIN v_allow_leak(); vpy_module(); uint64_t live0 = v_live();
#define FINISH CHK(live() == 0); CHK(!PyErr_Occurred()); CHK(v_live() == live0);
static i128 take_int(PyObject *r) { i128 v = 0; CHK(vint_get(r, &v)); Py_XDECREF(r); return v; }
static int live() { return (int)take_int(scall("St", "live", {})); }
static int made() { return (int)take_int(scall("St", "made", {})); }
static i128 get(PyObject *o) { return take_int(vcall(o, "get", {})); }
static PyObject *ref(PyObject *o) { Py_INCREF(o); return o; }
static bool is_a(PyObject *o, const char *c) { PyObject *k = vclass(c); bool r = o && Py_TYPE(o) == (PyTypeObject *)k; Py_DECREF(k); return r; }
static int32_t nd_i() { return (int32_t)nd_u32(); }
#ifdef VP_THOROUGH
#define STEPS 6
#else
#define STEPS 4
#endif
// one object, two references, any short history: the state is the one Rust object's; it is dropped with the last reference, once
static void history(const char *cls, bool mut) {
    BEGIN
    int32_t s = nd_i();
    PyObject *a = vnew(cls, {vint(s)}), *b = 0;
    CHK(is_a(a, cls) && live() == 1 && made() == 1);
    for (int i = 0; i < STEPS && a; i++) switch (nd_pick(mut ? 4 : 3)) {
    case 0: CHK(get(b ? b : a) == s); break;
    case 1: if (!b) b = ref(a); break;
    case 2: Py_DECREF(a); a = b; b = 0; CHK(live() == (a ? 1 : 0)); break;
    default: { int32_t v = nd_i(); PyObject *r = vcall(b ? b : a, "set", {vint(v)}); CHK(r == Py_None); Py_XDECREF(r); s = v; CHK(get(a) == v); } }
    Py_XDECREF(a); Py_XDECREF(b);
    CHK(made() == 1);
    FINISH
}
HARNESS(hist_mutex) { history("Mx", true); }
HARNESS(hist_emutex) { history("Em", true); }
HARNESS(hist_box) { history("Bx", false); }
HARNESS(hist_arc) { history("Ar", false); }
HARNESS(hist_arcmutex) { history("Am", true); }
HARNESS(alias) {
    BEGIN
    int32_t v = nd_i(), d = nd_i();
    PyObject *a = vnew("Mx", {vint(v)}), *m = vattr(a, "plus");
    int32_t e = (int32_t)((uint32_t)v + (uint32_t)d);
    CHK(take_int(vcallf(m, {vint(d)})) == e);
    Py_DECREF(a); CHK(live() == 1);              // a bound method keeps its object alive
    CHK(take_int(vcallf(m, {vint(0)})) == e);
    Py_DECREF(m);
    FINISH
}
HARNESS(ref_ret) { BEGIN int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)}); CHK(take_int(vcall(a, "val", {})) == v); Py_DECREF(a); FINISH }
HARNESS(repr) {
    BEGIN
    int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)});
    PyObject *r = PyObject_Repr(a); CHK(is_str(r, v < 0 ? "neg" : "pos", 3)); Py_XDECREF(r); Py_DECREF(a);
    FINISH
}
static void two(const char *cls) {
    BEGIN
    int32_t v = nd_i(), w = nd_i();
    PyObject *a = vnew(cls, {vint(v)}), *b = vnew(cls, {vint(w)});
    CHK(live() == 2);
    CHK(take_int(vcall(a, "diff", {ref(b)})) == (i128)v - w);
    CHK(get(a) == v && get(b) == w);
    Py_DECREF(b); CHK(live() == 1); Py_DECREF(a);
    FINISH
}
HARNESS(two_mutex) { two("Mx"); }
HARNESS(two_box) { two("Bx"); }
HARNESS(two_arc) { two("Ar"); }
static void self_arg(const char *cls) { BEGIN int32_t v = nd_i(); PyObject *a = vnew(cls, {vint(v)}); CHK(take_int(vcall(a, "diff", {ref(a)})) == 0); Py_DECREF(a); FINISH }
HARNESS(self_arg_box) { self_arg("Bx"); }
HARNESS(self_arg_arc) { self_arg("Ar"); }
HARNESS(self_arg_mutex) { self_arg("Mx"); }
HARNESS(mut_arg) {
    BEGIN
    int32_t v = nd_i(), w = nd_i();
    PyObject *a = vnew("Mx", {vint(v)}), *b = vnew("Mx", {vint(w)});
    PyObject *r = vcall(a, "take", {ref(b)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(get(a) == w && get(b) == 0);
    r = scall("Mx", "bump", {ref(b), vint(v)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(get(b) == v && get(a) == w);
    Py_DECREF(a); Py_DECREF(b);
    FINISH
}
HARNESS(mut_arg_am) {
    BEGIN
    int32_t v = nd_i(), d = nd_i(); PyObject *a = vnew("Am", {vint(v)});
    PyObject *r = scall("Am", "bump", {ref(a), vint(d)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(get(a) == (int32_t)((uint32_t)v + (uint32_t)d)); Py_DECREF(a);
    FINISH
}
// by value: Rust gets a clone; the Python object keeps its own
static void by_value(const char *cls) {
    BEGIN
    int32_t v = nd_i(); PyObject *a = vnew(cls, {vint(v)});
    CHK(take_int(scall(cls, "eat", {ref(a)})) == v);
    CHK(live() == 1 && made() == 2 && get(a) == v);
    Py_DECREF(a);
    FINISH
}
HARNESS(by_value_mutex) { by_value("Mx"); }
HARNESS(by_value_box) { by_value("Bx"); }
HARNESS(by_value_am) { by_value("Am"); }
HARNESS(by_value_two) {
    BEGIN
    int32_t v = nd_i(), w = nd_i(); PyObject *a = vnew("Mx", {vint(v)}), *b = vnew("Mx", {vint(w)});
    CHK(take_int(scall("Mx", "eat2", {ref(a), ref(b)})) == (i128)v * 2 - w);
    CHK(take_int(vcall(a, "with", {ref(b)})) == (i128)v * 2 - w);
    CHK(live() == 2); Py_DECREF(a); Py_DECREF(b);
    FINISH
}
HARNESS(by_value_twice) { BEGIN int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)}); CHK(take_int(scall("Mx", "eat2", {ref(a), ref(a)})) == v); CHK(live() == 1); Py_DECREF(a); FINISH }
HARNESS(by_value_self) { BEGIN int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)}); CHK(take_int(vcall(a, "with", {ref(a)})) == v); CHK(live() == 1); Py_DECREF(a); FINISH }
// returned objects are new Python objects owning their own Rust object
static void returned(const char *cls, const char *m, bool on_obj) {
    BEGIN
    int32_t v = nd_i(); PyObject *a = vnew(cls, {vint(v)});
    PyObject *b = on_obj ? vcall(a, m, {}) : scall(cls, m, {ref(a)});
    CHK(is_a(b, cls) && b != a && live() == 2 && Py_REFCNT(b) == 1);
    Py_DECREF(a); CHK(live() == 1); CHK(get(b) == v); Py_XDECREF(b);
    FINISH
}
HARNESS(ret_dup) { returned("Mx", "dup", true); }
HARNESS(ret_clone_mx) { returned("Mx", "clone", true); }
HARNESS(ret_clone_bx) { returned("Bx", "clone", true); }
HARNESS(ret_same_bx) { returned("Bx", "same", false); }
static void made_by(const char *cls, const char *m) { BEGIN int32_t v = nd_i(); PyObject *b = scall(cls, m, {vint(v)}); CHK(is_a(b, cls) && live() == 1 && made() == 1); CHK(get(b) == v); Py_XDECREF(b); FINISH }
HARNESS(ret_bare_bx) { made_by("Bx", "bare"); }
HARNESS(ret_bare_em) { made_by("Em", "other"); }
HARNESS(ret_opt) {
    BEGIN
    bool k = nd_bool(); int32_t v = nd_i();
    PyObject *r = scall("Mx", "maybe", {vbool(k), vint(v)});
    if (k) { CHK(is_a(r, "Mx")); CHK(live() == 1 && get(r) == v); } else CHK(r == Py_None);
    Py_XDECREF(r);
    FINISH
}
HARNESS(ret_vec) {
    BEGIN
    uint32_t n = nd_pick(3); int32_t v = nd_i();
    PyObject *r = scall("Mx", "many", {vint(n), vint(v)});
    CHK(r && PyList_Check(r) && PyList_Size(r) == (Py_ssize_t)n && live() == (int)n);
    for (uint32_t i = 0; i < n; i++) CHK(get(PyList_GetItem(r, i)) == (int32_t)((uint32_t)v + i));
    PyObject *last = n ? ref(PyList_GetItem(r, n - 1)) : 0;
    Py_DECREF(r);
    CHK(live() == (n ? 1 : 0)); if (last) CHK(get(last) == (int32_t)((uint32_t)v + n - 1)); Py_XDECREF(last);
    FINISH
}
HARNESS(ret_pair) {
    BEGIN
    int32_t v = nd_i(); PyObject *r = scall("Mx", "pair", {vint(v)});
    CHK(r && PyTuple_Check(r) && PyTuple_Size(r) == 2); CHK(is_int(PyTuple_GetItem(r, 0), v)); CHK(get(PyTuple_GetItem(r, 1)) == v); Py_DECREF(r);
    FINISH
}
HARNESS(arg_opt) {
    BEGIN
    bool k = nd_bool(); int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)});
    CHK(take_int(scall("Mx", "opt", {k ? ref(a) : vnone()})) == (k ? (i128)v : (i128)1 << 40));
    CHK(live() == 1); Py_DECREF(a);
    FINISH
}
static void arg_vec(const char *cls, const char *m) {
    BEGIN
    uint32_t n = nd_pick(3); int32_t v = nd_i(), w = nd_i();
    PyObject *a = vnew(cls, {vint(v)}), *b = vnew(cls, {vint(w)});
    PyObject *l = n == 0 ? vlist({}) : n == 1 ? vlist({ref(a)}) : vlist({ref(a), ref(b)});
    CHK(take_int(scall(cls, m, {l})) == (n == 0 ? (i128)0 : n == 1 ? (i128)v : (i128)v + 2 * (i128)w));
    CHK(live() == 2 && get(a) == v && get(b) == w); Py_DECREF(a); Py_DECREF(b);
    FINISH
}
HARNESS(arg_vec_mx) { arg_vec("Mx", "sum"); }
HARNESS(arg_slice_mx) { arg_vec("Mx", "ssum"); }
HARNESS(arg_vec_bx) { arg_vec("Bx", "sum"); }
HARNESS(arg_vec_same) { BEGIN int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)}); CHK(take_int(scall("Mx", "sum", {vlist({ref(a), ref(a)})})) == 3 * (i128)v); CHK(live() == 1); Py_DECREF(a); FINISH }
HARNESS(vec_wrong) {   // one foreign element: TypeError, nothing kept
    BEGIN
    int32_t v = nd_i(); PyObject *a = vnew("Mx", {vint(v)}), *x = vnew("Bx", {vint(v)}); bool first = nd_bool();
    PyObject *r = scall("Mx", "sum", {first ? vlist({x, ref(a)}) : vlist({ref(a), x})});
    CHK(!r); CHK(raised(PyExc_TypeError)); CHK(live() == 1); Py_DECREF(a);
    FINISH
}
HARNESS(wrong_class) {
    BEGIN
    PyObject *a = vnew("Mx", {vint(1)}), *x; uint32_t k = nd_pick(4);
    switch (k) { case 0: x = vnew("Bx", {vint(1)}); break; case 1: x = vnew("Am", {vint(1)}); break; case 2: x = vnone(); break; default: x = vint(3); }
    PyObject *r = nd_bool() ? vcall(a, "diff", {x}) : scall("Mx", "eat", {x});
    CHK(!r); CHK(raised(PyExc_TypeError)); CHK(live() == 1); Py_DECREF(a);
    FINISH
}
HARNESS(mutex_ref) {
    BEGIN
    int32_t v = nd_i(), w = nd_i(); PyObject *a = vnew("Mx", {vint(v)});
    CHK(take_int(scall("Mx", "lock_get", {ref(a)})) == v); Py_DECREF(a);
    a = vnew("Em", {vint(v)}); CHK(take_int(scall("Em", "inside", {ref(a), vint(w)})) == v); CHK(get(a) == w); Py_DECREF(a);
    FINISH
}
// shared storage: Rust and Python hold the same object
HARNESS(share_arc) {
    BEGIN
    int32_t v = nd_i(); PyObject *a = vnew("Ar", {vint(v)});
    CHK(take_int(scall("Ar", "count", {ref(a)})) == 1);
    PyObject *r = scall("Ar", "keep", {ref(a)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(live() == 1 && made() == 1); CHK(take_int(scall("Ar", "count", {ref(a)})) == 2);
    PyObject *b = scall("Ar", "kept", {}); CHK(is_a(b, "Ar")); CHK(take_int(scall("Ar", "count", {ref(b)})) == 3);
    r = scall("Ar", "ident", {ref(a), ref(b)}); CHK(r == Py_True); Py_XDECREF(r);
    PyObject *c = scall("Ar", "same", {ref(a)}); CHK(is_a(c, "Ar")); r = scall("Ar", "ident", {ref(a), ref(c)}); CHK(r == Py_True); Py_XDECREF(r); Py_XDECREF(c);
    Py_DECREF(a); CHK(live() == 1); CHK(get(b) == v);
    bool order = nd_bool();
    if (order) { Py_DECREF(b); CHK(live() == 1); }
    r = scall("Ar", "unkeep", {}); Py_XDECREF(r);
    if (!order) { CHK(live() == 1); CHK(get(b) == v); Py_DECREF(b); }
    FINISH
}
HARNESS(share_arcmutex) {
    BEGIN
    int32_t v = nd_i(), w = nd_i(), x = nd_i(); PyObject *a = vnew("Am", {vint(v)});
    PyObject *r = scall("Am", "keep", {ref(a)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(live() == 1 && made() == 1);
    r = scall("Am", "poke", {vint(w)}); Py_XDECREF(r); CHK(get(a) == w);
    PyObject *b = scall("Am", "kept", {}); CHK(is_a(b, "Am")); r = vcall(b, "set", {vint(x)}); Py_XDECREF(r);
    CHK(get(a) == x); CHK(take_int(scall("Am", "peek", {ref(a)})) == x);
    Py_DECREF(a); CHK(live() == 1); CHK(get(b) == x);
    r = scall("Am", "unkeep", {}); Py_XDECREF(r); CHK(live() == 1); Py_DECREF(b);
    FINISH
}
HARNESS(share_vec) {
    BEGIN
    int32_t x = nd_i(); uint32_t n = nd_pick(3); PyObject *a = vnew("Am", {vint(1)}), *b = vnew("Am", {vint(2)});
    CHK(take_int(scall("Am", "all", {n == 0 ? vlist({}) : n == 1 ? vlist({ref(b)}) : vlist({ref(b), ref(a)}), vint(x)})) == n);
    CHK(get(b) == (n ? (i128)x : 2) && get(a) == (n == 2 ? (i128)x : 1)); CHK(live() == 2 && made() == 2);
    Py_DECREF(a); Py_DECREF(b);
    FINISH
}
HARNESS(inline_fns) {
    BEGIN
    int32_t a = nd_i(), b = nd_i(), k = nd_i(), j = nd_i();
#define T(x) ((int32_t)take_int(x))
#define M3(w, v) (int32_t)(((uint32_t)(w) * 3u) ^ (uint32_t)(v))
#define SUB(p, q) (int32_t)((uint32_t)(p) - (uint32_t)(q))
    PyObject *x = vnew("Inl", {vint(a), vint(b)}), *y = vnew("Inl", {vint(~k), vint(k)});
    CHK(T(vcall(x, "val", {})) == M3(a, b)); CHK(T(vcall(y, "val", {})) == M3(~k, k));
    CHK(T(scall("Inl", "sub", {vint(a), vint(b)})) == (b > a ? SUB(b, a) : (a ^ 5)));
    CHK(T(vcall(x, "eat", {vint(k), ref(y), vint(j)})) == (k > j ? SUB(b, ~k) : SUB(k, a)));
    CHK(T(vcall(x, "put", {vint(j), vint(k)})) == b); CHK(T(vcall(x, "val", {})) == M3(j, k)); CHK(T(vcall(y, "val", {})) == M3(~k, k));
    PyObject *r = vcall(x, "add_to", {ref(y)}); CHK(r == Py_None); Py_XDECREF(r);
    CHK(T(vcall(y, "val", {})) == M3(~k ^ j, (uint32_t)k + (uint32_t)k)); CHK(T(vcall(x, "val", {})) == M3(j, k));
    r = vcall(x, "pick", {vint(a)}); if (a > k) { CHK(r == Py_None); Py_XDECREF(r); } else CHK(T(r) == (a ^ j));
    r = scall("Inl", "fail", {vint(b)}); if (b < 0) { CHK(r == 0 && PyErr_Occurred()); PyErr_Clear(); } else CHK(T(r) == b);
    r = vcall(x, "dup", {vint(b)}); CHK(is_a(r, "Inl")); CHK(T(vcall(r, "val", {})) == M3(k, b)); Py_XDECREF(r);
    Py_DECREF(x); Py_DECREF(y);
    FINISH
}
