#include "vh.h"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Item.hpp"
#include "rust_interface/Plain.hpp"
#include "rust_interface/Holder.hpp"
#include "rust_interface/F.hpp"
#include "rust_interface/Construct.hpp"
#include "rust_interface/Reunion.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { STEPS = 4 };
#else
enum { STEPS = 3 };
#endif
static ObjOpaque *raw(const Obj &o) { return static_cast<ObjOpaque *>(o); }
HARNESS(scope) { uint32_t x = nd_u32(), y = nd_u32(); { Obj a(x); CHK(a.v() == x); a.set(y); CHK(a.v() == y); CHK(Obj::drops() == 0); { Obj b = a.dup(); CHK(b.v() == y); b.set(x); CHK(a.v() == y); } CHK(Obj::drops() == 1); CHK(Obj::last() == x); CHK(a.v() == y); } CHK(Obj::drops() == 2); CHK(Obj::last() == y); CHK(v_live() == 0); }
HARNESS(move_ctor) { uint32_t x = nd_u32(); { Obj a(x); Obj b(std::move(a)); CHK(raw(a) == nullptr); CHK(b.v() == x); Obj c(std::move(b)); CHK(raw(b) == nullptr); CHK(c.v() == x); CHK(Obj::drops() == 0); } CHK(Obj::drops() == 1); CHK(Obj::last() == x); }
HARNESS(move_assign) { uint32_t x = nd_u32(), y = nd_u32(); { Obj a(x), b(y); a = std::move(b); CHK(Obj::drops() == 1); CHK(Obj::last() == x); CHK(raw(b) == nullptr); CHK(a.v() == y); b = Obj(x); CHK(b.v() == x); CHK(Obj::drops() == 1); b = std::move(a); CHK(Obj::drops() == 2); CHK(Obj::last() == x); a = std::move(b); CHK(Obj::drops() == 2); CHK(a.v() == y); } CHK(Obj::drops() == 3); }
HARNESS(release) { uint32_t x = nd_u32(); { Obj a(x); ObjOpaque *p = a.release(); CHK(raw(a) == nullptr); CHK(p != nullptr); CHK(Obj::drops() == 0); Obj b(p); CHK(raw(b) == p); CHK(b.v() == x); CHK(a.release() == nullptr); } CHK(Obj::drops() == 1); }
HARNESS(refs) {
    uint32_t x = nd_u32(), y = nd_u32();
    { Obj a(x); { ObjRef r = a.as_rref(); CHK(r.v() == x); a.set(y); CHK(r.v() == y); CHK(r.as_cref().v() == y); CHK(F::look(r.as_cref()) == y); ObjRef q(std::move(r)); CHK(q.v() == y); q = a.as_rref(); CHK(q.v() == y); ObjRef w{static_cast<const ObjOpaque *>(raw(a))}; CHK(w.v() == y); Obj d = w.dup(); CHK(d.v() == y); }
      CHK(Obj::drops() == 1); CHK(a.v() == y); }
    CHK(Obj::drops() == 2);
}
HARNESS(by_value) { uint32_t x = nd_u32(), y = nd_u32(); uint8_t z = nd_u8(); Obj a(x), b(y); CHK(F::eat2(std::move(a), z, std::move(b)) == (((uint64_t)x << 32) | y) + z); CHK(raw(a) == nullptr && raw(b) == nullptr); CHK(Obj::drops() == 2); CHK(F::eat(Obj(y)) == y); CHK(Obj::drops() == 3); CHK(Obj::last() == y); }
HARNESS(echo) { uint32_t x = nd_u32(); { Obj a(x); Obj b = F::echo(std::move(a)); CHK(raw(a) == nullptr); CHK(b.v() == x); CHK(Obj::drops() == 0); b = F::echo(std::move(b)); CHK(b.v() == x); CHK(Obj::drops() == 0); } CHK(Obj::drops() == 1); }
HARNESS(by_ref) { uint32_t x = nd_u32(), y = nd_u32(); { Obj a(x), b(y); CHK(F::look(a) == x); F::poke(a, y); CHK(a.v() == y); F::poke(b, x); CHK(F::look(b) == x); CHK(F::look(a) == y); CHK(Obj::drops() == 0); } CHK(Obj::drops() == 2); }
HARNESS(pick) { bool f = nd_bool(); uint32_t x = nd_u32(), y = nd_u32(); { Obj o = F::pick(f, Obj(x), Obj(y)); CHK(o.v() == (f ? x : y)); CHK(Obj::drops() == 1); CHK(Obj::last() == (f ? y : x)); } CHK(Obj::drops() == 2); }
HARNESS(opt) { bool some = nd_bool(); uint32_t x = nd_u32(); { std::optional<Obj> o; if (some) o = Obj(x); CHK(F::opt(std::move(o)) == (some ? x : 0)); CHK(Obj::drops() == (some ? 1 : 0)); } CHK(Obj::drops() == (some ? 1 : 0)); }
HARNESS(pair) { uint32_t x = nd_u32(), y = nd_u32(); { auto p = F::pair(x, y); CHK(p.first.v() == x && p.second.v() == y); if (nd_bool()) { Obj a = std::move(p.first); CHK(a.v() == x); } else p.second = std::move(p.first); CHK(Obj::drops() == 1); } CHK(Obj::drops() == 2); }
HARNESS(item) { uint64_t n = nd_u64(), m = nd_u64(); { Item a = Item::make(n); CHK(a.n() == n); Item b = Item::make(m); a = std::move(b); CHK(Obj::drops() == 1); CHK(a.n() == m); ItemRef r = a.as_rref(); CHK(r.n() == m); } CHK(Obj::drops() == 2); }
HARNESS(plain) { uint16_t x = nd_u16(), y = nd_u16(); { Plain a(x), b(y); CHK(a.v() == x); a = std::move(b); CHK(Obj::drops() == 1); CHK(a.v() == y); Plain c = Plain::echo(std::move(a)); CHK(c.v() == y); PlainOpaque *p = c.release(); Plain d(p); CHK(d.v() == y); if (nd_bool()) CHK(Plain::eat(std::move(d)) == y); } CHK(Obj::drops() == 2); }
HARNESS(holder) {
    uint32_t x = nd_u32(), y = nd_u32(), z = nd_u32();
    { Holder h(x); { ObjRef f = h.first(); CHK(f.v() == x); ItemRef i = h.item(); CHK(i.n() == (uint64_t)x + 1); } CHK(Obj::drops() == 0);
      h.put(Obj(y)); { ObjRef p = h.peek(); CHK(p.v() == y); ObjRef q = h.peek_mut(); CHK(q.v() == y); CHK((const ObjOpaque *)p == (const ObjOpaque *)q); CHK(F::look(q.as_cref()) == y); } CHK(Obj::drops() == 0);
      { Obj o = h.swap(Obj(z)); CHK(o.v() == x); CHK(h.first().v() == z); } CHK(Obj::drops() == 1); CHK(Obj::last() == x);
      switch (nd_pick(4)) { case 0: h.clear(); CHK(Obj::drops() == 2); CHK(Obj::last() == y); break; case 1: { Obj t = h.take(); CHK(t.v() == y); } CHK(Obj::drops() == 2); break; case 2: h.put(Obj(x)); CHK(Obj::drops() == 2); CHK(Obj::last() == y); CHK(h.peek().v() == x); break; default:; } }
    CHK(Obj::drops() >= 4);
}
// every sequence of operations on two wrappers, a raw pointer and a Rust-side holder; value 0 means "no object"
HARNESS(history) {
    uint32_t made = 3, dropped = 0;
    {
        Holder h(1000); Obj s[2] = {Obj(1), Obj(2)}; uint32_t v[2] = {1, 2}, hv = 0, rv = 0; ObjOpaque *raw_p = nullptr;
        for (int step = 0; step < STEPS; step++) {
            uint32_t i = nd_pick(2), j = 1 - i, nv = 10 + step;
            switch (nd_pick(11)) {
            case 0: dropped += v[i] != 0; s[i] = Obj(nv); made++; v[i] = nv; break;
            case 1: dropped += v[i] != 0; s[i] = std::move(s[j]); v[i] = v[j]; v[j] = 0; break;
            case 2: { Obj t(std::move(s[i])); if (v[i]) CHK(t.v() == v[i]); CHK(raw(s[i]) == nullptr); uint32_t tv = v[i]; v[i] = 0; if (nd_bool()) { dropped += v[j] != 0; s[j] = std::move(t); v[j] = tv; } else dropped += tv != 0; break; }
            case 3: if (rv) continue; raw_p = s[i].release(); rv = v[i]; CHK((raw_p != nullptr) == (rv != 0)); v[i] = 0; break;
            case 4: if (!rv) continue; dropped += v[i] != 0; s[i] = Obj(raw_p); v[i] = rv; rv = 0; break;
            case 5: if (!v[i]) continue; dropped += hv != 0; h.put(std::move(s[i])); hv = v[i]; v[i] = 0; break;
            case 6: if (!hv) continue; dropped += v[i] != 0; s[i] = h.take(); v[i] = hv; hv = 0; break;
            case 7: if (!v[i]) continue; { ObjRef r = s[i].as_rref(); CHK(r.v() == v[i]); s[i].set(nv); CHK(r.v() == nv); v[i] = nv; } break;
            case 8: if (!v[i]) continue; CHK(F::eat(std::move(s[i])) == v[i]); dropped++; v[i] = 0; break;
            case 9: if (!v[i]) continue; dropped += v[j] != 0; s[j] = F::echo(std::move(s[i])); v[j] = v[i]; v[i] = 0; break;
            case 10: if (!v[i]) continue; { Obj d = s[i].dup(); made++; CHK(d.v() == v[i]); if (nd_bool()) { dropped += v[j] != 0; s[j] = std::move(d); v[j] = v[i]; } else dropped++; } break;
            }
            CHK(Obj::drops() == dropped);
            for (int k = 0; k < 2; k++) { CHK((raw(s[k]) != nullptr) == (v[k] != 0)); if (v[k]) CHK(s[k].v() == v[k]); }
            if (hv) CHK(h.peek().v() == hv);
        }
        if (rv) { Obj adopt(raw_p); CHK(adopt.v() == rv); }
    }
    CHK(Obj::drops() == made + 1);   // the holder's item counts too
}
HARNESS(keyword_names) {
    uint32_t x = nd_u32(), y = nd_u32(); bool yes = nd_bool();
    { Construct a = Construct::make(x); CHK(a.v() == x); CHK(a.me().v() == x); CHK(Obj::drops() == 0);
      auto o = Construct::some(yes, y); CHK(o.has_value() == yes); if (yes) CHK(o->v() == y);
      auto p = Construct::two(y, x); CHK(p.first.v() == y && p.second.v() == x);
      Construct b = Construct::echo(std::move(p.first)); CHK(b.v() == y); CHK(Obj::drops() == 0);
      Reunion r(std::move(a)); CHK(r.inner().v() == x); Reunion q = Reunion::again(std::move(b)); CHK(q.inner().v() == y);
      Construct c = Reunion::split(std::move(r)); CHK(c.v() == x); CHK(Obj::drops() == 0); }
    CHK(Obj::drops() == (yes ? 4u : 3u)); CHK(v_live() == 0);
}
