package com.example.rust;
import vp.V;
import java.util.Optional;
class H {
    static final int BIG = 66;
    // constant standing for the harness' number of a variant
    static Kind kind(int n) { return n == 0 ? Kind.AA : n == 1 ? Kind.BB : Kind.CC; }
    static Code code(int n) { return n == 0 ? Code.X : n == 1 ? Code.Y : n == 2 ? Code.Z : Code.W; }
    static Big big(int n) {
        switch (n) {
        case 0: return Big.X00;
        case 1: return Big.X01;
        case 2: return Big.X02;
        case 3: return Big.X03;
        case 4: return Big.X04;
        case 5: return Big.X05;
        case 6: return Big.X06;
        case 7: return Big.X07;
        case 8: return Big.X08;
        case 9: return Big.X09;
        case 10: return Big.X10;
        case 11: return Big.X11;
        case 12: return Big.X12;
        case 13: return Big.X13;
        case 14: return Big.X14;
        case 15: return Big.X15;
        case 16: return Big.X16;
        case 17: return Big.X17;
        case 18: return Big.X18;
        case 19: return Big.X19;
        case 20: return Big.X20;
        case 21: return Big.X21;
        case 22: return Big.X22;
        case 23: return Big.X23;
        case 24: return Big.X24;
        case 25: return Big.X25;
        case 26: return Big.X26;
        case 27: return Big.X27;
        case 28: return Big.X28;
        case 29: return Big.X29;
        case 30: return Big.X30;
        case 31: return Big.X31;
        case 32: return Big.X32;
        case 33: return Big.X33;
        case 34: return Big.X34;
        case 35: return Big.X35;
        case 36: return Big.X36;
        case 37: return Big.X37;
        case 38: return Big.X38;
        case 39: return Big.X39;
        case 40: return Big.X40;
        case 41: return Big.X41;
        case 42: return Big.X42;
        case 43: return Big.X43;
        case 44: return Big.X44;
        case 45: return Big.X45;
        case 46: return Big.X46;
        case 47: return Big.X47;
        case 48: return Big.X48;
        case 49: return Big.X49;
        case 50: return Big.X50;
        case 51: return Big.X51;
        case 52: return Big.X52;
        case 53: return Big.X53;
        case 54: return Big.X54;
        case 55: return Big.X55;
        case 56: return Big.X56;
        case 57: return Big.X57;
        case 58: return Big.X58;
        case 59: return Big.X59;
        case 60: return Big.X60;
        case 61: return Big.X61;
        case 62: return Big.X62;
        case 63: return Big.X63;
        case 64: return Big.X64;
        case 65: return Big.X65;
        }
        return null;
    }
    static void h_kind() { int n = V.pick(3); V.chk(En.kind_of(n) == kind(n)); V.chk(En.kind_no(kind(n)) == n); V.chk(En.kind_id(kind(n)) == kind(n)); V.chk(kind(n).getValue() == En.num_kind(n)); V.chk(En.raw_kind(kind(n).getValue()) == n); }
    static void h_code() { int n = V.pick(4); V.chk(En.code_of(n) == code(n)); V.chk(En.code_no(code(n)) == n); V.chk(En.code_id(code(n)) == code(n)); V.chk(code(n).getValue() == En.num_code(n)); V.chk(En.raw_code(code(n).getValue()) == n); }
    // foreign names that are other variants' Rust names
    static void h_implicit() {
        int n = V.pick(4); Way s = n == 0 ? Way.Up : n == 1 ? Way.Down : n == 2 ? Way.Right : Way.Left; V.chk(Way.values().length == 4);
        V.chk(En.way_of(n) == s); V.chk(En.way_no(s) == n); V.chk(Way.fromInt(s.getValue()) == s);
    }
    static void h_swap() {
        int n = V.pick(4); Swap s = n == 0 ? Swap.Bee : n == 1 ? Swap.Ant : n == 2 ? Swap.Eel : Swap.Dog; V.chk(Swap.values().length == 4);
        V.chk(En.swap_of(n) == s); V.chk(En.swap_no(s) == n); V.chk(Swap.fromInt(s.getValue()) == s); Optional<Swap> o = En.opt_swap_id(s); V.chk(o.isPresent() && o.get() == s); V.chk(!En.opt_swap_id(null).isPresent());
    }
    static void h_small() { boolean b = V.bool(); V.chk(En.two_of(b) == (b ? Two.YES : Two.NO)); V.chk(En.two_no(b ? Two.YES : Two.NO) == b); V.chk(En.one_of() == One.ONLY); V.chk(En.one_no(One.ONLY) == 77); V.chk(En.raw_one(One.ONLY.getValue()) == 77); }
    static void h_big() { int n = V.pick(BIG); Big b = big(n); V.chk(En.big_of(n) == b); V.chk(En.big_no(b) == n); V.chk(En.big_id(b) == b); V.chk(b.getValue() == En.num_big(n)); }
    // every 32-bit number on the Java side
    static void h_from_kind() { int x = V.i32(); Kind k = null; boolean bad = false; try { k = Kind.fromInt(x); } catch (Error e) { bad = true; } if (x >= 0 && x < 3) { V.chk(!bad && k != null); V.chk(k.getValue() == x); } else V.chk(bad); }
    static void h_from_code() { int x = V.i32(); Code k = null; boolean bad = false; try { k = Code.fromInt(x); } catch (Error e) { bad = true; } if (x >= 0 && x < 4) { V.chk(!bad && k != null); V.chk(k.getValue() == x); } else V.chk(bad); }
    static void h_from_one() { int x = V.i32(); One k = null; boolean bad = false; try { k = One.fromInt(x); } catch (Error e) { bad = true; } if (x == 0) { V.chk(!bad && k == One.ONLY); } else V.chk(bad); }
    static void h_from_big() { int x = V.i32(); Big k = null; boolean bad = false; try { k = Big.fromInt(x); } catch (Error e) { bad = true; } if (x >= 0 && x < BIG) { V.chk(!bad && k != null); V.chk(k.getValue() == x); V.chk(En.raw_big(x) == En.big_no(k)); } else V.chk(bad); }
    // and on the Rust side: never a variant, the process stops instead
    static void h_raw_kind() { int x = V.i32(); if (x < 0 || x >= 3) V.expectAbort(); int n = En.raw_kind(x); V.chk(kind(n).getValue() == x); V.chk(En.num_kind(n) == x); }
    static void h_raw_code() { int x = V.i32(); if (x < 0 || x >= 4) V.expectAbort(); int n = En.raw_code(x); V.chk(code(n).getValue() == x); V.chk(En.num_code(n) == x); }
    static void h_raw_one() { int x = V.i32(); if (x != 0) V.expectAbort(); V.chk(En.raw_one(x) == 77); }
    static void h_raw_big() { int x = V.i32(); if (x < 0 || x >= BIG) V.expectAbort(); int n = En.raw_big(x); V.chk(En.num_big(n) == x); }
    static void h_opt_kind() {
        int n = V.pick(4); boolean some = n < 3; Kind k = some ? kind(n) : null;
        Optional<Kind> o = En.opt_kind(some ? n : 9); V.chk(o.isPresent() == some); if (some) V.chk(o.get() == k);
        V.chk(En.opt_kind_no(k) == (some ? n : -5));
        Optional<Kind> p = En.opt_kind_id(k); V.chk(p.isPresent() == some); if (some) V.chk(p.get() == k);
    }
    static void h_opt_code() {
        int n = V.pick(5); boolean some = n < 4; Code k = some ? code(n) : null;
        Optional<Code> o = En.opt_code(some ? n : 9); V.chk(o.isPresent() == some); if (some) V.chk(o.get() == k);
        V.chk(En.opt_code_no(k) == (some ? n : -5));
        Optional<Code> p = En.opt_code_id(k); V.chk(p.isPresent() == some); if (some) V.chk(p.get() == k);
    }
    static void h_opt_big() { int n = V.pick(BIG + 1); boolean some = n < BIG; Big k = some ? big(n) : null; Optional<Big> p = En.opt_big_id(k); V.chk(p.isPresent() == some); if (some) V.chk(p.get() == k); boolean y = V.bool(); Optional<One> q = En.opt_one_id(y ? One.ONLY : null); V.chk(q.isPresent() == y); if (y) V.chk(q.get() == One.ONLY); }
    static void h_result() {
        int n = V.pick(4); Kind k = null; boolean err = false; try { k = En.res_kind(n < 3 ? n : 9); } catch (Exception e) { err = true; V.chk("no kind".equals(e.getMessage())); } V.chk(err == (n == 3)); if (!err) V.chk(k == kind(n));
        int m = V.pick(6); Optional<Code> c = null; err = false; try { c = En.res_opt_code(m < 4 ? m : m + 4); } catch (Exception e) { err = true; V.chk("no code".equals(e.getMessage())); } V.chk(err == (m == 5)); if (!err) { V.chk(c.isPresent() == (m < 4)); if (m < 4) V.chk(c.get() == code(m)); }
    }
    static void h_positions() {
        int a = V.pick(3), c = V.pick(4), d = (a + c) % 4, g = V.pick(5), h = (g + 2 * a) % 3; boolean f = V.bool(), e = !f; int b = V.i32();
        long r = En.pos(kind(a), b, code(c), d < 3 ? kind(d) : null, e ? 1.5 : -1.5, f ? Two.YES : Two.NO, g < 4 ? code(g) : null, big(h * 30), One.ONLY);
        long x = a + 10L * c + 100L * (d < 3 ? d + 5 : 0) + (f ? 1000 : 0) + 10000L * (g < 4 ? g + 5 : 0) + 100000L * (h * 30) + 770000000L + 1000000000L * b + (e ? 500000000 : 0);
        V.chk(r == x);
    }
    static void h_cell() {
        int k = V.pick(3), c = k + 2; Cell cell = new Cell(kind(k), c < 4 ? code(c) : null); V.chk(cell.kind() == kind(k)); V.chk(cell.code().isPresent() == (c < 4)); if (c < 4) V.chk(cell.code().get() == code(c));
        for (int i = 0; i < 2; i++) switch (V.pick(3)) {
            case 0: { int n = V.pick(3); V.chk(cell.set(kind(n)) == kind(k)); k = n; V.chk(cell.kind() == kind(k)); break; }
            case 1: cell.next(); k = k == 2 ? 0 : k + 1; V.chk(cell.kind() == kind(k)); break;
            case 2: { int n = V.pick(5); cell.set_code(n < 4 ? code(n) : null); V.chk(cell.code().isPresent() == (n < 4)); if (n < 4) V.chk(cell.code().get() == code(n)); break; }
        }
        cell.delete();
    }
    static class W implements Watch {
        int calls, a; long b; Kind k, k2; Code c; Big g; Two t; One o; int seen, seenc;
        public void onKind(Kind x) { calls++; k = x; seen = seen * 10 + En.kind_no(x) + 1; }
        public void onCode(int i, Code x, long j) { calls++; a = i; b = j; c = x; V.chk(i >= 0); seenc = seenc * 10 + En.code_no(x) + 1; }
        public void onBig(Big x) { calls++; g = x; }
        public void onMany(Two p, Kind q, One r, Code s, Kind u) { calls++; t = p; k = q; o = r; c = s; k2 = u; }
    }
    static void h_cb_kind() { W w = new W(); int n = V.pick(3); En.fire_kind(w, n); V.chk(w.calls == 1 && w.k == kind(n)); int m = V.pick(3); En.fire_kind(w, m); V.chk(w.calls == 2 && w.k == kind(m)); }
    static void h_cb_code() { W w = new W(); int n = V.pick(4); int a = V.i32(); V.assume(a >= 0); long b = V.i64(); En.fire_code(w, a, n, b); V.chk(w.calls == 1 && w.c == code(n) && w.a == a && w.b == b); }
    static void h_cb_all() { W w = new W(); En.fire_all(w); V.chk(w.calls == 7 && w.seen == 123 && w.seenc == 1234); }
    static void h_cb_big() { W w = new W(); int n = V.pick(BIG); En.fire_big(w, n); V.chk(w.calls == 1 && w.g == big(n)); }
    static void h_cb_many() { W w = new W(); boolean a = V.bool(); int b = V.pick(3), d = V.pick(4), e = V.pick(3); En.fire_many(w, a, b, d, e); V.chk(w.calls == 1 && w.t == (a ? Two.YES : Two.NO) && w.k == kind(b) && w.o == One.ONLY && w.c == code(d) && w.k2 == kind(e)); }
    static void h_cb_back() { W w = new W(); int n = V.pick(3), m = V.pick(4); En.back(w, kind(n), code(m)); V.chk(w.calls == 2 && w.k == kind(n) && w.c == code(m) && w.a == 5 && w.b == 6); }
}
