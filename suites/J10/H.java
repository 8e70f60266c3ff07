package com.example.rust;
import vp.V;
class H {
    public static final class Money { final long raw; Money(long raw) { this.raw = raw; } }
    public static final class Cold { final int raw, extra; Cold(int raw, int extra) { this.raw = raw; this.extra = extra; } }
    static final int OPT = Cfg.NULLS ? 100 : 0;
    static final int IN = Cfg.NULLS ? 9 : 7, OUT = Cfg.NULLS ? 0 : 1;
    static Money money() { return new Money(V.i64()); }
    static int in(Money m) { return (int) ((m.raw + IN) >> 8); }
    static long out(int k) { return (long) k * 256 + OUT; }
    static Cold cold() { return new Cold(V.i32(), V.i32()); }
    static int in(Cold c) { return c.raw * 2 + c.extra - 2; }
    static void h_both() { Money m = money(); long r = m.raw; V.chk(Um.m_in(m) == in(m)); V.chk(m.raw == r && Um.calls() == 1); int k = V.i32(); Money o = Um.m_out(k); V.chk(o.raw == out(k)); V.chk(Um.calls() == 2); }
    static void h_later_map_wins() { Cold c = cold(); V.chk(Um.f_in(c) == in(c)); int k = V.i32(); Cold o = Um.f_out(k); V.chk(o != null && o.raw == (k ^ 0x70) && o.extra == 2); }
    static void h_many() { Money a = money(), b = money(); Cold c = cold(); int x = V.i32(); long e = (((long) in(a) - in(b)) + ((long) in(c) << 33)) ^ x; V.chk(Um.mix(a, x, c, b) == e); V.chk(Um.mix(a, x, c, a) == (((long) in(c) << 33) ^ x)); }
    static void h_optional() { int k = V.i32(); boolean s = V.bool(); java.util.Optional<Money> o = Um.opt(k, s); V.chk(o != null && o.isPresent() == s); if (s) V.chk(o.get().raw == (long) k * 2); }
    static void h_one_direction() {
        int k = V.i32(); long e = ((long) (k << 3 | k >>> 29) & 0xffffffffL) << 1; V.chk(Um.o_out(k & 0xffffffffL) == e); String a = V.str(V.pick(3)), b = V.str(V.pick(3));
        V.chk(Um.i_in(a, b) == ~(a.length() * 10L + 4) - ~(b.length() * 10L + 4) * 3);
    }
    static void h_chain() { int k = V.i32(); V.chk(Um.chain(k).raw == out(k + 5)); }
    static void h_result() throws Exception {
        Money m = money(); boolean ok = V.bool(), thrown = false; int r = 0;
        try { r = Um.res(m, ok); } catch (Exception e) { thrown = true; V.chk("no money".equals(e.getMessage())); }
        V.chk(thrown == !ok); if (ok) V.chk(r == in(m));
    }
    static void h_builtin_changed() { short s = V.i16(); V.chk(Um.byte_in(s) == ((s ^ 0x55) & 255)); int k = V.i32(); V.chk(Um.byte_out(k) == (short) ((k & 255) + 1000)); }
    static void h_in_interface() { Money m = money(); V.chk(Um.tag_in(m) == (m.raw > 0)); boolean b = V.bool(); V.chk(Um.tag_out(b).raw == (b ? -((7L * 3 + 97) * 3 + 98) : -7)); }
    static void h_object() {
        Money m = money(), n = money(), q = money(); Cold c = cold(); Purse p = new Purse(m, c); V.chk(p.m().raw == out(in(m))); V.chk(p.f().raw == (in(c) ^ 0x70)); V.chk(p.raw() == in(m));
        V.chk(p.put(n, q).raw == out(in(m))); V.chk(p.raw() == in(n) - in(q)); V.chk(p.m().raw == out(in(n) - in(q))); p.delete();
    }
    static void h_second_source() { Money m = money(); V.chk(Um2.twice(m).raw == out(in(m) * 2)); }
    static final class M implements Meter {
        int n, a, b, k, q; final int r; M(int r) { this.r = r; }
        public void on(int a, int k, int b) { n++; this.a = a; this.b = b; this.k = k; }
        public int ask(int a) { n += 10; q = a; return r; }
    }
    static void h_callback() {
        int a = V.i32(), b = V.i32(), r = V.i32(); M m = new M(r); V.chk(Um3.fire(m, a, b) == (r ^ 0x1234)); V.chk(m.n == 11 && m.a == a + 11 && m.b == b + 11 && m.k == 77 && m.q == b + 11);
        V.chk(Um3.d_in(a) == (a ^ 0x1234) && Um3.d_out(b) == b + 11);
    }
    // out: raw = 2k + kr, extra = kj; in: value = (raw + extra * kj) * 4 - kr
    static void over(Cold c, int k, int kr, int kj) { V.chk(c.raw == 2 * k + kr && c.extra == kj); }
    static long both(int a, int b, int kr, int kj, int e) { return (long) ((a + e * kj) * 4 - kr) << 32 | ((b + (e + 1) * kj) * 4 - kr) & 0xffffffffL; }
    static void h_over() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um4.over_out(k), k, 11, 11); V.chk(Um4.over_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 11, 11, 6)); }
    static void h_overin() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um4.overin_out(k), k, 3, 3); V.chk(Um4.overin_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 11, 11, 6)); }
    static void h_overout() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um4.overout_out(k), k, 11, 11); V.chk(Um4.overout_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 3, 3, 6)); }
    static void h_optboth() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um4.optboth_out(k), k, 7, 7 + OPT); V.chk(Um4.optboth_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 7, 7 + OPT, 6)); }
    static void h_optset() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um4.optset_out(k), k, 11, 11 + OPT); V.chk(Um4.optset_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 11, 11 + OPT, 6)); }
    static void h_optmap() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um5.optmap_out(k), k, 9, 9); V.chk(Um5.optmap_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 9, 9, 6)); }
    static void h_optiface() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um5.optiface_out(k), k, 9, 9); V.chk(Um5.optiface_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 9, 9, 6)); }
    static void h_opthalf() { int k = V.i32(), a = V.i32(), b = V.i32(); over(Um5.opthalf_out(k), k, 5, 5 + OPT); V.chk(Um5.opthalf_in(new Cold(a, 6), new Cold(b, 7)) == both(a, b, 9, 9, 6)); }
}
