package my_org.x_1.__u.rust2;
import vp.V;
class P {
    static void h_p_over_0() { byte x = V.i8(); long want = ((long)x) ^ (1L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_1() { short x = (short)(V.i8() & 255); long want = ((long)x) ^ (2L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_2() { int x = V.i16() & 65535; long want = ((long)x) ^ (3L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_3() { long x = V.i32() & 0xffffffffL; long want = (x) ^ (4L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_4() { boolean x = V.bool(); long want = ((long)(x ? 1 : 0)) ^ (5L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_5() { float x = Float.intBitsToFloat(V.i32()); long want = ((long)(V.bits(x) & 0xffffffffL)) ^ (6L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_6() { double x = Double.longBitsToDouble(V.i64()); long want = ((long)(V.bits(x))) ^ (7L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_7() { String x = V.bool() ? "ab" : ""; long want = ((long)(x.length())) ^ (8L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_8() { byte[] x = new byte[V.pick(3)]; long want = ((long)(x.length + 100)) ^ (9L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_9() { short[] x = new short[V.pick(3)]; long want = ((long)(x.length + 200)) ^ (10L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_10() { int[] x = new int[V.pick(3)]; long want = ((long)(x.length + 300)) ^ (11L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_11() { long[] x = new long[V.pick(3)]; long want = ((long)(x.length + 400)) ^ (12L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_12() { float[] x = new float[V.pick(3)]; long want = ((long)(x.length + 500)) ^ (13L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_13() { double[] x = new double[V.pick(3)]; long want = ((long)(x.length + 600)) ^ (14L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_14() { Byte x = V.bool() ? Byte.valueOf((byte)7) : null; long want = ((long)(x != null ? 8 : -1)) ^ (15L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_15() { Short x = V.bool() ? Short.valueOf((short)7) : null; long want = ((long)(x != null ? 9 : -2)) ^ (16L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_16() { Integer x = V.bool() ? Integer.valueOf(7) : null; long want = ((long)(x != null ? 10 : -3)) ^ (17L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_17() { Long x = V.bool() ? Long.valueOf(7) : null; long want = ((long)(x != null ? 11 : -4)) ^ (18L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_18() { Float x = V.bool() ? Float.valueOf(1.5f) : null; long want = ((long)(x != null ? V.bits(1.5f) : -5)) ^ (19L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_19() { Double x = V.bool() ? Double.valueOf(1.5) : null; long want = ((long)(x != null ? V.bits(1.5) : -6)) ^ (20L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static void h_p_over_20() { Elem_T[] x = new Elem_T[] { new Elem_T(1), new Elem_T(2) }; long want = ((long)(702)) ^ (21L << 40); int a = V.i8();
        V.chk(Multi.over(x) == want); V.chk(Multi.ov_er(a, x) == (want ^ (long)a << 8)); Multi m = new Multi(x); V.chk(m.bare() == (want ^ 9)); V.chk(m.call_it(x) == (want ^ want)); }
    static class Ask implements Look_Up { public long on_ask(int x) { return x * 100; } }
    static void h_p_other() {
        boolean o = V.bool(); V.chk(Multi.kin(o ? Sort.S_ONE : Sort.S_TWO) == (o ? 11 : 22)); V.chk(Multi.kin() == 77);
        int a = V.i32(); long b = V.i64(); V.chk(Multi.two(a, b) == (a ^ b << 1)); V.chk(Multi.two(b, a) == (b << 3 ^ a));
        Elem_T e = new Elem_T(b); V.chk(Multi.obj_over(e) == (b ^ 5)); V.chk(Multi.obj_over(new Ask()) == (300 ^ 1)); V.chk(e.get() == b && e.get_it() == ~b);
        V.chk(Multi.txt("abc", a) == (3 ^ (long)a << 4)); V.chk(Multi.txt("abc", b) == (3 ^ b << 4)); V.chk(Multi.txt(null, b) == (-1 ^ b << 4));
        Multi m = new Multi((byte)1); V.chk(m.bare() == (1 ^ 1L << 40 ^ 9)); V.chk(m.bare(a, "xy") == 2); V.chk(m.take(e) == (b ^ 1 ^ 1L << 40));
    }
    static void h_p_names() {
        V.chk(_Na_mes__2.a_b() == 1); V.chk(_Na_mes__2.a__b() == 2); V.chk(_Na_mes__2.a_1b() == 3); V.chk(_Na_mes__2.ab_() == 4); V.chk(_Na_mes__2._ab() == 5); V.chk(_Na_mes__2.aB() == 6); V.chk(_Na_mes__2.a_0() == 7);
        int x = V.i8(); V.chk(_Na_mes__2.f(x) == x + 8); V.chk(_Na_mes__2.f_I(x) == x + 9); V.chk(_Na_mes__2.f__I(x) == x + 10);
    }
    static void h_p_unicode() { int x = V.i8(); V.chk(_Na_mes__2.größe() == 11); V.chk(_Na_mes__2.αβ(x) == x + 12); V.chk(_Na_mes__2.αβ((long)x) == x + 13); }
    static void h_wide() { int a = V.i32(), b = V.i32(); long l = V.i32() + (1L << 33);
        long si = a + 2L * 2 + 3L * 3 + 4 * 4 + 5 * 5 + 6 * 6 + 7 * 7 + 9 * 9 + 10L * b;
        V.chk(Wide.st(a, 2, 3, 4, 5, 6, 7, b, 9, b) == ((si + 8L * b) ^ 5L << 50)); V.chk(Wide.st(a, 2, 3, 4, 5, 6, 7, l, 9, b) == ((si + 8 * l) ^ 6L << 50));
        Wide w = new Wide(a, 2, 3, 4, 5, 6, 7, b, 9, b), x = new Wide(a, 2, 3, 4, 5, 6, 7, l, 9, b); V.chk(w.get() == ((si + 8L * b) ^ 1L << 50)); V.chk(x.get() == ((si + 8 * l) ^ 2L << 50));
        V.chk(w.over(a, 2, 3, 4, 5, 6, 7, b, 9, b) == ((si + 8L * b) ^ 3L << 50)); V.chk(x.over(a, 2, 3, 4, 5, 6, 7, l, 9, b) == ((si + 8 * l) ^ 4L << 50)); }
}
