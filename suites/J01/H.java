package com.example.rust;
import vp.V;
class H {
    static void h_id_i8() { byte x = V.i8(); byte r = Num.id_i8(x); V.chk(r == x); V.obs(r); }
    static void h_in_i8() { byte x = V.i8(); V.chk(Num.wide_i8(x) == (long)x); }
    static void h_out_i8() { long x = V.i64(); byte r = Num.low_i8(x); V.chk(r == (byte)x); V.obs(r); }
    static void h_sub_i8() { byte a = V.i8(), b = V.i8(); byte r = Num.sub_i8(a, b); V.chk(r == (byte)(a - b)); V.obs(r); }
    static void h_id_u8() { short x = V.i16(); if (x < 0 || x > 255L) V.expectAbort(); short r = Num.id_u8(x); V.chk(r == x); V.obs(r); }
    static void h_in_u8() { short x = V.i16(); if (x < 0 || x > 255L) V.expectAbort(); V.chk(Num.wide_u8(x) == (long)x); }
    static void h_out_u8() { long x = V.i64(); short r = Num.low_u8(x); V.chk(r == (short)(x & 255)); V.obs(r); }
    static void h_sub_u8() { short a = V.i16(), b = V.i16(); if (a < 0 || a > 255L) V.expectAbort(); if (b < 0 || b > 255L) V.expectAbort(); short r = Num.sub_u8(a, b); V.chk(r == (short)((long)(a - b) & 255)); V.obs(r); }
    static void h_id_i16() { short x = V.i16(); short r = Num.id_i16(x); V.chk(r == x); V.obs(r); }
    static void h_in_i16() { short x = V.i16(); V.chk(Num.wide_i16(x) == (long)x); }
    static void h_out_i16() { long x = V.i64(); short r = Num.low_i16(x); V.chk(r == (short)x); V.obs(r); }
    static void h_sub_i16() { short a = V.i16(), b = V.i16(); short r = Num.sub_i16(a, b); V.chk(r == (short)(a - b)); V.obs(r); }
    static void h_id_u16() { int x = V.i32(); if (x < 0 || x > 65535L) V.expectAbort(); int r = Num.id_u16(x); V.chk(r == x); V.obs(r); }
    static void h_in_u16() { int x = V.i32(); if (x < 0 || x > 65535L) V.expectAbort(); V.chk(Num.wide_u16(x) == (long)x); }
    static void h_out_u16() { long x = V.i64(); int r = Num.low_u16(x); V.chk(r == (int)(x & 65535)); V.obs(r); }
    static void h_sub_u16() { int a = V.i32(), b = V.i32(); if (a < 0 || a > 65535L) V.expectAbort(); if (b < 0 || b > 65535L) V.expectAbort(); int r = Num.sub_u16(a, b); V.chk(r == (int)((long)(a - b) & 65535)); V.obs(r); }
    static void h_id_i32() { int x = V.i32(); int r = Num.id_i32(x); V.chk(r == x); V.obs(r); }
    static void h_in_i32() { int x = V.i32(); V.chk(Num.wide_i32(x) == (long)x); }
    static void h_out_i32() { long x = V.i64(); int r = Num.low_i32(x); V.chk(r == (int)x); V.obs(r); }
    static void h_sub_i32() { int a = V.i32(), b = V.i32(); int r = Num.sub_i32(a, b); V.chk(r == a - b); V.obs(r); }
    static void h_id_u32() { long x = V.i64(); if (x < 0 || x > 4294967295L) V.expectAbort(); long r = Num.id_u32(x); V.chk(r == x); V.obs(r); }
    static void h_in_u32() { long x = V.i64(); if (x < 0 || x > 4294967295L) V.expectAbort(); V.chk(Num.wide_u32(x) == (long)x); }
    static void h_out_u32() { long x = V.i64(); long r = Num.low_u32(x); V.chk(r == (x & 0xffffffffL)); V.obs(r); }
    static void h_sub_u32() { long a = V.i64(), b = V.i64(); if (a < 0 || a > 4294967295L) V.expectAbort(); if (b < 0 || b > 4294967295L) V.expectAbort(); long r = Num.sub_u32(a, b); V.chk(r == ((long)(a - b) & 0xffffffffL)); V.obs(r); }
    static void h_id_i64() { long x = V.i64(); long r = Num.id_i64(x); V.chk(r == x); V.obs(r); }
    static void h_in_i64() { long x = V.i64(); V.chk(Num.wide_i64(x) == (long)x); }
    static void h_out_i64() { long x = V.i64(); long r = Num.low_i64(x); V.chk(r == x); V.obs(r); }
    static void h_sub_i64() { long a = V.i64(), b = V.i64(); long r = Num.sub_i64(a, b); V.chk(r == a - b); V.obs(r); }
    static void h_id_u64() { long x = V.i64(); if (x < 0) V.expectAbort(); long r = Num.id_u64(x); V.chk(r == x); V.obs(r); }
    static void h_in_u64() { long x = V.i64(); if (x < 0) V.expectAbort(); V.chk(Num.wide_u64(x) == (long)x); }
    static void h_out_u64() { long x = V.i64(); if (x < 0) V.expectAbort(); long r = Num.low_u64(x); V.chk(r == x); }
    static void h_sub_u64() { long a = V.i64(), b = V.i64(); if (a < 0 || b < 0 || a - b < 0) V.expectAbort(); long r = Num.sub_u64(a, b); V.chk(r == a - b); V.obs(r); }
    static void h_id_usize() { long x = V.i64(); if (x < 0) V.expectAbort(); long r = Num.id_usize(x); V.chk(r == x); V.obs(r); }
    static void h_in_usize() { long x = V.i64(); if (x < 0) V.expectAbort(); V.chk(Num.wide_usize(x) == (long)x); }
    static void h_out_usize() { long x = V.i64(); if (x < 0) V.expectAbort(); long r = Num.low_usize(x); V.chk(r == x); }
    static void h_sub_usize() { long a = V.i64(), b = V.i64(); if (a < 0 || b < 0 || a - b < 0) V.expectAbort(); long r = Num.sub_usize(a, b); V.chk(r == a - b); V.obs(r); }
    static void h_out_isize() { long x = V.i64(); V.chk(Num.id_isize(x) == x); }
    static void h_bools() { boolean x = V.bool(), y = V.bool(); V.chk(Num.id_bool(x) == x); V.chk(Num.not_bool(x) == !x); V.chk(Num.and_not(x, y) == (x && !y)); V.chk(Num.bool_bits(x) == (x ? 1 : 0)); }
    static void h_f32() { int b = V.bits(V.f32()), c = V.bits(V.f32()); float x = Float.intBitsToFloat(b), y = Float.intBitsToFloat(c);
        V.chk(V.bits(Num.id_f32(x)) == b); V.chk(V.bits(Num.second_f32(x, y)) == c); V.chk(Num.f32_bits(y) == c); V.chk(V.bits(Num.f32_from(b)) == b); }
    static void h_f64() { long b = V.bits(V.f64()), c = V.bits(V.f64()); double x = Double.longBitsToDouble(b), y = Double.longBitsToDouble(c);
        V.chk(V.bits(Num.id_f64(x)) == b); V.chk(V.bits(Num.second_f64(x, y)) == c); V.chk(Num.f64_bits(y) == c); V.chk(V.bits(Num.f64_from(b)) == b); }
    static long mixed(long r, long x) { return ((r << 7) | (r >>> 57)) ^ x; }
    static void h_mix() {
        byte a = V.i8(); int b = V.i32(); boolean c = V.bool(); long d = V.i64(); double e = V.f64(); int f = V.i32(); short g = V.i16(); short h = V.i16(); long i = V.i64(); float j = V.f32(); long k = V.i64();
        V.assume(b >= 0 && b <= 65535 && g >= 0 && g <= 255 && k >= 0 && k <= 0xffffffffL);
        long r = 0;
        r = mixed(r, a); r = mixed(r, b); r = mixed(r, c ? 1 : 0); r = mixed(r, d); r = mixed(r, V.bits(e)); r = mixed(r, f); r = mixed(r, g); r = mixed(r, h); r = mixed(r, i); r = mixed(r, V.bits(j) & 0xffffffffL); r = mixed(r, k);
        long got = Num.mix(a, b, c, d, e, f, g, h, i, j, k);
        V.chk(got == r); V.obs(got);
    }
    static void h_object() {
        long x = V.i64(), y = V.i64(), z = V.i64();
        Num n = new Num(x);
        V.chk(n.get() == x); V.chk(n.is_bigger(z) == (x > z)); V.chk(n.low8() == (byte)x); V.chk(n.low16() == (x & 65535)); V.chk(n.low_u8() == (x & 255)); V.chk(n.low_u32() == (x & 0xffffffffL));
        V.chk(V.bits(n.bits_f64()) == x); V.chk(V.bits(n.bits_f32()) == (int)x);
        n.set(y); V.chk(n.get() == y); V.chk(n.is_bigger(z) == (y > z));
        n.nothing(); V.chk(n.get() == y + 1); V.obs(n.get());
        if (y + 1 < 0) V.expectAbort();
        V.chk(n.as_u64() == y + 1);
    }
    static void h_method_args() {
        long v = V.i64(); short a = V.i16(); int b = V.i32(); long c = V.i64(); byte d = V.i8(); boolean e = V.bool(); long f = V.i64();
        Num n = new Num(v);
        if (a < 0 || a > 255 || b < 0 || b > 65535 || c < 0 || c > 0xffffffffL || f < 0) V.expectAbort();
        long r = n.add_all(a, b, c, d, e, f);
        V.chk(r == mixed(mixed(mixed(mixed(mixed(mixed(v, a), b), c), d), e ? 1 : 0), f)); V.obs(r);
    }
    static void h_ctor_mixed() {
        short a = V.i16(); int b = V.i32(); boolean c = V.bool();
        if (a < 0 || a > 255) V.expectAbort();
        Num n = new Num(a, b, c);
        V.chk(n.get() == (((long)a << 40) ^ ((b & 0xffffffffL) << 4) ^ (c ? 1 : 0)));
    }
    static void h_time() {
        long secs = V.i64(); int nanos = V.i32(); V.assume(nanos >= 0 && nanos < 1000000000 && secs > Long.MIN_VALUE);
        if (secs < 0 || secs > 9223372036854775L || (secs == 9223372036854775L && nanos / 1000000 > 807)) V.expectAbort();
        java.util.Date d = Num.time_at(secs, nanos);
        V.chk(d.getTime() == secs * 1000 + nanos / 1000000); V.obs(d.getTime());
    }
    static void h_arity() { byte a = V.i8(), b = V.i8(), c = V.i8(), d = V.i8(), e = V.i8(), f = V.i8(), g = V.i8(), h = V.i8(); long[] w = new long[9]; w[0] = 0;
        w[1] = w[0] | (a & 255L) << 0;
        w[2] = w[1] | (b & 255L) << 8;
        w[3] = w[2] | (c & 255L) << 16;
        w[4] = w[3] | (d & 255L) << 24;
        w[5] = w[4] | (e & 255L) << 32;
        w[6] = w[5] | (f & 255L) << 40;
        w[7] = w[6] | (g & 255L) << 48;
        w[8] = w[7] | (h & 255L) << 56;
        { V.chk(Ary.s0() == w[0]); Ary o = new Ary(); V.chk(o.m0() == w[0]); V.chk(o.m0() == 0); o.v0(); V.chk(o.m0() == w[0]); o.v0(); V.chk(o.m0() == w[0]); }
        { V.chk(Ary.s1(a) == w[1]); Ary o = new Ary(a); V.chk(o.m0() == w[1]); V.chk(o.m1(a) == 0); o.v1(a); V.chk(o.m0() == w[1]); o.v0(); V.chk(o.m1(a) == w[1]); }
        { V.chk(Ary.s2(a, b) == w[2]); Ary o = new Ary(a, b); V.chk(o.m0() == w[2]); V.chk(o.m2(a, b) == 0); o.v2(a, b); V.chk(o.m0() == w[2]); o.v0(); V.chk(o.m2(a, b) == w[2]); }
        { V.chk(Ary.s3(a, b, c) == w[3]); Ary o = new Ary(a, b, c); V.chk(o.m0() == w[3]); V.chk(o.m3(a, b, c) == 0); o.v3(a, b, c); V.chk(o.m0() == w[3]); o.v0(); V.chk(o.m3(a, b, c) == w[3]); }
        { V.chk(Ary.s4(a, b, c, d) == w[4]); Ary o = new Ary(a, b, c, d); V.chk(o.m0() == w[4]); V.chk(o.m4(a, b, c, d) == 0); o.v4(a, b, c, d); V.chk(o.m0() == w[4]); o.v0(); V.chk(o.m4(a, b, c, d) == w[4]); }
        { V.chk(Ary.s5(a, b, c, d, e) == w[5]); Ary o = new Ary(a, b, c, d, e); V.chk(o.m0() == w[5]); V.chk(o.m5(a, b, c, d, e) == 0); o.v5(a, b, c, d, e); V.chk(o.m0() == w[5]); o.v0(); V.chk(o.m5(a, b, c, d, e) == w[5]); }
        { V.chk(Ary.s6(a, b, c, d, e, f) == w[6]); Ary o = new Ary(a, b, c, d, e, f); V.chk(o.m0() == w[6]); V.chk(o.m6(a, b, c, d, e, f) == 0); o.v6(a, b, c, d, e, f); V.chk(o.m0() == w[6]); o.v0(); V.chk(o.m6(a, b, c, d, e, f) == w[6]); }
        { V.chk(Ary.s7(a, b, c, d, e, f, g) == w[7]); Ary o = new Ary(a, b, c, d, e, f, g); V.chk(o.m0() == w[7]); V.chk(o.m7(a, b, c, d, e, f, g) == 0); o.v7(a, b, c, d, e, f, g); V.chk(o.m0() == w[7]); o.v0(); V.chk(o.m7(a, b, c, d, e, f, g) == w[7]); }
        { V.chk(Ary.s8(a, b, c, d, e, f, g, h) == w[8]); Ary o = new Ary(a, b, c, d, e, f, g, h); V.chk(o.m0() == w[8]); V.chk(o.m8(a, b, c, d, e, f, g, h) == 0); o.v8(a, b, c, d, e, f, g, h); V.chk(o.m0() == w[8]); o.v0(); V.chk(o.m8(a, b, c, d, e, f, g, h) == w[8]); }
    }
}
