package com.example.rust;
import vp.V;
class Boom extends RuntimeException { }
class H {
    static class P implements Prim {
        int calls, which;
        boolean x_bool, ret_bool;
        byte x_i8, ret_i8;
        short x_i16, ret_i16;
        int x_i32, ret_i32;
        long x_i64, ret_i64;
        float x_f32, ret_f32;
        double x_f64, ret_f64;
        short x_u8, ret_u8;
        int x_u16, ret_u16;
        long x_u32, ret_u32;
        long x_usize, x_isize, x_u64, ret_usize, ret_u64; boolean boom;
        void hit(int w) { calls++; which = w; if (boom) throw new Boom(); }
        public void on_bool(boolean x) { x_bool = x; hit(0); }
        public boolean get_bool(boolean x) { x_bool = x; hit(1); return ret_bool; }
        public void on_i8(byte x) { x_i8 = x; hit(2); }
        public byte get_i8(byte x) { x_i8 = x; hit(3); return ret_i8; }
        public void on_i16(short x) { x_i16 = x; hit(4); }
        public short get_i16(short x) { x_i16 = x; hit(5); return ret_i16; }
        public void on_i32(int x) { x_i32 = x; hit(6); }
        public int get_i32(int x) { x_i32 = x; hit(7); return ret_i32; }
        public void on_i64(long x) { x_i64 = x; hit(8); }
        public long get_i64(long x) { x_i64 = x; hit(9); return ret_i64; }
        public void on_f32(float x) { x_f32 = x; hit(10); }
        public float get_f32(float x) { x_f32 = x; hit(11); return ret_f32; }
        public void on_f64(double x) { x_f64 = x; hit(12); }
        public double get_f64(double x) { x_f64 = x; hit(13); return ret_f64; }
        public void on_u8(short x) { x_u8 = x; hit(14); }
        public short get_u8(short x) { x_u8 = x; hit(15); return ret_u8; }
        public void on_u16(int x) { x_u16 = x; hit(16); }
        public int get_u16(int x) { x_u16 = x; hit(17); return ret_u16; }
        public void on_u32(long x) { x_u32 = x; hit(18); }
        public long get_u32(long x) { x_u32 = x; hit(19); return ret_u32; }
        public void on_usize(long x) { x_usize = x; hit(100); }
        public void on_isize(long x) { x_isize = x; hit(101); }
        public void on_u64(long x) { x_u64 = x; hit(102); }
        public long get_usize() { hit(103); return ret_usize; }
        public long get_u64() { hit(104); return ret_u64; }
    }
    static void h_bool() {
        P p = new P(); boolean x = V.bool(); Drive.m_bool(p, x); V.chk(p.calls == 1 && p.which == 0); V.chk(p.x_bool == x);
        boolean y = V.bool(); boolean z = V.bool(); p.ret_bool = y; boolean r = Drive.r_bool(p, z); V.chk(p.calls == 2 && p.which == 1); V.chk(p.x_bool == z); V.chk(r == y);
    }
    static void h_throw_bool() {
        P p = new P(); p.boom = true; boolean x = V.bool(); Drive.m_bool(p, x); V.chk(p.calls == 1); V.chk(p.x_bool == x);
        Drive.r_bool(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_bool = x; V.chk(Drive.r_bool(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_i8() {
        P p = new P(); byte x = V.i8(); Drive.m_i8(p, x); V.chk(p.calls == 1 && p.which == 2); V.chk(p.x_i8 == x);
        byte y = V.i8(); byte z = V.i8(); p.ret_i8 = y; byte r = Drive.r_i8(p, z); V.chk(p.calls == 2 && p.which == 3); V.chk(p.x_i8 == z); V.chk(r == y);
    }
    static void h_throw_i8() {
        P p = new P(); p.boom = true; byte x = V.i8(); Drive.m_i8(p, x); V.chk(p.calls == 1); V.chk(p.x_i8 == x);
        Drive.r_i8(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_i8 = x; V.chk(Drive.r_i8(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_i16() {
        P p = new P(); short x = V.i16(); Drive.m_i16(p, x); V.chk(p.calls == 1 && p.which == 4); V.chk(p.x_i16 == x);
        short y = V.i16(); short z = V.i16(); p.ret_i16 = y; short r = Drive.r_i16(p, z); V.chk(p.calls == 2 && p.which == 5); V.chk(p.x_i16 == z); V.chk(r == y);
    }
    static void h_throw_i16() {
        P p = new P(); p.boom = true; short x = V.i16(); Drive.m_i16(p, x); V.chk(p.calls == 1); V.chk(p.x_i16 == x);
        Drive.r_i16(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_i16 = x; V.chk(Drive.r_i16(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_i32() {
        P p = new P(); int x = V.i32(); Drive.m_i32(p, x); V.chk(p.calls == 1 && p.which == 6); V.chk(p.x_i32 == x);
        int y = V.i32(); int z = V.i32(); p.ret_i32 = y; int r = Drive.r_i32(p, z); V.chk(p.calls == 2 && p.which == 7); V.chk(p.x_i32 == z); V.chk(r == y);
    }
    static void h_throw_i32() {
        P p = new P(); p.boom = true; int x = V.i32(); Drive.m_i32(p, x); V.chk(p.calls == 1); V.chk(p.x_i32 == x);
        Drive.r_i32(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_i32 = x; V.chk(Drive.r_i32(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_i64() {
        P p = new P(); long x = V.i64(); Drive.m_i64(p, x); V.chk(p.calls == 1 && p.which == 8); V.chk(p.x_i64 == x);
        long y = V.i64(); long z = V.i64(); p.ret_i64 = y; long r = Drive.r_i64(p, z); V.chk(p.calls == 2 && p.which == 9); V.chk(p.x_i64 == z); V.chk(r == y);
    }
    static void h_throw_i64() {
        P p = new P(); p.boom = true; long x = V.i64(); Drive.m_i64(p, x); V.chk(p.calls == 1); V.chk(p.x_i64 == x);
        Drive.r_i64(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_i64 = x; V.chk(Drive.r_i64(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_f32() {
        P p = new P(); float x = Float.intBitsToFloat(V.i32()); Drive.m_f32(p, x); V.chk(p.calls == 1 && p.which == 10); V.chk(V.bits(p.x_f32) == V.bits(x));
        float y = Float.intBitsToFloat(V.i32()); float z = Float.intBitsToFloat(V.i32()); p.ret_f32 = y; float r = Drive.r_f32(p, z); V.chk(p.calls == 2 && p.which == 11); V.chk(V.bits(p.x_f32) == V.bits(z)); V.chk(V.bits(r) == V.bits(y));
    }
    static void h_throw_f32() {
        P p = new P(); p.boom = true; float x = Float.intBitsToFloat(V.i32()); Drive.m_f32(p, x); V.chk(p.calls == 1); V.chk(V.bits(p.x_f32) == V.bits(x));
        Drive.r_f32(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_f32 = x; V.chk(V.bits(Drive.r_f32(p, x)) == V.bits(x)); V.chk(p.calls == 3);
    }
    static void h_f64() {
        P p = new P(); double x = Double.longBitsToDouble(V.i64()); Drive.m_f64(p, x); V.chk(p.calls == 1 && p.which == 12); V.chk(V.bits(p.x_f64) == V.bits(x));
        double y = Double.longBitsToDouble(V.i64()); double z = Double.longBitsToDouble(V.i64()); p.ret_f64 = y; double r = Drive.r_f64(p, z); V.chk(p.calls == 2 && p.which == 13); V.chk(V.bits(p.x_f64) == V.bits(z)); V.chk(V.bits(r) == V.bits(y));
    }
    static void h_throw_f64() {
        P p = new P(); p.boom = true; double x = Double.longBitsToDouble(V.i64()); Drive.m_f64(p, x); V.chk(p.calls == 1); V.chk(V.bits(p.x_f64) == V.bits(x));
        Drive.r_f64(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_f64 = x; V.chk(V.bits(Drive.r_f64(p, x)) == V.bits(x)); V.chk(p.calls == 3);
    }
    static void h_u8() {
        P p = new P(); short x = V.i16(); V.assume(x >= 0 && x <= 255); Drive.m_u8(p, x); V.chk(p.calls == 1 && p.which == 14); V.chk(p.x_u8 == x);
        short y = V.i16(); V.assume(y >= 0 && y <= 255); short z = V.i16(); V.assume(z >= 0 && z <= 255); p.ret_u8 = y; short r = Drive.r_u8(p, z); V.chk(p.calls == 2 && p.which == 15); V.chk(p.x_u8 == z); V.chk(r == y);
    }
    static void h_throw_u8() {
        P p = new P(); p.boom = true; short x = V.i16(); V.assume(x >= 0 && x <= 255); Drive.m_u8(p, x); V.chk(p.calls == 1); V.chk(p.x_u8 == x);
        Drive.r_u8(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_u8 = x; V.chk(Drive.r_u8(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_u16() {
        P p = new P(); int x = V.i32(); V.assume(x >= 0 && x <= 65535); Drive.m_u16(p, x); V.chk(p.calls == 1 && p.which == 16); V.chk(p.x_u16 == x);
        int y = V.i32(); V.assume(y >= 0 && y <= 65535); int z = V.i32(); V.assume(z >= 0 && z <= 65535); p.ret_u16 = y; int r = Drive.r_u16(p, z); V.chk(p.calls == 2 && p.which == 17); V.chk(p.x_u16 == z); V.chk(r == y);
    }
    static void h_throw_u16() {
        P p = new P(); p.boom = true; int x = V.i32(); V.assume(x >= 0 && x <= 65535); Drive.m_u16(p, x); V.chk(p.calls == 1); V.chk(p.x_u16 == x);
        Drive.r_u16(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_u16 = x; V.chk(Drive.r_u16(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_u32() {
        P p = new P(); long x = V.i64(); V.assume(x >= 0 && x <= 4294967295L); Drive.m_u32(p, x); V.chk(p.calls == 1 && p.which == 18); V.chk(p.x_u32 == x);
        long y = V.i64(); V.assume(y >= 0 && y <= 4294967295L); long z = V.i64(); V.assume(z >= 0 && z <= 4294967295L); p.ret_u32 = y; long r = Drive.r_u32(p, z); V.chk(p.calls == 2 && p.which == 19); V.chk(p.x_u32 == z); V.chk(r == y);
    }
    static void h_throw_u32() {
        P p = new P(); p.boom = true; long x = V.i64(); V.assume(x >= 0 && x <= 4294967295L); Drive.m_u32(p, x); V.chk(p.calls == 1); V.chk(p.x_u32 == x);
        Drive.r_u32(p, x); V.chk(p.calls == 2); p.boom = false; p.ret_u32 = x; V.chk(Drive.r_u32(p, x) == x); V.chk(p.calls == 3);
    }
    static void h_ret_range_u8() {
        P p = new P(); p.ret_u8 = V.i16(); int x = V.i32(); boolean ok = p.ret_u8 >= 0 && p.ret_u8 <= 255; if (!ok) V.expectAbort();
        V.chk(Drive.n_u8(p, x) == p.ret_u8); V.chk(ok); V.chk(p.x_u8 == (x & 255));
    }
    static void h_ret_range_u16() {
        P p = new P(); p.ret_u16 = V.i32(); int x = V.i32(); boolean ok = p.ret_u16 >= 0 && p.ret_u16 <= 65535; if (!ok) V.expectAbort();
        V.chk(Drive.n_u16(p, x) == p.ret_u16); V.chk(ok); V.chk(p.x_u16 == (x & 65535));
    }
    static void h_ret_range_u32() {
        P p = new P(); p.ret_u32 = V.i64(); int x = V.i32(); boolean ok = p.ret_u32 >= 0 && p.ret_u32 <= 4294967295L; if (!ok) V.expectAbort();
        V.chk(Drive.n_u32(p, x) == p.ret_u32); V.chk(ok); V.chk(p.x_u32 == (x & 4294967295L));
    }
    static void h_size() {
        P p = new P(); long x = V.i64(); Drive.m_isize(p, x); V.chk(p.calls == 1 && p.which == 101 && p.x_isize == x);
        if (x < 0) V.expectAbort();
        switch (V.pick(2)) {
            case 0: Drive.m_usize(p, x); V.chk(x >= 0); V.chk(p.which == 100 && p.x_usize == x); break;
            default: Drive.m_u64(p, x); V.chk(x >= 0); V.chk(p.which == 102 && p.x_u64 == x); break;
        }
        V.chk(p.calls == 2);
    }
    static void h_ret_size() {
        P p = new P(); long x = V.i64(); p.ret_u64 = p.ret_usize = x; if (x < 0) V.expectAbort();
        long r = V.bool() ? Drive.r_usize(p) : Drive.r_u64(p); V.chk(x >= 0); V.chk(r == x); V.chk(p.calls == 1);
    }
    static class W implements Watcher {
        int calls, which, n, ret, i1, i2; long l; String s, s2; Item item, item2; Other other; Kind k; int[] ints; byte[] bytes; Item[] items; boolean boom, retb;
        byte a; float b, z; int c; double d; boolean e; long f; short g, h; long u; Hub hub; Watcher next;
        void hit(int w) { calls++; which = w; if (boom) throw new Boom(); }
        public void onText(String s) { this.s = s; if (hub != null) { i1 = hub.inc(); } hit(1); }
        public void onOwned(String s) { this.s = s; hit(2); }
        public void onItem(Item i) { item = i; hit(3); }
        public void onOther(Other o) { other = o; hit(4); }
        public void onKind(Kind k) { this.k = k; hit(5); }
        public void onInts(int[] x) { ints = x; hit(6); }
        public void onBytes(byte[] x) { bytes = x; hit(7); }
        public void onItems(Item[] x) { items = x; hit(8); }
        public void onMix(byte a, float b, int c, double d, boolean e, long f, short g, short h, String s, Kind k, long u, Item i, float z) {
            this.a = a; this.b = b; this.c = c; this.d = d; this.e = e; this.f = f; this.g = g; this.h = h; this.s = s; this.k = k; this.u = u; item = i; this.z = z; hit(9); }
        public int onTwo(Item a, Item b) { item = a; item2 = b; hit(10); return ret; }
        public boolean onTwoS(String a, String b) { s = a; s2 = b; hit(11); return retb; }
        public void onPlain() { if (next != null) Drive.ignore(next); hit(12); }
        public int getCount() { if (next != null) i2 = Drive.plain(next, 1); hit(13); return ret; }
        public int mutate(int x) { i2 = i1; i1 = x; hit(14); return x ^ ret; }
    }
    static boolean eqs(String a, String b) { if (a.length() != b.length()) return false; boolean r = true; for (int i = 0; i < a.length(); i++) r &= a.charAt(i) == b.charAt(i); return r; }
    static String text(int n) { String s = V.str(n); for (int i = 0; i < n; i++) V.assume((s.charAt(i) & 0xf800) != 0xd800); return s; }
    static void h_text() {
        W w = new W(); String s = text(V.pick(3)); boolean o = V.bool();
        if (o) Drive.owned(w, s); else Drive.text(w, s);
        V.chk(w.calls == 1 && w.which == (o ? 2 : 1)); V.chk(eqs(w.s, s));
    }
    static void h_text_char() {
        W w = new W(); int c = V.i32(); Drive.text_char(w, c); boolean ok = c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
        V.chk(w.calls == (ok ? 1 : 0)); if (ok) { V.chk(w.s.length() == (c > 0xffff ? 2 : 1)); if (c > 0xffff) { V.chk(w.s.charAt(0) == 0xd800 + ((c - 0x10000) >> 10)); V.chk(w.s.charAt(1) == 0xdc00 + (c & 0x3ff)); } else V.chk(w.s.charAt(0) == c); }
    }
    static void h_item() {
        W w = new W(); int v = V.i32(); int n = Drive.live(); Drive.item(w, v); V.chk(w.which == 3 && w.calls == 1); V.chk(w.item.get() == v); V.chk(Drive.live() == n + 1);
        Item f = w.item; int v2 = V.i32(); Drive.move_item(w, f); V.chk(w.item != f); V.chk(w.item.get() == v); V.chk(Drive.live() == n + 1);
        f.delete(); V.chk(Drive.live() == n + 1); w.item.delete(); V.chk(Drive.live() == n);
        long l = V.i64(); Drive.other(w, l); V.chk(w.which == 4 && w.other.get() == l); w.other.delete();
    }
    static void h_item_throw() {
        W w = new W(); w.boom = true; int v = V.i32(); int n = Drive.live(); Drive.item(w, v); V.chk(w.calls == 1); V.chk(w.item.get() == v); V.chk(Drive.live() == n + 1); w.item.delete(); V.chk(Drive.live() == n);
        V.chk(Drive.two(w, v, 3) == 0 || true); V.chk(w.item.get() == v); V.chk(w.item2.get() == 3); w.boom = false; w.ret = v; V.chk(Drive.plain(w, 0) == v);
    }
    static void h_kind() {
        W w = new W(); int n = V.pick(3); Drive.kind(w, n); V.chk(w.which == 5 && w.calls == 1); V.chk(w.k == (n == 0 ? Kind.AA : n == 1 ? Kind.BB : Kind.CC));
        int m = V.pick(3); Drive.kind(w, m); V.chk(w.k == (m == 0 ? Kind.AA : m == 1 ? Kind.BB : Kind.CC));
    }
    static void h_arrays() {
        W w = new W(); int n = V.pick(4), x = V.i32(); Drive.ints(w, n, x); V.chk(w.which == 6 && w.ints.length == n); for (int i = 0; i < n; i++) V.chk(w.ints[i] == x + i);
        byte[] b = new byte[V.pick(3)]; for (int i = 0; i < b.length; i++) b[i] = V.i8(); Drive.bytes(w, b); V.chk(w.which == 7 && w.bytes.length == b.length && w.bytes != b); for (int i = 0; i < b.length; i++) V.chk(w.bytes[i] == b[i]);
    }
    static void h_items() {
        W w = new W(); int n = V.pick(4), x = V.i32(), l = Drive.live(); w.boom = V.bool(); Drive.items(w, n, x); V.chk(w.which == 8 && w.calls == 1 && w.items.length == n); V.chk(Drive.live() == l + n);
        for (int i = 0; i < n; i++) V.chk(w.items[i].get() == x + i); for (int i = 0; i < n; i++) w.items[i].delete(); V.chk(Drive.live() == l);
    }
    static void h_mix() {
        W w = new W(); byte a = V.i8(); float b = Float.intBitsToFloat(V.i32()), z = Float.intBitsToFloat(V.i32()); int c = V.i32(); V.assume(c >= 0 && c < 65536); double d = Double.longBitsToDouble(V.i64()); boolean e = V.bool(); long f = V.i64();
        short g = V.i16(); V.assume(g >= 0 && g < 256); short h = V.i16(); String s = V.bool() ? "abc" : ""; int k = V.pick(3); long u = V.i64(); V.assume(u >= 0 && u <= 4294967295L); int i = V.i32();
        Drive.mix(w, a, b, c, d, e, f, g, h, s, k, u, i, z);
        V.chk(w.calls == 1 && w.which == 9); V.chk(w.a == a); V.chk(V.bits(w.b) == V.bits(b)); V.chk(w.c == c); V.chk(V.bits(w.d) == V.bits(d)); V.chk(w.e == e); V.chk(w.f == f); V.chk(w.g == g); V.chk(w.h == h);
        V.chk(eqs(w.s, s)); V.chk(w.k == (k == 0 ? Kind.AA : k == 1 ? Kind.BB : Kind.CC)); V.chk(w.u == u); V.chk(w.item.get() == i); V.chk(V.bits(w.z) == V.bits(z));
    }
    static void h_two() {
        W w = new W(); int a = V.i32(), b = V.i32(); w.ret = V.i32(); V.chk(Drive.two(w, a, b) == w.ret); V.chk(w.calls == 1 && w.which == 10); V.chk(w.item.get() == a && w.item2.get() == b && w.item != w.item2);
        w.retb = V.bool(); V.chk(Drive.two_s(w, "left", "r") == w.retb); V.chk(eqs(w.s, "left") && eqs(w.s2, "r"));
    }
    static void h_plain() {
        W w = new W(); w.boom = V.bool(); int n = V.pick(4); w.ret = V.i32(); int r = Drive.plain(w, n); V.chk(w.calls == n + 1); V.chk(w.boom || r == w.ret);
        w.boom = false; int x = V.i32(), y = V.i32(); V.chk(Drive.mutate(w, x, y) == (x ^ w.ret) - (y ^ w.ret)); V.chk(w.i2 == x && w.i1 == y);
        Drive.ignore(w); V.chk(w.calls == n + 3);
    }
    static void h_result() {
        W w = new W(); boolean ok = V.bool(); w.ret = V.i32(); w.boom = V.bool(); boolean thrown = false; int r = 0;
        try { r = Drive.fails(w, ok); } catch (Exception e) { thrown = true; V.chk(e.getClass() == Exception.class); V.chk(eqs(e.getMessage(), "after callback")); }
        V.chk(thrown == !ok); if (ok && !w.boom) V.chk(r == w.ret); V.chk(w.calls == 1 && w.which == (ok ? 13 : 12));
    }
    static void h_both() {
        W a = new W(), b = new W(); boolean same = V.bool(); if (same) b = a; a.ret = V.i32(); b.ret = V.i32(); int x = V.i32();
        V.chk(Drive.both(a, b, x) == a.ret + b.ret + x); if (same) V.chk(a.calls == 3); else V.chk(a.calls == 1 && b.calls == 2);
    }
    static void h_nested() {
        W a = new W(), b = new W(); a.next = b; a.ret = V.i32(); b.ret = V.i32(); b.boom = V.bool(); int n = V.pick(3);
        V.chk(Drive.plain(a, n) == a.ret); V.chk(a.calls == n + 1 && b.calls == 2); if (!b.boom) V.chk(a.i2 == b.ret);
    }
    static void h_over() {
        Over o = new Over() {
            public int on(int x) { seen = x; return 10; }
            public int on(long x) { seen = x; return 11; }
            public int on(String x) { seen = x.length(); return 12; }
            public int on(int x, int y) { seen = (x & 0xffffffffL) | (long) y << 32; return 13; }
            public int on(double x) { seen = V.bits(x); return 14; }
            public int on(Item x) { seen = x.get(); x.delete(); return 15; }
        };
        int w = V.pick(6); long x = V.i64(); V.chk(Drive.ov(o, w, x) == 10 + w); V.chk(seen == (w == 0 || w == 5 ? (long) (int) x : w == 2 ? 1 : x));
    }
    static long seen; static int cnt;
    static void h_slots() {
        Slots o = new Slots() {
            public int s0(int x) { seen = x; cnt = 1; return x + 1; } public int s1(int x) { seen = x; cnt = 2; return x + 2; } public int s2(int x) { seen = x; cnt = 3; return x + 3; }
            public void v0(int x) { seen = x; cnt = 4; } public void v1(int x) { seen = x; cnt = 5; } public void v2(int x) { seen = x; cnt = 6; }
        };
        int w = V.pick(6), x = V.i32(); V.chk(Drive.slot(o, w, x) == (w < 3 ? x + w + 1 : 0)); V.chk(seen == x && cnt == w + 1);
    }
    static class Base extends W { public void onPlain() { i2 = 77; super.onPlain(); } }
    static final class Derived extends Base { public int getCount() { return super.getCount() + 1; } }
    static void h_inherited() {
        W d = new Derived(); d.ret = V.i32(); int n = V.pick(3); V.chk(Drive.plain(d, n) == d.ret + 1); V.chk(d.calls == n + 1); if (n > 0) V.chk(d.i2 == 77); Drive.text(d, "q"); V.chk(eqs(d.s, "q"));
    }
    static void h_thread() {
        W w = new W(); w.ret = V.i32(); V.assume(w.ret > -1000 && w.ret < 1000); int n = V.pick(4); w.boom = V.bool(); int l = Drive.live(); int r = Drive.threaded(w, "t", n); V.chk(w.calls == 3 * n); if (!w.boom) V.chk(r == w.ret * n); if (n > 0) { V.chk(eqs(w.s, "t")); V.chk(w.item.get() == n); }
        P p = new P(); int x = V.i32(); p.ret_i32 = V.i32(); V.chk(Drive.threaded_prim(p, x) == p.ret_i32); V.chk(p.x_i32 == x && p.x_u8 == (x & 255) && p.calls == 3);
    }
    static void h_hub() {
        Hub hub = new Hub(); W[] w = { new W(), new W(), new W() }; for (int i = 0; i < 3; i++) w[i].ret = V.i32();
        for (int i = 0; i < 3; i++) hub.add(w[i]);
        hub.fire("x"); for (int i = 0; i < 3; i++) V.chk(w[i].calls == 1 && eqs(w[i].s, "x"));
        int k = V.pick(3); hub.remove(k); V.chk(hub.sum() == w[k == 0 ? 1 : 0].ret * 3 + w[k == 2 ? 1 : 2].ret);
        hub.give(V.i32()); V.chk((w[k].item == null)); V.chk(w[k == 0 ? 1 : 0].item != null && w[k == 2 ? 1 : 2].item != null);
        switch (V.pick(4)) { case 0: hub.clear(); V.chk(hub.sum() == 0); break; case 1: hub.delete(); hub.delete(); break; case 2: V.chk(Hub.take(hub) == w[k == 0 ? 1 : 0].ret * 3 + w[k == 2 ? 1 : 2].ret); break; default: break; }
    }
    static void h_hub_same() {
        Hub a = new Hub(), b = new Hub(); W w = new W(); w.ret = V.i32(); int n = 1 + V.pick(3); for (int i = 0; i < n; i++) { a.add(w); if (V.bool()) b.add(w); }
        a.fire("1"); V.chk(w.calls == n); b.clear(); int c = w.calls; a.fire("2"); V.chk(w.calls == c + n); b.fire("3"); V.chk(w.calls == c + n); a.delete(); b.delete();
    }
    static void h_reentrant() {
        Hub hub = new Hub(), other = new Hub(); W w = new W(); w.hub = other; w.boom = V.bool(); hub.add(w); int n = V.pick(4); for (int i = 0; i < n; i++) hub.fire("r"); V.chk(w.calls == n); V.chk(other.inc() == n + 1); if (n > 0) V.chk(w.i1 == n);
    }
    static void h_history() {
        Hub hub = new Hub(); W[] w = new W[4]; int n = 0, fired = 0; int[] exp = new int[4]; boolean[] in = new boolean[4]; int[] order = new int[4]; int cnt = 0;
        for (int st = 0; st < 4; st++) {
            switch (V.pick(3)) {
                case 0: if (n < 4) { w[n] = new W(); w[n].boom = V.bool(); hub.add(w[n]); order[cnt++] = n++; } break;
                case 1: hub.fire("h"); for (int i = 0; i < cnt; i++) exp[order[i]]++; break;
                default: if (cnt > 0) { int k = V.pick(cnt); hub.remove(k); for (int i = k; i + 1 < cnt; i++) order[i] = order[i + 1]; cnt--; } break;
            }
        }
        for (int i = 0; i < n; i++) V.chk(w[i].calls == exp[i]);
    }
    static class Mn implements Many { long got; int which = -1;
        public long f0() { which = 0; return 0; }
        public void g0() { which = 100; got = 0; }
        public long f1(byte a) { which = 1; return (a & 255L) << 0; }
        public void g1(byte a) { which = 101; got = (a & 255L) << 0; }
        public long f2(byte a, byte b) { which = 2; return (a & 255L) << 0 | (b & 255L) << 8; }
        public void g2(byte a, byte b) { which = 102; got = (a & 255L) << 0 | (b & 255L) << 8; }
        public long f3(byte a, byte b, byte c) { which = 3; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16; }
        public void g3(byte a, byte b, byte c) { which = 103; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16; }
        public long f4(byte a, byte b, byte c, byte d) { which = 4; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24; }
        public void g4(byte a, byte b, byte c, byte d) { which = 104; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24; }
        public long f5(byte a, byte b, byte c, byte d, byte e) { which = 5; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32; }
        public void g5(byte a, byte b, byte c, byte d, byte e) { which = 105; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32; }
        public long f6(byte a, byte b, byte c, byte d, byte e, byte f) { which = 6; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40; }
        public void g6(byte a, byte b, byte c, byte d, byte e, byte f) { which = 106; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40; }
        public long f7(byte a, byte b, byte c, byte d, byte e, byte f, byte g) { which = 7; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40 | (g & 255L) << 48; }
        public void g7(byte a, byte b, byte c, byte d, byte e, byte f, byte g) { which = 107; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40 | (g & 255L) << 48; }
        public long f8(byte a, byte b, byte c, byte d, byte e, byte f, byte g, byte h) { which = 8; return (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40 | (g & 255L) << 48 | (h & 255L) << 56; }
        public void g8(byte a, byte b, byte c, byte d, byte e, byte f, byte g, byte h) { which = 108; got = (a & 255L) << 0 | (b & 255L) << 8 | (c & 255L) << 16 | (d & 255L) << 24 | (e & 255L) << 32 | (f & 255L) << 40 | (g & 255L) << 48 | (h & 255L) << 56; }
    }
    static void h_arity() {
        byte[] v = new byte[8]; for (int i = 0; i < 8; i++) v[i] = V.i8(); int n = V.pick(9); boolean set = V.bool(); long w = 0; for (int i = 0; i < n; i++) w |= (v[i] & 255L) << (8 * i);
        Mn m = new Mn(); ManyUser u = new ManyUser(m); long r = u.run((byte)n, set, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        V.chk(m.which == n + (set ? 100 : 0)); V.chk((set ? m.got : r) == w);
    }
}
