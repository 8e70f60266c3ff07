package com.example.rust;
import vp.V;
class H {
    static final int N = 4;
    static byte[] arr_i8(int n) { byte[] a = new byte[n]; for (int i = 0; i < n; i++) a[i] = V.i8(); return a; }
    static boolean same(byte[] a, byte[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= a[i] == b[i]; return r; }
    static void h_i8() {
        int n = V.pick(N); byte[] a = arr_i8(n); byte[] c = a.clone();
        V.chk(Arr.len_i8(a) == n); V.chk(same(a, c));
        byte[] e = Arr.echo_i8(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        byte[] v = Arr.rev_i8(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(v[i] == c[n - 1 - i]);
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(Arr.at_i8(a, k) == c[k]); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_i8() {
        int n = V.pick(N); byte x = V.i8(); byte[] a = Arr.fill_i8(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(a[i] == x);
        V.chk(Arr.none_i8().length == 0); V.chk(Arr.len_i8(new byte[0]) == 0); V.chk(Arr.echo_i8(new byte[0]).length == 0);
    }
    static short[] arr_i16(int n) { short[] a = new short[n]; for (int i = 0; i < n; i++) a[i] = V.i16(); return a; }
    static boolean same(short[] a, short[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= a[i] == b[i]; return r; }
    static void h_i16() {
        int n = V.pick(N); short[] a = arr_i16(n); short[] c = a.clone();
        V.chk(Arr.len_i16(a) == n); V.chk(same(a, c));
        short[] e = Arr.echo_i16(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        short[] v = Arr.rev_i16(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(v[i] == c[n - 1 - i]);
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(Arr.at_i16(a, k) == c[k]); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_i16() {
        int n = V.pick(N); short x = V.i16(); short[] a = Arr.fill_i16(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(a[i] == x);
        V.chk(Arr.none_i16().length == 0); V.chk(Arr.len_i16(new short[0]) == 0); V.chk(Arr.echo_i16(new short[0]).length == 0);
    }
    static int[] arr_i32(int n) { int[] a = new int[n]; for (int i = 0; i < n; i++) a[i] = V.i32(); return a; }
    static boolean same(int[] a, int[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= a[i] == b[i]; return r; }
    static void h_i32() {
        int n = V.pick(N); int[] a = arr_i32(n); int[] c = a.clone();
        V.chk(Arr.len_i32(a) == n); V.chk(same(a, c));
        int[] e = Arr.echo_i32(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        int[] v = Arr.rev_i32(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(v[i] == c[n - 1 - i]);
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(Arr.at_i32(a, k) == c[k]); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_i32() {
        int n = V.pick(N); int x = V.i32(); int[] a = Arr.fill_i32(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(a[i] == x);
        V.chk(Arr.none_i32().length == 0); V.chk(Arr.len_i32(new int[0]) == 0); V.chk(Arr.echo_i32(new int[0]).length == 0);
    }
    static long[] arr_i64(int n) { long[] a = new long[n]; for (int i = 0; i < n; i++) a[i] = V.i64(); return a; }
    static boolean same(long[] a, long[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= a[i] == b[i]; return r; }
    static void h_i64() {
        int n = V.pick(N); long[] a = arr_i64(n); long[] c = a.clone();
        V.chk(Arr.len_i64(a) == n); V.chk(same(a, c));
        long[] e = Arr.echo_i64(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        long[] v = Arr.rev_i64(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(v[i] == c[n - 1 - i]);
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(Arr.at_i64(a, k) == c[k]); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_i64() {
        int n = V.pick(N); long x = V.i64(); long[] a = Arr.fill_i64(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(a[i] == x);
        V.chk(Arr.none_i64().length == 0); V.chk(Arr.len_i64(new long[0]) == 0); V.chk(Arr.echo_i64(new long[0]).length == 0);
    }
    static float[] arr_f32(int n) { float[] a = new float[n]; for (int i = 0; i < n; i++) a[i] = Float.intBitsToFloat(V.i32()); return a; }
    static boolean same(float[] a, float[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= V.bits(a[i]) == V.bits(b[i]); return r; }
    static void h_f32() {
        int n = V.pick(N); float[] a = arr_f32(n); float[] c = a.clone();
        V.chk(Arr.len_f32(a) == n); V.chk(same(a, c));
        float[] e = Arr.echo_f32(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        float[] v = Arr.rev_f32(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(V.bits(v[i]) == V.bits(c[n - 1 - i]));
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(V.bits(Arr.at_f32(a, k)) == V.bits(c[k])); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_f32() {
        int n = V.pick(N); float x = Float.intBitsToFloat(V.i32()); float[] a = Arr.fill_f32(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(V.bits(a[i]) == V.bits(x));
        V.chk(Arr.none_f32().length == 0); V.chk(Arr.len_f32(new float[0]) == 0); V.chk(Arr.echo_f32(new float[0]).length == 0);
    }
    static double[] arr_f64(int n) { double[] a = new double[n]; for (int i = 0; i < n; i++) a[i] = Double.longBitsToDouble(V.i64()); return a; }
    static boolean same(double[] a, double[] b) { if (a == null || b == null || a.length != b.length) return false; boolean r = true; for (int i = 0; i < a.length; i++) r &= V.bits(a[i]) == V.bits(b[i]); return r; }
    static void h_f64() {
        int n = V.pick(N); double[] a = arr_f64(n); double[] c = a.clone();
        V.chk(Arr.len_f64(a) == n); V.chk(same(a, c));
        double[] e = Arr.echo_f64(a); V.chk(e != a); V.chk(same(e, c)); V.chk(same(a, c));
        double[] v = Arr.rev_f64(a); V.chk(v.length == n); for (int i = 0; i < n; i++) V.chk(V.bits(v[i]) == V.bits(c[n - 1 - i]));
        V.chk(same(a, c));
        if (n > 0) { int k = V.pick(n); V.chk(V.bits(Arr.at_f64(a, k)) == V.bits(c[k])); e[0] = 0; V.chk(same(a, c)); }
    }
    static void h_fill_f64() {
        int n = V.pick(N); double x = Double.longBitsToDouble(V.i64()); double[] a = Arr.fill_f64(n, x); V.chk(a.length == n); for (int i = 0; i < n; i++) V.chk(V.bits(a[i]) == V.bits(x));
        V.chk(Arr.none_f64().length == 0); V.chk(Arr.len_f64(new double[0]) == 0); V.chk(Arr.echo_f64(new double[0]).length == 0);
    }

    static void h_bounds() {      // the array has exactly its elements: the last one is inside, the next is not
        int[] a = arr_i32(3); V.chk(Arr.at_i32(a, 2) == a[2]); V.expectAbort(); Arr.at_i32(a, 3);
    }
    static void h_null_array() { V.expectAbort(); Arr.len_i32(null); }
    static void h_two_arrays() {
        int n = V.pick(3), m = V.pick(3); int[] a = arr_i32(n), b = arr_i32(m); int[] ca = a.clone(), cb = b.clone();
        Keep k = new Keep(a);
        V.chk(same(k.all(), ca)); V.chk(same(k.copy(), ca));
        V.chk(k.add(b, a) == n + m + n);
        int[] r = k.all(); V.chk(r.length == n + m + n);
        for (int i = 0; i < r.length; i++) V.chk(r[i] == (i < n ? ca[i] : i < n + m ? cb[i - n] : ca[i - n - m]));
        int[] t = k.tail(n); V.chk(t.length == n + m); for (int i = 0; i < t.length; i++) V.chk(t[i] == r[n + i]);
        V.chk(k.add(a, a) == 4 * n + m);
        V.chk(same(a, ca)); V.chk(same(b, cb));
        r = k.copy(); V.chk(r.length == 4 * n + m); if (r.length > 0) { r[0] = ~r[0]; V.chk(k.all()[0] == (n > 0 ? ca[0] : cb[0])); }
    }
    static void h_mix() {
        byte[] a = arr_i8(V.pick(3)); long[] b = arr_i64(2); double[] c = arr_f64(V.pick(3)); byte[] ca = a.clone(); long[] cb = b.clone(); double[] cc = c.clone(); int k = V.i32();
        long r = Arr.mix(a, b, "xyz", c, k);
        V.chk(r == a.length * 1000 + 200 + c.length * 10 + 3 + (cb[0] ^ cb[1]) + k); V.chk(same(a, ca)); V.chk(same(b, cb)); V.chk(same(c, cc));
    }
    static void h_res_ints() {
        int[] a = arr_i32(V.pick(3)); boolean f = V.bool(); int[] c = a.clone();
        try { int[] r = Arr.res_ints(a, f); V.chk(!f); V.chk(same(r, c)); }
        catch (Exception e) { V.chk(f); V.chk("no array".equals(e.getMessage())); }
        V.chk(same(a, c));
    }
    static void h_items_out() {
        int n = V.pick(N), b = V.i32(); int l0 = Arr.live();
        Item[] r = Arr.items(n, b);
        V.chk(r.length == n); V.chk(Arr.live() == l0 + n);
        for (int i = 0; i < n; i++) V.chk(r[i] != null && r[i].get() == b + i);
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) V.chk(r[i] != r[j]);
        if (n > 0) { int k = V.pick(n), x = V.i32(); r[k].set(x); for (int i = 0; i < n; i++) V.chk(r[i].get() == (i == k ? x : b + i));
            r[k].delete(); V.chk(Arr.live() == l0 + n - 1); for (int i = 0; i < n; i++) if (i != k) V.chk(r[i].get() == b + i);
            r[k].delete(); V.chk(Arr.live() == l0 + n - 1); }
        for (int i = 0; i < n; i++) V.gc(r[i]);
    }
    static void h_items_in() {
        int n = V.pick(N); int l0 = Arr.live(); Item[] a = new Item[n]; int[] v = arr_i32(n); int s = 0;
        for (int i = 0; i < n; i++) { a[i] = new Item(v[i]); s = s * 31 + v[i]; }
        Item[] c = a.clone();
        V.chk(Arr.count(a) == n); V.chk(Arr.live() == l0 + n);
        V.chk(Arr.sum(a) == s); V.chk(Arr.live() == l0 + n);
        for (int i = 0; i < n; i++) { V.chk(Arr.at(a, i) == v[i]); V.chk(a[i] == c[i]); V.chk(a[i].get() == v[i]); }
        Item[] r = Arr.rev(a); V.chk(r.length == n); V.chk(Arr.live() == l0 + 2 * n);
        for (int i = 0; i < n; i++) { V.chk(r[i].get() == v[n - 1 - i]); r[i].set(0); }
        for (int i = 0; i < n; i++) { V.chk(a[i].get() == v[i]); a[i].delete(); }
        V.chk(Arr.live() == l0 + n);
        for (int i = 0; i < n; i++) r[i].delete();
        V.chk(Arr.live() == l0);
    }
    static void h_items_repeat() {       // the same object at two places
        int x = V.i32(); Item a = new Item(x); int l0 = Arr.live();
        V.chk(Arr.sum(new Item[] { a, a }) == x * 31 + x); V.chk(Arr.live() == l0); V.chk(a.get() == x);
        Item[] r = Arr.rev(new Item[] { a, a, a }); V.chk(r.length == 3 && r[0] != r[1] && r[1] != r[2]); r[1].set(x + 1); V.chk(r[0].get() == x && r[2].get() == x && a.get() == x);
    }
    static void h_items_many() {         // far more elements than local references
        int b = V.i32(); int l0 = Arr.live(); Item[] r = Arr.items(40, b); V.chk(r.length == 40); V.chk(Arr.live() == l0 + 40);
        V.chk(r[0].get() == b && r[25].get() == b + 25 && r[39].get() == b + 39); V.chk(Arr.at(r, 39) == b + 39); V.chk(Arr.count(r) == 40);
        for (int i = 0; i < 40; i++) r[i].delete(); V.chk(Arr.live() == l0);
    }
    static void h_res_items() {
        int n = V.pick(4) - 1; int l0 = Arr.live();
        try { Item[] r = Arr.res_items(n); V.chk(n >= 0 && r.length == n); V.chk(Arr.live() == l0 + n); for (int i = 0; i < n; i++) V.chk(r[i].get() == 5 + i); }
        catch (Exception e) { V.chk(n < 0); V.chk("negative".equals(e.getMessage())); V.chk(Arr.live() == l0); }
    }
    static boolean plain(String s) { for (int i = 0; i < s.length(); i++) if (s.charAt(i) >= 0xd800 && s.charAt(i) <= 0xdfff) return false; return true; }
    static void h_strings() {
        int n = V.pick(N); String a = V.str(V.pick(2)), b = V.str(1); V.assume(plain(a) && plain(b));
        String[] r = Arr.strs(n, a, b); V.chk(r.length == n);
        for (int i = 0; i < n; i++) V.chk(r[i] != null && r[i].equals(i % 2 == 0 ? a : b));
    }
    static void h_strings_fixed() {
        String[] r = Arr.fixed_strs(); V.chk(r.length == 3); V.chk(r[0].equals("")); V.chk(r[1].equals("x\0y")); V.chk(r[2].equals("\u00e9\ud83d\ude00"));
        V.chk(Arr.strs(0, "a", "b").length == 0);
        r = Arr.strs(40, "a", "b"); V.chk(r.length == 40 && r[39].equals("b") && r[38].equals("a"));
    }
    static void h_texts() {
        Keep k = new Keep(new int[0]); String a = V.str(1), b = V.str(1); V.assume(plain(a) && plain(b));
        V.chk(k.texts().length == 0); k.push(a); k.push(b); String[] r = k.texts(); V.chk(r.length == 2 && r[0].equals(a) && r[1].equals(b)); r[0] = null; V.chk(k.texts()[0].equals(a));
    }
    // sizes far beyond the other scenarios
    static int huge_n() { int k = V.pick(4); return k == 0 ? 17 : k == 1 ? 65 : k == 2 ? 257 : 1030; }
    static void h_huge_i8() {
        int n = huge_n(); byte b = V.i8(); byte[] a = new byte[n]; for (int i = 0; i < n; i++) a[i] = (byte)(b + i);
        V.chk(Arr.len_i8(a) == n); V.chk(Arr.at_i8(a, n - 1) == a[n - 1]);
        byte[] e = Arr.echo_i8(a), r = Arr.rev_i8(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(e[i] == a[i]); V.chk(r[i] == a[n - 1 - i]); }
    }
    static void h_huge_i16() {
        int n = huge_n(); short b = V.i16(); short[] a = new short[n]; for (int i = 0; i < n; i++) a[i] = (short)(b + i);
        V.chk(Arr.len_i16(a) == n); V.chk(Arr.at_i16(a, n - 1) == a[n - 1]);
        short[] e = Arr.echo_i16(a), r = Arr.rev_i16(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(e[i] == a[i]); V.chk(r[i] == a[n - 1 - i]); }
    }
    static void h_huge_i32() {
        int n = huge_n(); int b = V.i32(); int[] a = new int[n]; for (int i = 0; i < n; i++) a[i] = (int)(b + i);
        V.chk(Arr.len_i32(a) == n); V.chk(Arr.at_i32(a, n - 1) == a[n - 1]);
        int[] e = Arr.echo_i32(a), r = Arr.rev_i32(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(e[i] == a[i]); V.chk(r[i] == a[n - 1 - i]); }
    }
    static void h_huge_i64() {
        int n = huge_n(); long b = V.i64(); long[] a = new long[n]; for (int i = 0; i < n; i++) a[i] = (long)(b + i);
        V.chk(Arr.len_i64(a) == n); V.chk(Arr.at_i64(a, n - 1) == a[n - 1]);
        long[] e = Arr.echo_i64(a), r = Arr.rev_i64(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(e[i] == a[i]); V.chk(r[i] == a[n - 1 - i]); }
    }
    static void h_huge_f32() {
        int n = huge_n(); float x = V.f32(), y = V.f32(); float[] a = new float[n]; for (int i = 0; i < n; i++) a[i] = i % 3 == 0 ? x : y;
        V.chk(Arr.len_f32(a) == n); V.chk(V.bits(Arr.at_f32(a, n - 1)) == V.bits(a[n - 1]));
        float[] e = Arr.echo_f32(a), r = Arr.rev_f32(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(V.bits(e[i]) == V.bits(a[i])); V.chk(V.bits(r[i]) == V.bits(a[n - 1 - i])); }
    }
    static void h_huge_f64() {
        int n = huge_n(); double x = V.f64(), y = V.f64(); double[] a = new double[n]; for (int i = 0; i < n; i++) a[i] = i % 3 == 0 ? x : y;
        V.chk(Arr.len_f64(a) == n); V.chk(V.bits(Arr.at_f64(a, n - 1)) == V.bits(a[n - 1]));
        double[] e = Arr.echo_f64(a), r = Arr.rev_f64(a); V.chk(e.length == n && r.length == n); for (int i = 0; i < n; i++) { V.chk(V.bits(e[i]) == V.bits(a[i])); V.chk(V.bits(r[i]) == V.bits(a[n - 1 - i])); }
    }
    static void h_huge_items() {
        int k = V.pick(2), n = k == 0 ? 65 : 300, b = V.i32(), l0 = Arr.live(); Item[] r = Arr.items(n, b); V.chk(r.length == n && Arr.live() == l0 + n);
        for (int i = 0; i < n; i++) V.chk(r[i].get() == b + i);
        V.chk(Arr.count(r) == n); Item[] q = Arr.rev(r); V.chk(q.length == n && Arr.live() == l0 + 2 * n); for (int i = 0; i < n; i++) V.chk(q[i].get() == b + (n - 1 - i));
        String[] s = Arr.strs(n, "ab", "\u00e9"); V.chk(s.length == n); for (int i = 0; i < n; i++) V.chk(s[i].equals(i % 2 == 0 ? "ab" : "\u00e9"));
    }
}
