package com.example.rust;
import vp.V;
class T {
    static void h_long_i8() { int n = V.pick(5) + 4; byte[] a = H.arr_i8(n); byte[] c = a.clone(); V.chk(H.same(Arr.echo_i8(a), c)); byte[] v = Arr.rev_i8(a); V.chk(H.same(Arr.rev_i8(v), c)); V.chk(H.same(a, c)); }
    static void h_long_i16() { int n = V.pick(5) + 4; short[] a = H.arr_i16(n); short[] c = a.clone(); V.chk(H.same(Arr.echo_i16(a), c)); short[] v = Arr.rev_i16(a); V.chk(H.same(Arr.rev_i16(v), c)); V.chk(H.same(a, c)); }
    static void h_long_i32() { int n = V.pick(5) + 4; int[] a = H.arr_i32(n); int[] c = a.clone(); V.chk(H.same(Arr.echo_i32(a), c)); int[] v = Arr.rev_i32(a); V.chk(H.same(Arr.rev_i32(v), c)); V.chk(H.same(a, c)); }
    static void h_long_i64() { int n = V.pick(5) + 4; long[] a = H.arr_i64(n); long[] c = a.clone(); V.chk(H.same(Arr.echo_i64(a), c)); long[] v = Arr.rev_i64(a); V.chk(H.same(Arr.rev_i64(v), c)); V.chk(H.same(a, c)); }
    static void h_long_f32() { int n = V.pick(5) + 4; float[] a = H.arr_f32(n); float[] c = a.clone(); V.chk(H.same(Arr.echo_f32(a), c)); float[] v = Arr.rev_f32(a); V.chk(H.same(Arr.rev_f32(v), c)); V.chk(H.same(a, c)); }
    static void h_long_f64() { int n = V.pick(5) + 4; double[] a = H.arr_f64(n); double[] c = a.clone(); V.chk(H.same(Arr.echo_f64(a), c)); double[] v = Arr.rev_f64(a); V.chk(H.same(Arr.rev_f64(v), c)); V.chk(H.same(a, c)); }
    static void h_items_out_long() { int n = V.pick(6) + 3, b = V.i32(); int l0 = Arr.live(); Item[] r = Arr.items(n, b); V.chk(r.length == n); for (int i = 0; i < n; i++) V.chk(r[i].get() == b + i);
        int k = V.pick(n), m = V.pick(n); r[k].delete(); r[m].delete(); V.chk(Arr.live() == l0 + n - (k == m ? 1 : 2)); for (int i = 0; i < n; i++) if (i != k && i != m) V.chk(r[i].get() == b + i); }
}
