package com.example.rust;
import vp.V;
class H {
    static final int NONNULL = 1, NULLABLE = 2;
    // a result declared NonNull is not null, whatever the inputs; where the flag is set the result has to be declared NonNull
    static void ret(int ann, Object o) { V.chk(ann == NONNULL); V.chk(o != null); }
    static void weak(int ann, Object o) { V.chk(ann == 0 || ann == NONNULL); V.chk(ann == 0 || o != null); }
    static void non(int ann) { V.chk(ann == NONNULL); }
    static void may(int ann) { V.chk(ann == NULLABLE); }
    static void prim(int ann) { V.chk(ann == 0); }
    static void h_ret_text() {
        boolean k = V.bool(); ret(Ann.Use_r_str(), Use.r_str(k)); ret(Ann.Use_r_sstr(), Use.r_sstr(k)); ret(Ann.Use_r_ostr(), Use.r_ostr(k)); prim(Ann.Use_r_str_0());
        try { ret(Ann.Use_r_res(), Use.r_res(k)); V.chk(k); } catch (Exception e) { V.chk(!k && e.getMessage() != null); }
    }
    static void h_ret_boxed() {
        boolean k = V.bool(); int v = V.i32(); long w = V.i64();
        ret(Ann.Use_r_i8(), Use.r_i8(k, (byte) v)); ret(Ann.Use_r_i32(), Use.r_i32(k, v)); ret(Ann.Use_r_i64(), Use.r_i64(k, w)); prim(Ann.Use_r_i64_0()); prim(Ann.Use_r_i64_1());
    }
    static void h_ret_float() { boolean k = V.bool(); ret(Ann.Use_r_f64(), Use.r_f64(k, V.f64())); ret(Ann.Use_r_f32(), Use.r_f32(k, V.f32())); }
    static void h_ret_enum() { int e = V.pick(3); boolean k = V.bool(); weak(Ann.Use_r_kind(), Use.r_kind(e)); java.util.Optional<Kind> o = Use.r_okind(k, e); ret(Ann.Use_r_okind(), o); V.chk(o.isPresent() == k); }
    static void h_ret_object() {
        boolean k = V.bool(); int v = V.i32(); ret(Ann.Use_r_item(), Use.r_item(v)); ret(Ann.Use_r_oitem(), Use.r_oitem(k, v)); ret(Ann.Use_r_sh(), Use.r_sh(v));
        try { ret(Ann.Use_r_resi(), Use.r_resi(k, v)); V.chk(k); } catch (Exception e) { V.chk(!k && e.getMessage() != null); }
        Item i = Use.r_item(v); ret(Ann.Item_next(), i.next()); ret(Ann.Item_name(), i.name()); ret(Ann.Item_maybe(), i.maybe()); prim(Ann.Item_v());
    }
    static void h_ret_array() {
        int n = V.pick(3); weak(Ann.Use_r_ints(), Use.r_ints(n)); weak(Ann.Use_r_bytes(), Use.r_bytes(n)); Item[] a = Use.r_items(n); ret(Ann.Use_r_items(), a); String[] s = Use.r_strs(n); ret(Ann.Use_r_strs(), s);
        for (int i = 0; i < n; i++) V.chk(a[i] != null && s[i] != null);
    }
    static void h_ret_date() { ret(Ann.Use_r_date(), Use.r_date(V.i32() & 0xffffffffL)); }
    // arguments: exactly the options may be null, and null is the absent value
    static void h_arg_text() {
        non(Ann.Use_a_str_0()); non(Ann.Use_a_string_0()); non(Ann.Use_a_string_1()); may(Ann.Use_a_oref_0()); non(Ann.Use_a_path_0());
        String s = V.str(1); V.assume(s.length() == 0 || s.charAt(0) < 0xd800); String t = V.bool() ? null : s; V.chk(Use.a_str(s) >= 0); V.chk(Use.a_string(s, s) >= 0); V.chk(t == null ? Use.a_oref(t) == -1 : Use.a_oref(t) >= 0); V.chk(Use.a_path("/x"));
    }
    static void h_arg_boxed() {
        may(Ann.Use_a_oi8_0()); may(Ann.Use_a_oi16_0()); may(Ann.Use_a_oi32_0()); may(Ann.Use_a_oi64_0()); may(Ann.Use_a_oi64_1());
        boolean k = V.bool(), l = V.bool(); int v = V.i32(); long w = V.i64();
        V.chk(Use.a_oi8(k ? Byte.valueOf((byte) v) : null) == (k ? (byte) v : 1000)); V.chk(Use.a_oi16(k ? Short.valueOf((short) v) : null) == (k ? (short) v : 100000));
        V.chk(Use.a_oi32(k ? Integer.valueOf(v) : null) == (k ? v : 1L << 40)); V.chk(Use.a_oi64(k ? Long.valueOf(w) : null, l ? Long.valueOf(v) : null) == (k ? w : 5) - (l ? v : 6));
    }
    static void h_arg_float() {
        may(Ann.Use_a_of32_0()); may(Ann.Use_a_of64_0()); boolean k = V.bool(); V.chk(Use.a_of32(k ? Float.valueOf(1.5f) : null) == (k ? 0x3fc00000L : -1)); V.chk(Use.a_of64(k ? Double.valueOf(1.5) : null) == (k ? 0x3ff8000000000000L >> 1 : Long.MAX_VALUE));
    }
    static void h_arg_enum() {
        non(Ann.Use_a_kind_0()); prim(Ann.Use_a_kind_1()); non(Ann.Use_a_kind_2()); may(Ann.Use_a_okind_0());
        boolean k = V.bool(); int e = V.pick(3); Kind kk = Use.r_kind(e); V.chk(Use.a_okind(k ? kk : null) == (k ? e : -1)); V.chk(Use.a_kind(kk, 0, Kind.BLUE) == e * 10 + 2);
    }
    static void h_arg_object() {
        non(Ann.Use_a_item_0()); non(Ann.Use_a_item_1()); may(Ann.Use_a_oitem_0()); may(Ann.Use_a_oitem_1()); non(Ann.Use_a_sh_0()); non(Ann.Use_a_sh_1()); non(Ann.Use_a_ints_0());
        boolean k = V.bool(), l = V.bool(); int v = V.i32(), w = V.i32(); Item b = Use.r_item(w); V.chk(Use.a_item(Use.r_item(v), b) == (v ^ w));
        V.chk(Use.a_oitem(k ? Use.r_item(v) : null, l ? b : null) == ((k ? v : -1) ^ (l ? w : -2))); V.chk(Use.a_sh(new Sh(v), new Sh(w)) == v);
    }
    static void h_arg_mixed() {
        non(Ann.Use_a_mix_0()); may(Ann.Use_a_mix_1()); non(Ann.Use_a_mix_2()); may(Ann.Use_a_mix_3()); prim(Ann.Use_a_mix_4()); non(Ann.Use_a_mix_5());
        non(Ann.Item_Item_0()); may(Ann.Item_Item_1()); non(Ann.Item_Item_2()); may(Ann.Item_pick_0()); non(Ann.Item_pick_1()); prim(Ann.Sh_Sh_0());
        boolean k = V.bool(), l = V.bool(); int v = V.i32(), w = V.i32(), x = V.i32(); Item a = Use.r_item(v), p = l ? Use.r_item(x) : null;
        V.chk(Use.a_mix(a, k ? Integer.valueOf(w) : null, "s", p, 77, Kind.BLUE) == (v ^ (k ? w : 3) ^ (l ? x : 9) ^ 77 ^ 2));
        Item c = new Item("ab", k ? Integer.valueOf(5) : null, Kind.GREEN); V.chk(c.v() == 1200 + (k ? 5 : -1)); V.chk(c.pick(p, "q") == (l ? x : c.v()) + 1);
    }
    static class Look implements Seen {
        int n;
        public void text(String s, String t, int k) { n++; V.chk(s != null && t != null); }
        public void obj(Item a, Item b, Kind e) { n += 10; V.chk(a != null && b != null && e != null); }
    }
    static void h_callback() {
        non(Ann.Use_fire_0()); prim(Ann.Use_fire_1()); prim(Ann.Use_fire_2());
        non(Ann.Seen_text_0()); non(Ann.Seen_text_1()); prim(Ann.Seen_text_2()); non(Ann.Seen_obj_0()); non(Ann.Seen_obj_1()); non(Ann.Seen_obj_2());
        Look l = new Look(); Use.fire(l, V.bool(), V.i32()); V.chk(l.n == 11);
    }
    static void h_arg_more() {
        non(Ann.Use_a_mut_0()); prim(Ann.Use_a_mut_1()); non(Ann.Use_a_mut_2()); non(Ann.Use_a_arc_0()); non(Ann.Use_a_path2_0()); prim(Ann.Use_a_path2_1());
        int v = V.i32(), w = V.i32(); Item a = Use.r_item(v); Sh s = new Sh(w); V.chk(Use.a_arc(new Sh(w)) == w); V.chk(Use.a_mut(a, w ^ 5, s) == v); V.chk(a.v() == (w ^ 5) && s.v() == (w ^ 5)); V.chk(Use.a_path2("/x", w) == w);
    }
    static void h_arg_arrays() {
        non(Ann.Use_a_arr_0()); non(Ann.Use_a_arr_1()); non(Ann.Use_a_arr_2()); non(Ann.Use_a_arr_3()); non(Ann.Use_a_arr_4());
        int n = V.pick(3); V.chk(Use.a_arr(new byte[n], new short[2], new long[1], new float[n], new double[0]) == 2 * n + 3);
    }
    static void h_arg_enums() {
        non(Ann.Use_a_enums_0()); may(Ann.Use_a_enums_1()); non(Ann.Use_a_enums_2()); int e = V.pick(3); boolean k = V.bool(); Look l = new Look(); Kind kk = Use.r_kind(e);
        V.chk(Use.a_enums(kk, k ? kk : null, l) == e + (k ? 10 + e : 0)); V.chk(l.n == 1);
    }
    static void h_ret_more() {
        boolean k = V.bool(); int v = V.i32(), n = V.pick(3); ret(Ann.Use_r_i16(), Use.r_i16(k, (short) v)); weak(Ann.Use_r_floats(), Use.r_floats(n)); weak(Ann.Use_r_longs(), Use.r_longs(n));
        int e = V.pick(3) - 1; try { weak(Ann.Use_r_kindo(), Use.r_kindo(e)); V.chk(e >= 0); } catch (Exception x) { V.chk(e < 0 && x.getMessage() != null); }
    }
    static void h_only_arg() {
        non(Ann.OnlyMut_om_0()); may(Ann.OnlyOptArg_oa_0()); may(Ann.OnlyOptObj_oo_0()); non(Ann.OnlyPath_op_0()); non(Ann.OnlyArr_oi_0()); non(Ann.OnlyKind_ok_0()); non(Ann.OnlyCtor_OnlyCtor_0()); may(Ann.OnlyCtorOpt_OnlyCtorOpt_0()); prim(Ann.OnlyNone_OnlyNone_0()); non(Ann.OnlyMeth_set_0()); may(Ann.OnlyBoth_ob_0()); prim(Ann.OnlyBoth_ob_1());
        int v = V.i32(); long w = V.i64(); boolean k = V.bool(); Item a = Use.r_item(v);
        V.chk(OnlyMut.om(a) == v); V.chk(OnlyOptArg.oa(k ? Long.valueOf(w) : null) == (k ? w : 3)); V.chk(OnlyOptObj.oo(k ? a : null) == (k ? v : 3)); V.chk(OnlyPath.op("/x")); V.chk(new OnlyCtor(a).get() == v); V.chk(new OnlyNone(v).get() == v);
        OnlyMeth m = new OnlyMeth(1); m.set(a); V.chk(m.get() == v); V.chk(OnlyBoth.ob(k ? Double.valueOf(0.5) : null, true) == k);
    }
    static void h_only_ret() {
        int v = V.i32(); boolean k = V.bool(); ret(Ann.OnlyDate_od(), OnlyDate.od(5)); ret(Ann.OnlyStrs_ot(), OnlyStrs.ot(1)); ret(Ann.OnlyOptRet_or(), OnlyOptRet.or(k, v)); ret(Ann.OnlyBoth_oc(), OnlyBoth.oc(k));
        try { ret(Ann.OnlyRes_os(), OnlyRes.os(k)); V.chk(k); } catch (Exception e) { V.chk(!k); }
    }
    static class L1 implements One, Zero { int n; public void one(int i, String s) { V.chk(s != null); n += i; } public void zero(int i) { n ^= i; } }
    static void h_only_callback() {
        non(Ann.OnlyCall_c1_0()); prim(Ann.OnlyCall_c1_1()); prim(Ann.OnlyCall_c0_0()); non(Ann.OnlyCall_c0_1()); prim(Ann.One_one_0()); non(Ann.One_one_1()); prim(Ann.Zero_zero_0());
        int v = V.i32(); L1 l = new L1(); OnlyCall.c1(l, v); V.chk(l.n == v); OnlyCall.c0(v, l); V.chk(l.n == 0);
    }
    static void h_user_map() {
        non(Ann.UseDeg_d1_0()); may(Ann.UseDeg_d2_0()); non(Ann.UseDeg_d2_1()); may(Ann.UseDeg_d2_2()); may(Ann.UseDeg_d3_0()); may(Ann.UseDeg_d3_1()); prim(Ann.UseDeg_d3_2()); may(Ann.OnlyDeg_d_0());
        int v = V.i32(), w = V.i32(), x = V.i32(); boolean k = V.bool(), l = V.bool(); weak(Ann.UseDeg_deg(), UseDeg.deg(v)); V.chk(UseDeg.d1(UseDeg.deg(v)) == v);
        Long a = k ? Long.valueOf(v) : null, b = l ? Long.valueOf(w) : null; int av = k ? v : 5, bv = l ? w : 6;
        V.chk(UseDeg.d2(a, Long.valueOf(x), b) == (av ^ x ^ bv)); V.chk(UseDeg.d3(a, b, x) == (av ^ bv ^ x)); V.chk(OnlyDeg.d(a) == av);
    }
    static void h_arg_optional() {
        may(Ann.UseDeg_d4_0()); may(Ann.UseDeg_d4_1()); may(Ann.UseDeg_d4_2()); may(Ann.UseDeg_d4_3());
        int m = V.pick(16), v = V.i32(); int x = V.pick(3); Kind kk = Use.r_kind(x);
        V.chk(UseDeg.d4((m & 1) != 0 ? kk : null, (m & 2) != 0 ? kk : null, (m & 4) != 0 ? "abc" : null, (m & 8) != 0 ? Use.r_item(v) : null) == (((m & 1) != 0 ? x : 7) + 10 * ((m & 2) != 0 ? x : 7) + 100 * ((m & 4) != 0 ? 3 : 7) ^ ((m & 8) != 0 ? v : 0)));
    }
}
