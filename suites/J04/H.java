package com.example.rust;
import vp.V;
class H {
    static void h_i8() {
        byte x = V.i8(), d = V.i8(); boolean some = V.bool(); Byte b = some ? Byte.valueOf(x) : null;
        java.util.OptionalInt o = Opt.some_i8(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        V.chk(Opt.has_i8(b) == some); V.chk(Opt.val_i8(b, d) == (some ? x : d));
        o = Opt.echo_i8(b); V.chk(o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        if (some) V.chk(b.byteValue() == x);
    }
    static void h_i16() {
        short x = V.i16(), d = V.i16(); boolean some = V.bool(); Short b = some ? Short.valueOf(x) : null;
        java.util.OptionalInt o = Opt.some_i16(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        V.chk(Opt.has_i16(b) == some); V.chk(Opt.val_i16(b, d) == (some ? x : d));
        o = Opt.echo_i16(b); V.chk(o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        if (some) V.chk(b.shortValue() == x);
    }
    static void h_i32() {
        int x = V.i32(), d = V.i32(); boolean some = V.bool(); Integer b = some ? Integer.valueOf(x) : null;
        java.util.OptionalInt o = Opt.some_i32(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        V.chk(Opt.has_i32(b) == some); V.chk(Opt.val_i32(b, d) == (some ? x : d));
        o = Opt.echo_i32(b); V.chk(o.isPresent() == some); if (some) V.chk(o.getAsInt() == x);
        if (some) V.chk(b.intValue() == x);
    }
    static void h_i64() {
        long x = V.i64(), d = V.i64(); boolean some = V.bool(); Long b = some ? Long.valueOf(x) : null;
        java.util.OptionalLong o = Opt.some_i64(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(o.getAsLong() == x);
        V.chk(Opt.has_i64(b) == some); V.chk(Opt.val_i64(b, d) == (some ? x : d));
        o = Opt.echo_i64(b); V.chk(o.isPresent() == some); if (some) V.chk(o.getAsLong() == x);
        if (some) V.chk(b.longValue() == x);
    }
    static void h_f32() {
        float x = Float.intBitsToFloat(V.i32()), d = Float.intBitsToFloat(V.i32()); boolean some = V.bool(); Float b = some ? Float.valueOf(x) : null;
        java.util.OptionalDouble o = Opt.some_f32(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(same(o.getAsDouble(), x));
        V.chk(Opt.has_f32(b) == some); V.chk(same(Opt.val_f32(b, d), (some ? x : d)));
        o = Opt.echo_f32(b); V.chk(o.isPresent() == some); if (some) V.chk(same(o.getAsDouble(), x));
        if (some) V.chk(same(b.floatValue(), x));
    }
    static void h_f64() {
        double x = Double.longBitsToDouble(V.i64()), d = Double.longBitsToDouble(V.i64()); boolean some = V.bool(); Double b = some ? Double.valueOf(x) : null;
        java.util.OptionalDouble o = Opt.some_f64(x, some);
        V.chk(o != null && o.isPresent() == some); if (some) V.chk(same(o.getAsDouble(), x));
        V.chk(Opt.has_f64(b) == some); V.chk(same(Opt.val_f64(b, d), (some ? x : d)));
        o = Opt.echo_f64(b); V.chk(o.isPresent() == some); if (some) V.chk(same(o.getAsDouble(), x));
        if (some) V.chk(same(b.doubleValue(), x));
    }

    static boolean same(double a, double b) { return (a != a && b != b) || V.bits(a) == V.bits(b); }
    static void h_opt_object() {
        int x = V.i32(); boolean some = V.bool(); int l0 = Opt.live();
        java.util.Optional<Boxed> o = Opt.opt_box(x, some);
        V.chk(o.isPresent() == some); V.chk(Opt.live() == l0 + (some ? 1 : 0));
        if (some) { Boxed b = o.get(); V.chk(b.get() == x); V.chk(Opt.peek_opt(b) == x); V.chk(b.get() == x); V.chk(Opt.live() == l0 + 1); if (V.bool()) { V.chk(Opt.take_opt(b) == x); V.chk(Opt.live() == l0); V.gc(b); } else b.delete(); V.chk(Opt.live() == l0); b.delete(); V.chk(Opt.live() == l0); }
    }
    static void h_opt_in() {
        int x = V.i16(), y = V.i16(); boolean s = V.bool(), t = V.bool(); int l0 = Opt.live();
        Boxed a = new Boxed(x), b = new Boxed(y);
        V.chk(Opt.peek_opt(s ? a : null) == (s ? x : -1000));
        V.chk(Opt.peek_two(s ? a : null, t ? b : null) == (s ? x : -1000) * 10000L + (t ? y : -1000)); V.chk(Opt.peek_two(a, a) == x * 10000L + x);
        V.chk(a.get() == x && b.get() == y); V.chk(Opt.live() == l0 + 2);
        V.chk(Opt.take_two(s ? a : null, t ? b : null) == (s ? x : -1000) * 10000L + (t ? y : -1000));
        V.chk(Opt.live() == l0 + (s ? 0 : 1) + (t ? 0 : 1));
        if (!s) V.chk(a.get() == x); if (!t) V.chk(b.get() == y);
        a.delete(); b.delete(); V.gc(a); V.chk(Opt.live() == l0);
    }
    static void h_opt_string() {
        int n = V.pick(4); java.util.Optional<String> o = Opt.opt_str(n);
        V.chk(o.isPresent() == (n != 0));
        if (n == 1) V.chk(o.get().equals("")); if (n == 2) V.chk(o.get().equals("a\0\u00e9\ud83d\ude00")); if (n == 3) V.chk(o.get().equals("x"));
        V.chk(Opt.len_opt(null) == -1); V.chk(Opt.len_opt("") == 0); V.chk(Opt.len_opt("a\u00e9") == 3); V.chk(!Opt.echo_opt(null).isPresent()); V.chk(Opt.echo_opt("").get().equals(""));
    }
    static void h_opt_char() {
        int c = V.i32(); java.util.Optional<String> o = Opt.opt_char(c);
        boolean ok = c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff);
        V.chk(o.isPresent() == ok); if (ok) { String s = o.get(); V.chk(s.length() == (c < 0x10000 ? 1 : 2)); if (c < 0x10000) V.chk(s.charAt(0) == c); }
    }
    static void h_echo_string() {
        String s = V.str(V.pick(3)); for (int i = 0; i < s.length(); i++) V.assume(s.charAt(i) < 0xd800 || s.charAt(i) > 0xdfff);
        java.util.Optional<String> o = Opt.echo_opt(s); V.chk(o.isPresent() && o.get().equals(s));
    }
    static Kind kind(int n) { return n == 0 ? Kind.AA : n == 1 ? Kind.BB : n == 2 ? Kind.CC : null; }
    static void h_opt_enum() {
        int n = V.pick(4); Kind k = kind(n);
        V.chk(Opt.opt_kind_no(k) == (n == 3 ? -5 : (n + 1) * 10));
        java.util.Optional<Kind> o = Opt.opt_kind(n == 3 ? 9 : n);
        V.chk(o.isPresent() == (n != 3)); if (n != 3) V.chk(o.get() == k);
    }
    static void h_mixed() {
        int m = V.pick(64); int a = V.i16(), b = V.i16(), c = V.i16(); long d = V.i32(); int k = V.pick(3); String s = V.bool() ? "abc" : "";
        Boxed bb = new Boxed(b), cc = new Boxed(c); int l0 = Opt.live();
        long r = Opt.mixed((m & 1) != 0 ? Integer.valueOf(a) : null, (m & 2) != 0 ? s : null, (m & 4) != 0 ? bb : null, (m & 8) != 0 ? kind(k) : null, (m & 16) != 0 ? Long.valueOf(d) : null, (m & 32) != 0 ? cc : null);
        long x = ((m & 1) != 0 ? a : 0) ^ ((m & 2) != 0 ? s.length() : 0) ^ ((m & 4) != 0 ? b : 0) ^ ((m & 8) != 0 ? (k + 1) * 10 : 0) ^ ((m & 16) != 0 ? d : 0) ^ ((m & 32) != 0 ? c : 0);
        V.chk(r == (m | x << 6)); V.chk(bb.get() == b); V.chk(Opt.live() == l0 - ((m & 32) != 0 ? 1 : 0)); if ((m & 32) == 0) V.chk(cc.get() == c);
    }
    static void h_res_i32() { int x = V.i32(); boolean ok = V.bool(); try { int r = Opt.res_i32(x, ok); V.chk(ok && r == x); } catch (Exception e) { V.chk(!ok); V.chk(e.getClass() == Exception.class); V.chk("bad value".equals(e.getMessage())); } }
    static void h_res_i64() { long x = V.i64(); boolean ok = V.bool(); try { long r = Opt.res_i64(x, ok); V.chk(ok && r == x); } catch (Exception e) { V.chk(!ok); V.chk("static text".equals(e.getMessage())); } }
    static void h_res_small() {
        byte x = V.i8(); boolean ok = V.bool(), b = V.bool(); double d = V.f64(); int seen = 0;
        try { V.chk(Opt.res_i8(x, ok) == x); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "b".equals(e.getMessage())); }
        try { V.chk(Opt.res_bool(b, ok) == b); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "".equals(e.getMessage())); }
        try { V.chk(same(Opt.res_f64(d, ok), d)); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "no number".equals(e.getMessage())); }
        try { Opt.res_unit(ok); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "unit".equals(e.getMessage())); }
        try { Opt.res_unit_s(ok); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "unit s".equals(e.getMessage())); }
        try { V.chk(Opt.res_str("text\u00e9", ok).equals("text\u00e9")); V.chk(ok); seen++; } catch (Exception e) { V.chk(!ok && "failed str".equals(e.getMessage())); }
        try { String[] r = Opt.res_strs(ok); V.chk(ok && r.length == 2 && r[0].equals("p") && r[1].equals("q")); seen++; } catch (Exception e) { V.chk(!ok && "no strings".equals(e.getMessage())); }
        V.chk(seen == (ok ? 7 : 0));
    }
    static void h_res_enum() { int n = V.pick(4); try { Kind k = Opt.res_kind(n == 3 ? 9 : n); V.chk(n != 3 && k == kind(n)); } catch (Exception e) { V.chk(n == 3 && "no kind".equals(e.getMessage())); } }
    static void h_res_object() {
        int x = V.i32(); boolean ok = V.bool(); int l0 = Opt.live(); Boxed b = null;
        try { b = Opt.res_box(x, ok); V.chk(ok && b.get() == x); V.chk(Opt.live() == l0 + 1); } catch (Exception e) { V.chk(!ok && "dropped".equals(e.getMessage())); V.chk(b == null); V.chk(Opt.live() == l0); }
        if (b != null) { b.delete(); V.chk(Opt.live() == l0); }
    }
    static void h_res_opt() {
        int x = V.i32(), w = V.pick(3), l0 = Opt.live();
        try { java.util.Optional<Boxed> o = Opt.res_opt(x, w); V.chk(w != 2 && o.isPresent() == (w == 1)); if (w == 1) V.chk(o.get().get() == x); } catch (Exception e) { V.chk(w == 2 && "res opt".equals(e.getMessage())); }
        V.chk(Opt.live() == l0 + (w == 1 ? 1 : 0));
        try { java.util.OptionalInt o = Opt.res_opt_int(x, w); V.chk(w != 2 && o.isPresent() == (w == 1)); if (w == 1) V.chk(o.getAsInt() == x); } catch (Exception e) { V.chk(w == 2 && "res opt int".equals(e.getMessage())); }
    }
    static void h_err_text() {
        String s = V.str(V.pick(3)); for (int i = 0; i < s.length(); i++) V.assume(s.charAt(i) < 0xd800 || s.charAt(i) > 0xdfff);
        boolean t = false; try { Opt.fail_with(s); } catch (Exception e) { t = true; V.chk(s.equals(e.getMessage())); } V.chk(t);
    }
    static void h_err_char() {
        int c = V.i32(); V.assume(c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff));
        boolean t = false; try { Opt.fail_one(c); } catch (Exception e) { t = true; String s = e.getMessage(); V.chk(s.length() == (c < 0x10000 ? 1 : 2));
            if (c < 0x10000) V.chk(s.charAt(0) == c); else { V.chk(s.charAt(0) == 0xd800 + ((c - 0x10000) >> 10)); V.chk(s.charAt(1) == 0xdc00 + (c & 0x3ff)); } } V.chk(t);
    }
    static void h_err_fixed() {
        String[] w = { "", "a\u00e9\u0800\uffff", "\ud83d\ude00 supplementary", "nul \0 inside" };
        for (int i = 0; i < 4; i++) { boolean t = false; try { Opt.fail_fixed(i); } catch (Exception e) { t = true; V.chk(w[i].equals(e.getMessage())); } V.chk(t); }
    }
    static void h_gate() {
        int n = V.i32(), k = V.i32(), m = V.i32(); V.assume(k >= 0 && m >= 0); Gate g = null;
        try { g = new Gate(n); V.chk(n >= 0); } catch (Exception e) { V.chk(n < 0 && "negative gate".equals(e.getMessage())); }
        V.chk((g != null) == (n >= 0));
        if (g == null) return;
        int cur = n;
        try { V.chk(g.dec(k) == n - k); V.chk(k <= n); cur -= k; } catch (Exception e) { V.chk(k > n && "too much".equals(e.getMessage())); }
        V.chk(g.get() == cur);
        try { V.chk(g.dec(m) == cur - m); V.chk(m <= cur); cur -= m; } catch (Exception e) { V.chk(m > cur && "too much".equals(e.getMessage())); }
        V.chk(g.get() == cur);
        java.util.OptionalInt o = g.opt(k); V.chk(o.isPresent() == (k != cur)); if (o.isPresent()) V.chk(o.getAsInt() == cur);
        java.util.Optional<Boxed> b = g.boxed(m); V.chk(b.isPresent() == (m != cur)); if (b.isPresent()) V.chk(b.get().get() == cur);
    }
    static void h_err_long() {      // long messages
        int k = V.pick(3), n = k == 0 ? 64 : k == 1 ? 257 : 1030; String u = "0123456789abcde\u00e9", m = V.str(1), s = ""; V.assume(m.charAt(0) < 0xd800 || m.charAt(0) > 0xdfff);
        while (s.length() < n / 2) s = s.concat(u);
        s = s.concat(m); while (s.length() < n) s = s.concat(u);
        boolean t = false; try { Opt.fail_with(s); } catch (Exception e) { t = true; V.chk(s.equals(e.getMessage())); } V.chk(t);
    }
}
