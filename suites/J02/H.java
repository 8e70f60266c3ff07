package com.example.rust;
import vp.V;
class H {
    static boolean hi(char c) { return c >= 0xd800 && c <= 0xdbff; }
    static boolean lo(char c) { return c >= 0xdc00 && c <= 0xdfff; }
    /** no unpaired surrogate */
    static boolean valid(String s) {
        int i = 0, n = s.length();
        while (i < n) {
            char c = s.charAt(i);
            if (hi(c)) { if (i + 1 >= n || !lo(s.charAt(i + 1))) return false; i += 2; }
            else if (lo(c)) return false;
            else i++;
        }
        return true;
    }
    static int scalar(String s, int k) {
        int i = 0, n = s.length();
        while (i < n) {
            char c = s.charAt(i);
            int v = c, w = 1;
            if (hi(c)) { v = 0x10000 + ((c - 0xd800) << 10) + (s.charAt(i + 1) - 0xdc00); w = 2; }
            if (k == 0) return v;
            k--; i += w;
        }
        return -1;
    }
    static int utf8(String s) {
        int n = 0;
        for (int i = 0; scalar(s, i) >= 0; i++) { int c = scalar(s, i); n += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
        return n;
    }
    static String text(int max) { String s = V.str(V.pick(max + 1)); V.assume(valid(s)); return s; }
    static boolean eq(String a, String b) { return a != null && a.equals(b); }
    static void h_in_len() { String s = text(2); V.chk(Text.units(s) == s.length()); V.chk(Text.bytes(s) == utf8(s)); }
    static void h_in_scalars() { String s = text(2); V.chk(Text.scalar_at(s, 0) == scalar(s, 0)); V.chk(Text.scalar_at(s, 1) == scalar(s, 1)); }
    static void h_in_ascii() {
        int n = V.pick(5); String s = V.str(n);
        for (int i = 0; i < n; i++) V.assume(s.charAt(i) < 0x80);
        V.chk(Text.bytes(s) == n);
        for (int i = 0; i < n; i++) V.chk(Text.byte_at(s, i) == s.charAt(i));
        V.chk(eq(Text.echo(s), s));
    }
    static void h_echo() { String s = text(2); String r = Text.echo(s); V.chk(eq(r, s)); V.chk(eq(s, r)); }
    static void h_out_one() {
        int c = V.i32(); V.assume(c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff));
        String r = Text.one(c);
        if (c < 0x10000) { V.chk(r.length() == 1); V.chk(r.charAt(0) == c); }
        else { V.chk(r.length() == 2); V.chk(r.charAt(0) == 0xd800 + ((c - 0x10000) >> 10)); V.chk(r.charAt(1) == 0xdc00 + (c & 0x3ff)); }
    }
    static void h_out_two() {
        int a = V.i32(), b = V.i32(); V.assume(a >= 0 && a <= 0x10ffff && !(a >= 0xd800 && a <= 0xdfff)); V.assume(b >= 0 && b <= 0x10ffff && !(b >= 0xd800 && b <= 0xdfff));
        String r = Text.two(a, b);
        V.chk(r.length() == (a < 0x10000 ? 1 : 2) + (b < 0x10000 ? 1 : 2)); V.chk(scalar(r, 0) == a); V.chk(scalar(r, 1) == b);
    }
    static void h_fixed() {
        String r = Text.fixed();
        V.chk(r.length() == 12);
        V.chk(r.charAt(0) == 'a' && r.charAt(1) == 0 && r.charAt(2) == 0x7f && r.charAt(3) == 0x80 && r.charAt(4) == 0x7ff && r.charAt(5) == 0x800 && r.charAt(6) == 0xffff);
        V.chk(scalar(r, 7) == 0x10000 && scalar(r, 8) == 0x10ffff && r.charAt(11) == 'z');
        V.chk(eq(Text.empty(), "")); V.chk(Text.units("") == 0); V.chk(eq(Text.echo(""), "")); V.chk(eq(Text.echo(r), r)); V.chk(Text.bytes(r) == 22);
    }
    static void h_cat() {
        String a = text(1), b = text(1); String r = Text.cat(a, b);
        V.chk(r.length() == a.length() + b.length());
        for (int i = 0; i < r.length(); i++) V.chk(r.charAt(i) == (i < a.length() ? a.charAt(i) : b.charAt(i - a.length())));
        V.chk(Text.same(a, b) == eq(a, b));
    }
    static void h_path() { String s = text(2); V.chk(Text.path_units(s) == s.length()); V.chk(eq(Text.path_text(s), s)); }
    static void h_object() {
        String a = text(2), b = text(1);
        Text t = new Text(a);
        V.chk(eq(t.get(), a)); V.chk(eq(t.view(), a));
        t.set(b); V.chk(eq(t.view(), b)); V.chk(t.is(b)); V.chk(t.is(a) == eq(a, b));
        t.set_path(a); V.chk(eq(t.get(), a));
    }
    static void h_push() {
        String a = text(1), b = text(1); int n = V.pick(2);
        Text t = new Text(a, n, b);
        V.chk(eq(t.get(), a.concat(n == 1 ? "-" : "").concat(b)));
        V.chk(t.push("x\u00e9") == utf8(a) + utf8(b) + n + 3);
        V.chk(eq(t.view(), a.concat(n == 1 ? "-" : "").concat(b).concat("x\u00e9")));
    }
    static void h_many() {          // buffers do not accumulate, earlier results stay intact
        String s = text(1); String r = Text.echo(s);
        for (int i = 0; i < 5; i++) { V.chk(Text.units(s) == s.length()); V.chk(eq(Text.cat(s, "k"), s.concat("k"))); }
        V.chk(eq(r, s));
    }
    // texts far longer than the other scenarios, an arbitrary unit in the middle
    static void h_huge() {
        int k = V.pick(2), n = k == 0 ? 65 : 300; String u = "0123456789abcdef"; String s = "";
        while (s.length() + 16 <= n / 2) s = s.concat(u);
        String m = V.str(1); V.assume(m.charAt(0) < 0xd800 || m.charAt(0) > 0xdfff); s = s.concat(m); while (s.length() + 16 <= n) s = s.concat(u); while (s.length() < n) s = s.concat("\u00e9");
        V.chk(Text.units(s) == n); String r = Text.echo(s); V.chk(eq(r, s));
        Text t = new Text(s); V.chk(eq(t.view(), s));
        r = Text.cat(s, s); V.chk(r.length() == 2 * s.length()); V.chk(eq(r, s.concat(s)));
    }
    static void h_huge_fixed() {
        String u = "0123456789abc\u20ac\ud83d\ude00", s = u; for (int i = 0; i < 6; i++) s = s.concat(s); V.chk(s.length() == 1024);
        V.chk(Text.units(s) == 1024); V.chk(Text.bytes(s) == 64 * 20); String r = Text.echo(s); V.chk(r.length() == 1024); for (int i = 0; i < 1024; i++) V.chk(r.charAt(i) == u.charAt(i % 16));
        Text t = new Text(s); r = t.view(); V.chk(r.length() == 1024 && r.charAt(1023) == 0xde00 && r.charAt(1008) == '0'); V.chk(t.is(s)); V.chk(Text.path_units(s) == 1024);
    }
}
