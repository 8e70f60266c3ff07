package com.example.rust;
import vp.V;
class T {
    static void h_echo3() { String s = H.text(3); String r = Text.echo(s); V.chk(H.eq(r, s)); }
    static void h_echo4() { int n = V.pick(2) + 3; String s = V.str(n); for (int i = 0; i < n; i++) V.assume(s.charAt(i) < 0x800); V.chk(H.eq(Text.echo(s), s)); V.chk(Text.bytes(s) == H.utf8(s)); }
    static void h_path3() { String s = H.text(3); V.chk(H.eq(Text.path_text(s), s)); }
    static void h_object3() { String a = H.text(3); Text t = new Text(""); t.set(a); V.chk(H.eq(t.view(), a)); V.chk(t.is(a)); }
}
