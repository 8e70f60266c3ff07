package com.example.rust;
import vp.V;
class T {
    static void h_err_long() { String s = V.str(V.pick(2) + 3); for (int i = 0; i < s.length(); i++) V.assume(s.charAt(i) < 0x800);
        boolean t = false; try { Opt.fail_with(s); } catch (Exception e) { t = true; V.chk(s.equals(e.getMessage())); } V.chk(t); }
    static void h_echo_long() { String s = V.str(V.pick(2) + 3); for (int i = 0; i < s.length(); i++) V.assume(s.charAt(i) < 0x800); V.chk(Opt.echo_opt(s).get().equals(s)); }
    static void h_sequence() {       // values and errors in any order
        for (int i = 0; i < 4; i++) { int x = V.i32(); boolean ok = V.bool(); boolean t = false;
            try { V.chk(Opt.res_i32(x, ok) == x); } catch (Exception e) { t = true; V.chk("bad value".equals(e.getMessage())); } V.chk(t == !ok);
            java.util.OptionalInt o = Opt.some_i32(x, !ok); V.chk(o.isPresent() == !ok); if (!ok) V.chk(o.getAsInt() == x); }
    }
}
