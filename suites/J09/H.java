package com.example.rust;
import vp.V;
import java.util.Optional;
import java.util.OptionalInt;
import java.util.OptionalLong;
import java.util.OptionalDouble;
class Bang extends RuntimeException { }
class H {
    static class E implements Ev {
        int calls; boolean boom; int boomAt = -1; long ret;
        void hit() { int c = calls++; if (boom || c == boomAt) throw new Bang(); }
        public void onText(String s) { V.chk(s != null); hit(); }
        public void onItem(Item i) { V.chk(i.get() >= 0); i.delete(); hit(); }
        public void onOther(int a, Item_mNative o) { V.chk(o.get() == a); o.delete(); hit(); }
        public void onKind(Kind k, Mode m) { V.chk(k != null && m != null); hit(); }
        public void onBytes(byte[] a) { V.chk(a != null); hit(); }
        public void onItems(Item[] a) { for (int i = 0; i < a.length; i++) { V.chk(a[i].get() == i); a[i].delete(); } hit(); }
        public long onNum(long x) { hit(); return x ^ ret; }
    }
    static void optionals(int x, boolean some) {
        OptionalInt a = R.opt_int(x, some); V.chk(a.isPresent() == some); if (some) V.chk(a.getAsInt() == x);
        OptionalLong b = R.opt_long(x, some); V.chk(b.isPresent() == some); if (some) V.chk(b.getAsLong() == x);
        OptionalDouble c = R.opt_double(2.5, some); V.chk(c.isPresent() == some); if (some) V.chk(c.getAsDouble() == 2.5);
        Integer boxed = some ? Integer.valueOf(x) : null;
        V.chk(R.opt_sum(some ? Byte.valueOf((byte) 5) : null, null, boxed, some ? Long.valueOf(9) : null) == ((some ? 5 : 1) ^ 2 ^ (some ? (long) x : 3L) ^ (some ? 9 : 4)));
        V.chk(R.opt_sum(null, some ? Short.valueOf((short) 6) : null, null, null) == (1 ^ (some ? 6 : 2) ^ 3 ^ 4));
        V.chk(R.opt_fsum(some ? Float.valueOf(1f) : null, some ? null : Double.valueOf(2)) == (some ? 12.0 : 21.0));
    }
    static void h_optionals() { optionals(V.i32(), V.bool()); }
    static void strings(boolean some) {
        V.chk(R.join("ab", "c", 2).length() == 4); Optional<String> t = R.opt_text(some ? "x" : null, true); V.chk(t.isPresent() == some);
        V.chk(!R.opt_text("y", false).isPresent());
    }
    static void objects(int n) {
        int l = R.live(); Item[] a = R.items(n); V.chk(a.length == n && R.live() == l + n); V.chk(R.sum(a) == n * (n - 1) / 2); for (int i = 0; i < n; i++) { V.chk(a[i].get() == i); a[i].delete(); } V.chk(R.live() == l);
        Item_mNative[] o = R.others(n); for (int i = 0; i < n; i++) { V.chk(o[i].get() == i); o[i].delete(); }
        String[] s = R.texts(n); for (int i = 0; i < n; i++) V.chk(s[i].length() == (i % 2 == 0 ? 4 : 0));
    }
    static void h_objects() { objects(V.pick(4)); }
    // more elements than local references are guaranteed
    static void h_forty() { objects(40); }
    static void errors(int w, boolean ok) {
        int l = R.live(); boolean thrown = false; String m = null;
        try { switch (w) {
            case 0: { Item i = new Item(4); Item[] r = R.fail(new int[]{1, 2}, "msg", i, ok ? "o" : null, ok); V.chk(r.length == 3 && r[0].get() == 4 && r[1].get() == 2 && r[2].get() == 4); for (Item x : r) x.delete(); break; }
            case 1: { Optional<String> none = Optional.empty(); OptionalLong r = R.fail_opt(new long[]{7}, ok ? 0 : 2); V.chk(r.getAsLong() == 7); break; }
            case 2: V.chk(!R.fail_opt(new long[0], ok ? 1 : 2).isPresent()); break;
            case 3: V.chk(R.fail_text("same", ok).equals("same")); break;
        } } catch (Exception e) { thrown = true; m = e.getMessage(); }
        V.chk(thrown == !ok); if (thrown) V.chk(m.equals(w == 0 ? "msg" : w == 3 ? "text failed" : "opt failed")); V.chk(R.live() == l);
    }
    static void h_errors() { errors(V.pick(4), V.bool()); errors(V.pick(4), V.bool()); }
    static void h_arrays() {
        byte[] a = new byte[V.pick(3)], b = new byte[V.pick(3)]; for (int i = 0; i < a.length; i++) a[i] = V.i8(); for (int i = 0; i < b.length; i++) b[i] = V.i8();
        byte[] r = R.bytes(a, V.bool() ? a : b); V.chk(r.length >= a.length); for (int i = 0; i < a.length; i++) V.chk(r[i] == a[i]);
    }
    static void h_same_array() { byte[] a = {1, V.i8()}; byte[] r = R.bytes(a, a); V.chk(r.length == 4 && r[1] == a[1] && r[3] == a[1]); String s = "xy"; V.chk(R.join(s, s, 1).equals("xyxy")); }
    static void h_callbacks() { E e = new E(); e.boom = V.bool(); int n = V.pick(8); R.fire(e, n); V.chk(e.calls == n); }
    // one callback throws, the following ones must still find an environment without a pending exception
    static void h_throw_at() { E e = new E(); e.boomAt = V.pick(7); R.fire(e, 6); V.chk(e.calls == 6); }
    // a call that makes more callbacks than local references are guaranteed
    static void h_callback_loop() { E e = new E(); e.boomAt = V.pick(3) * 10; R.fire(e, 60); V.chk(e.calls == 60); }
    static void h_callback_items() { E e = new E(); R.fire_many_items(e, 12, 3); V.chk(e.calls == 12); R.fire_many_items(e, 1, 30); V.chk(e.calls == 13); }
    static void h_detached() { E e = new E(); e.boomAt = V.pick(6); int n = V.pick(6); R.fire_detached(e, n); V.chk(e.calls == n); R.fire(e, 2); V.chk(e.calls == n + 2); }
    static void h_detached_loop() { E e = new E(); R.fire_detached(e, 40); V.chk(e.calls == 40); }
    static void h_one() { E e = new E(); e.ret = V.i64(); long x = V.i64(); int w = V.pick(7); V.chk(R.fire_one(e, w, x) == (x ^ e.ret)); V.chk(e.calls == (w < 6 ? 2 : 1)); }
    static void h_two() { E a = new E(), b = V.bool() ? a : new E(); a.boomAt = V.pick(5); b.ret = V.i64(); long x = V.i64(); long r = R.fire_two(a, b, x); V.chk(a.calls + b.calls == (a == b ? 10 : 5)); if (a != b) V.chk(r == (x ^ b.ret)); }
    static void h_error_after_callback() {
        E e = new E(); e.boomAt = V.pick(4); boolean ok = V.bool(), thrown = false; String r = null;
        try { r = R.fail_cb(e, "cb", ok); } catch (Bang b) { V.chk(false); } catch (Exception x) { thrown = true; }
        V.chk(e.calls == 3); V.chk(thrown == !ok); if (ok) V.chk(r.equals("cb"));
    }
    static void h_hub() {
        Hub h = new Hub(); E a = new E(), b = new E(); h.add(a); boolean ok = V.bool(), thrown = false; int n = 0;
        try { n = h.try_add(b, ok); } catch (Exception e) { thrown = true; } V.chk(thrown == !ok); if (ok) V.chk(n == 2);
        h.fire(5); V.chk(a.calls == 5 && b.calls == (ok ? 5 : 0));
        switch (V.pick(4)) { case 0: h.clear(); break; case 1: h.remove(0); h.fire(1); V.chk(a.calls == 5); break; case 2: h.delete(); h.delete(); break; default: V.gc(h); }
    }
    static void h_many_calls() { for (int i = 0; i < 30; i++) { V.chk(R.join("a", "b", 1).equals("ab")); errors(i % 4, i % 2 == 0); } }
    static void pass(int x, boolean b) {
        optionals(x, b); strings(b); objects(2); errors(0, b); errors(3, !b); E e = new E(); e.boom = b; R.fire(e, 5); R.fire_detached(e, 4); R.fire_one(e, 5, 1); V.chk(e.calls == 11);
        Item i = R.opt_item(new Item(3), true).get(); V.chk(i.get() == 3); i.delete(); V.chk(!R.opt_item(null, true).isPresent());
    }
    // the library is unloaded and loaded again before, between and after uses
    static void h_cycles() { int x = V.i32(); boolean b = V.bool(); if (V.bool()) V.reload(); pass(x, b); V.reload(); pass(x, !b); V.reload(); V.reload(); objects(1); }
    static void h_history() {
        Hub h = new Hub(); E a = new E(); a.boomAt = V.pick(3); int reg = 0, fired = 0;
        for (int s = 0; s < 3; s++) switch (V.pick(8)) {
            case 0: h.add(a); reg++; break;
            case 1: if (reg > 0) { h.remove(0); reg--; } break;
            case 2: h.fire(3); fired += 3 * reg; break;
            case 3: errors(s, V.bool()); break;
            case 4: h.delete(); V.reload(); h = new Hub(); reg = 0; break;
            case 5: R.fire_detached(a, 2); fired += 2; break;
            case 6: { boolean ok = V.bool(); try { h.try_add(a, ok); reg++; } catch (Exception e) { V.chk(!ok); } break; }
            case 7: h.clear(); reg = 0; break;
        }
        V.chk(a.calls == fired); int l = R.live(); V.chk(l == 0);
    }
}
