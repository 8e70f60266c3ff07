package com.example.rust;
import vp.V;
class H {
    static void gone(int n) { V.chk(Use.dropped(n) == 1); }
    static void alive(int n) { V.chk(Use.dropped(n) == 0); }
    static void h_delete() {
        long v = V.i64(); Cell c = new Cell(v); int n = c.num(); V.chk(c.get() == v); alive(n);
        for (int i = 0; i < 3; i++) if (V.bool()) c.delete(); else V.gc(c);
        gone(n); V.chk(c.mNativeObj == 0); V.chk(Use.made() == 1);
    }
    static void h_left() { Cell c = new Cell(V.i64()); Cell d = c.dup(); V.chk(c.num() != d.num()); if (V.bool()) c.delete(); if (V.bool()) V.gc(d); }
    static void h_two() {
        long x = V.i64(), y = V.i64(); Cell a = new Cell(x), b = new Cell(y); int na = a.num(), nb = b.num(); V.chk(na != nb);
        a.swap(b); V.chk(a.get() == y && b.get() == x); long k = V.i64(); a.set(k); V.chk(a.get() == k && b.get() == x);
        V.chk(a.same(a) && !a.same(b) && b.same(b)); V.chk(Use.pair_sum(a, b) == k + x); V.chk(Use.pair_sum(b, b) == x + x);
        a.delete(); gone(na); alive(nb); V.chk(b.get() == x); b.delete(); gone(nb);
    }
    static void h_consume() {
        long v = V.i64(); Cell c = new Cell(v); int n = c.num(); V.chk(Use.peek(c) == v); alive(n); long w = V.i64(); Use.poke(c, w); V.chk(c.get() == w); alive(n);
        V.chk(Use.consume(c) == w); gone(n); V.chk(c.mNativeObj == 0); for (int i = 0; i < 2; i++) if (V.bool()) c.delete(); else V.gc(c); gone(n);
    }
    static void h_back() {
        long v = V.i64(); Cell c = new Cell(v); int n = c.num(); Cell d = Use.back(c); V.chk(d != c); V.chk(d.num() == n && d.get() == v); alive(n);
        if (V.bool()) { c.delete(); V.gc(c); } alive(n); V.chk(d.get() == v); d.delete(); gone(n); V.gc(c); V.gc(d); gone(n); V.chk(Use.made() == 1);
    }
    static void h_absorb() {
        long x = V.i64(), y = V.i64(); Cell a = new Cell(x), b = new Cell(y); int nb = b.num(), na = a.num(); V.chk(a.absorb(b) == x); V.chk(a.get() == (x ^ y)); gone(nb); alive(na);
        if (V.bool()) { V.gc(b); b.delete(); } Cell c = a.split(y); V.chk(c.get() == y && a.get() == (x ^ y) - y); V.chk(c.num() == 2); a.delete(); V.chk(c.get() == y); gone(na); alive(2);
    }
    static void h_join() {
        long x = V.i64(), y = V.i64(); Cell a = new Cell(x), b = new Cell(y); Cell c = new Cell(a, b); V.chk(c.get() == x * 31 + y); V.chk(c.num() == 2); gone(0); gone(1); alive(2); a.delete(); V.gc(b); alive(2);
    }
    static void h_result() throws Exception {
        long k = V.i64(); Cell a = new Cell(5); Cell b = null; boolean thrown = false;
        try { b = a.try_split(k); } catch (Exception e) { thrown = true; }
        V.chk(thrown == (k < 0)); V.chk(Use.made() == (thrown ? 1 : 2)); V.chk(thrown ? a.get() == 5 : (b.get() == k && a.get() == 5 - k));
        boolean ok = V.bool(); int n = a.num(); long r = 0; thrown = false; long v = a.get();
        try { r = Use.reject(a, ok); } catch (Exception e) { thrown = true; }
        V.chk(thrown == !ok); if (ok) V.chk(r == v); gone(n); V.chk(a.mNativeObj == 0); a.delete(); V.gc(a); gone(n);
    }
    static void h_failing_constructor() throws Exception {
        boolean ok = V.bool(); long v = V.i64(); Tc c = null; boolean thrown = false;
        try { c = new Tc(v, ok); } catch (Exception e) { thrown = true; }
        V.chk(thrown == !ok); if (ok) { V.chk(c.get() == v); alive(0); c.delete(); } gone(0);
        Cell d = new Cell(v); ok = V.bool(); thrown = false; c = null;
        try { c = new Tc(d, ok, 0); } catch (Exception e) { thrown = true; }
        V.chk(thrown == !ok); gone(1); if (ok) V.chk(c.get() == v && c.num() == 2); if (V.bool()) d.delete(); V.chk(d.mNativeObj == 0);
    }
    static void h_mixed() {
        long x = V.i64(), y = V.i64(), z = V.i64(), k = V.i64(); Cell a = new Cell(x), b = new Cell(y), c = new Cell(z);
        V.chk(Use.mixed(a, b, c, k) == (x ^ y) + k); V.chk(c.get() == (x ^ y)); gone(1); alive(0); alive(2); V.chk(a.get() == x); b.delete(); V.gc(b);
        V.chk(Use.fence3(a, k, c, "abc", a) == x + k * (x ^ y) - x + 3);
    }
    static void h_opt() {
        long x = V.i64(); V.assume(x != -1); Cell a = V.bool() ? new Cell(x) : null; V.chk(Use.opt_peek(a) == (a == null ? -1 : x)); if (a != null) { V.chk(a.get() == x); alive(0); }
        V.chk(Use.opt_take(a) == (a == null ? -1 : x)); if (a != null) { gone(0); V.chk(a.mNativeObj == 0); a.delete(); V.gc(a); gone(0); }
    }
    static void h_history() { history(3); }
    static void history(int steps) {
        Cell[] o = new Cell[3]; int[] num = new int[3]; long[] val = new long[3]; int made = 0; boolean[] dead = new boolean[16];
        for (int st = 0; st < steps; st++) {
            int i = st == 0 ? 0 : V.pick(2);
            switch (V.pick(6)) {
                case 0: o[i] = new Cell(st * 7); num[i] = made++; val[i] = st * 7; break;
                case 1: if (o[i] != null) { if (o[i].mNativeObj != 0) dead[num[i]] = true; o[i].delete(); } break;
                case 2: if (o[i] != null) { if (o[i].mNativeObj != 0) dead[num[i]] = true; V.gc(o[i]); o[i] = null; } break;
                case 3: if (o[i] != null && o[i].mNativeObj != 0) { V.chk(Use.consume(o[i]) == val[i]); dead[num[i]] = true; } break;
                case 4: if (o[i] != null && o[i].mNativeObj != 0) { o[1 - i] = Use.back(o[i]); num[1 - i] = num[i]; val[1 - i] = val[i]; } break;
                default: if (o[i] != null && o[i].mNativeObj != 0 && o[1 - i] != null && o[1 - i].mNativeObj != 0) { V.chk(o[i].absorb(o[1 - i]) == val[i]); val[i] ^= val[1 - i]; dead[num[1 - i]] = true; } break;
            }
            for (int k = 0; k < 2; k++) if (o[k] != null && o[k].mNativeObj != 0) { V.chk(o[k].get() == val[k]); V.chk(o[k].num() == num[k]); }
            for (int k = 0; k < made; k++) V.chk(Use.dropped(k) <= (dead[k] ? 1 : 0) && (!dead[k] || Use.dropped(k) == 1));
        }
    }
    static void h_shared() {
        long v = V.i64(), k = V.i64(); Sh a = new Sh(v); Keep p = new Keep(); int n = a.num(); p.put(a); V.chk(a.mNativeObj == 0); alive(n);
        Sh b = p.at(0), c = p.at(0); V.chk(b != c && b.num() == n && c.num() == n); V.chk(b.add(k) == v + k); V.chk(c.get() == v + k); Use.sh_inc(c, 3); V.chk(b.get() == v + k + 3 && Use.sh_get(b) == v + k + 3);
        Sh d = Use.sh_same(b); V.chk(b.mNativeObj == 0 && d.num() == n); a.delete(); b.delete(); alive(n);
        Sh[] all = p.all(); V.chk(all.length == 1 && all[0].get() == v + k + 3);
        int m = V.pick(4);
        for (int i = 0; i < 4; i++) { switch ((i + m) % 4) { case 0: c.delete(); break; case 1: d.delete(); break; case 2: p.delete(); break; default: all[0].delete(); break; } if (i < 3) alive(n); else gone(n); }
    }
    static void h_shared_count() {
        Sh a = new Sh(1); Keep p = new Keep(); int n = a.num(), k = V.pick(3); p.put(a); Sh[] s = new Sh[3]; for (int i = 0; i < k; i++) s[i] = p.at(0);
        java.util.Optional<Sh> o = p.pop(); V.chk(o.isPresent()); V.chk(!p.pop().isPresent()); alive(n); V.chk(Use.sh_drop(o.get()) == k + 1); if (k == 0) gone(n); else alive(n);
        for (int i = 0; i < k; i++) { alive(n); if (V.bool()) s[i].delete(); else V.gc(s[i]); } gone(n); V.chk(Use.dropped(p.num()) == 0); p.delete(); gone(1);
    }
    static void h_shared_array() {
        long x = V.i64(), y = V.i64(); Sh a = new Sh(x), b = new Sh(y); Sh[] v = V.bool() ? new Sh[] { a, b } : new Sh[] { a, b, a }; long e = x * 3 + y; if (v.length == 3) e = e * 3 + x;
        V.chk(Use.sh_sum(v) == e); V.chk(a.get() == x && b.get() == y); alive(a.num()); alive(b.num()); int n = a.num(); a.delete(); gone(n); V.chk(b.get() == y);
        Sh c = b.sh_dup(); V.chk(c.num() != b.num() && c.get() == y); c.add(1); V.chk(b.get() == y && c.get() == y + 1);
    }
    static void h_rc() {
        long v = V.i64(), w = V.i64(); Holder h = new Holder(v); Rr r = h.rr(), q = h.rr(); V.chk(r.get() == v && r.num() == 0 && q.num() == 0); r.set(w); V.chk(q.get() == w && h.val() == w); h.set(v); V.chk(q.get() == v);
        Rr o = new Rr(9); V.chk(Use.rr_two(q, o) == v + 1); V.chk(o.get() == v + 1 && r.get() == v);
        h.delete(); alive(0); r.delete(); alive(0); V.chk(q.get() == v); if (V.bool()) q.delete(); else V.gc(q); gone(0); alive(1);
    }
    static void h_smart() {
        long v = V.i64(), w = V.i64(); Sp a = new Sp(v); int n = a.num(); V.chk(Use.sp_count(a) == 2); V.chk(a.get() == v); Sp b = Use.sp_same(a); V.chk(b != a && b.num() == n && a.num() == n); V.chk(Use.sp_count(b) == 3);
        b.set(w); V.chk(a.get() == w); V.chk(Use.sp_swap(a, b) && Use.sp_swap(a, a)); Sp c = new Sp(v); V.chk(!Use.sp_swap(a, c)); V.chk(a.get() == v && b.get() == v && c.get() == w);
        boolean f = V.bool(); (f ? a : b).delete(); alive(n); V.chk((f ? b : a).get() == v); V.chk(Use.sp_count(f ? b : a) == 2); (f ? b : a).delete(); gone(n); a.delete(); b.delete(); gone(n); alive(c.num());
    }
    static void h_smart_opt() { long v = V.i64(); V.assume(v != -1); Sp a = new Sp(v); int n = a.num(); V.chk(Use.sp_opt(null) == -1); Sp b = Use.sp_same(a); V.chk(Use.sp_opt(b) == v); V.chk(a.get() == v); b.delete(); alive(n); a.delete(); gone(n); }
    static void h_copy() {
        int x = V.i32(), x2 = V.i32(); long y = V.i64(), y2 = V.i64(); Pt a = new Pt(x, y), b = new Pt(x2, y2); V.chk(Use.pt_sum(a, b) == y + y2 + x - x2); V.chk(a.x() == x && a.y() == y && b.x() == x2 && b.y() == y2); V.chk(Use.pt_sum(a, a) == y + y);
        Pt c = Use.pt_flip(a); V.chk(c.x() == (int) y && c.y() == x); V.chk(a.x() == x && a.y() == y); a.set_y(5); V.chk(a.y() == 5 && c.y() == x); Pt d = a.clone(); d.set_y(6); V.chk(a.y() == 5 && d.x() == x); a.delete(); V.chk(c.x() == (int) y && d.y() == 6); if (V.bool()) c.delete();
    }
    static void h_zst() { Zst a = new Zst(); V.chk(a.k() == 7); Zst b = new Zst(); if (V.bool()) V.chk(Use.zst_eat(a) == 7); else a.delete(); V.chk(Use.dropped(22) == 1); a.delete(); V.gc(a); V.chk(Use.dropped(22) == 1); V.chk(b.k() == 7); b.delete(); V.chk(Use.dropped(22) == 2); }
    static void h_arc() { int v = V.i32(); Ar a = new Ar(v); V.chk(a.get() == v); Ar b = Use.ar_share(a); V.chk(a.mNativeObj == 0 && b.num() == 0 && b.get() == v); if (V.bool()) a.delete(); alive(0); b.delete(); gone(0); }
    static void h_box() { int v = V.i32(); Bx a = new Bx(v); V.chk(a.get() == v && a.inc() == v + 1 && Use.bx_peek(a) == v + 1); alive(0); if (V.bool()) { V.chk(Use.bx_eat(a) == v + 1); V.chk(a.mNativeObj == 0); } else a.delete(); gone(0); V.gc(a); gone(0); }
    // classes whose objects only a factory function makes
    static void h_factory() {
        long x = V.i64(), y = V.i64(), z = V.i64(); Fm a = Use.fm_new(x), b = Use.fm_new(y); V.chk(a.num() == 0 && b.num() == 1 && a.get() == x && b.get() == y); V.chk(b.set(z) == y); V.chk(a.get() == x && b.get() == z);
        V.chk(Use.fm_two(a, b) == x - (z + 1)); alive(0); alive(1); V.chk(Use.fm_into(a) == (x ^ 1)); V.chk(a.mNativeObj == 0); gone(0); a.delete(); V.gc(a); gone(0); if (V.bool()) b.delete(); else V.gc(b); gone(1);
    }
    static void h_factory_maybe() {
        long x = V.i64(); Fm a = null; boolean thrown = false; if (V.bool()) { try { a = Use.fm_try(x); } catch (Exception e) { thrown = true; } V.chk(thrown == (x < 0)); } else { java.util.Optional<Fm> o = Use.fm_opt(x); V.chk(o.isPresent() == (x >= 0)); a = o.orElse(null); }
        V.chk((a != null) == (x >= 0)); V.chk(Use.made() == (x < 0 ? 0 : 1)); if (a != null) { V.chk(a.get() == x); alive(0); a.delete(); gone(0); }
    }
    static void h_factory_array() { long x = V.i64(), y = V.i64(); Fm[] v = Use.fm_all(x, y); V.chk(v.length == 2 && v[0].get() == x && v[1].get() == y && v[0].num() == 0 && v[1].num() == 1); v[0].delete(); gone(0); alive(1); V.chk(v[1].set(x) == y && v[1].get() == x); v[1].delete(); gone(1); }
    static void h_factory_shared() {
        long x = V.i64(), y = V.i64(); Fs a = Use.fs_new(x); Fs b = Use.fs_same(a); V.chk(a.mNativeObj == 0 && b.num() == 0 && b.get() == x); V.chk(b.set(y) == x && Use.fs_get(b) == y); alive(0); a.delete(); alive(0); if (V.bool()) b.delete(); else V.gc(b); gone(0);
    }
    static void h_old_spelling() { long x = V.i64(), y = V.i64(); Od a = new Od(x), b = new Od(y); V.chk(a.get() == x && b.num() == 1 && a.put(y) == x && a.get() == y && Od.minus(b, x) == y - x && b.twice() == y + y); alive(0); a.delete(); gone(0); alive(1); V.gc(b); gone(1); }
    // every argument form of one shared object: borrowed forms keep the Java object, owning forms consume it
    static void h_forms_mutex() {
        long x = V.i64(), y = V.i64(); Sh a = new Sh(x); Sh b = Use.sh_same(a); int n = b.num(); alive(n);
        V.chk(Use.sh_cell(y, b) == x); V.chk(b.get() == y && Use.sh_get(b) == y); alive(n); V.chk(b.mNativeObj != 0);
        Keep p = new Keep(); boolean keep = V.bool(); Sh c = b; if (keep) { p.put(b); c = p.at(0); }
        V.chk(Use.sh_ref(c) == (keep ? 2 : 1)); V.chk(c.mNativeObj == 0); if (keep) alive(n); else gone(n); c.delete(); V.gc(c); if (keep) { alive(n); p.delete(); } gone(n);
    }
    static void h_forms_refcell() {
        long x = V.i64(), y = V.i64(); Rr a = new Rr(x); int n = a.num(); V.chk(Use.rr_cell(y, a) == x); V.chk(Use.rr_get(a) == y && a.get() == y); alive(n);
        V.chk((V.bool() ? Use.rr_rc(a) - 1 : Use.rr_eat(a)) == y); V.chk(a.mNativeObj == 0); gone(n); a.delete(); V.gc(a); gone(n);
        Holder h = new Holder(x); Rr r = h.rr(), q = h.rr(); V.chk(Use.rr_rc(q) == x + 3); alive(1); V.chk(Use.rr_cell(y, r) == x && h.val() == y); Use.rr_eat(r); alive(1); h.delete(); gone(1);
    }
    static void h_forms_arc() {
        int x = V.i32(), y = V.i32(), k = V.i32(); Ar a = new Ar(x), b = new Ar(y); V.chk(Use.ar_get(a, k, b) == x - y + k && Use.ar_get(b, k, b) == k); alive(0); alive(1); V.chk(a.mNativeObj != 0 && b.mNativeObj != 0);
        V.chk(Use.ar_refs(b) == 1); V.chk(b.mNativeObj == 0); gone(1); alive(0); b.delete(); gone(1); V.chk(a.get() == x); a.delete(); gone(0);
    }
    static void h_forms_rc() {
        int x = V.i32(), y = V.i32(), k = V.i32(); Rq a = new Rq(x), b = new Rq(y); V.chk(Use.rq_get(a, k, b) == x - y + k); Rq c = Use.rq_same(a); V.chk(a.mNativeObj == 0 && c.num() == 0 && c.get() == x); alive(0); alive(1);
        V.chk((V.bool() ? Use.rq_rc(c) : Use.rq_eat(c)) == x + 1); V.chk(c.mNativeObj == 0); gone(0); c.delete(); V.gc(a); gone(0); alive(1); V.gc(b); gone(1);
    }
    static void h_temp_forms() {
        long x = V.i64(); Sh s = new Sh(x); V.temp(s); V.chk(Use.sh_cell(3, s) == x); Rr r = new Rr(x); V.temp(r); V.chk(Use.rr_cell(3, r) == x); Ar a = new Ar(5), b = new Ar(3); V.temp(a); V.temp(b); V.chk(Use.ar_get(a, 1, b) == 3); Rq c = new Rq(5), d = new Rq(3); V.temp(c); V.temp(d); V.chk(Use.rq_get(c, 1, d) == 3);
    }
    // objects nobody but the call in progress uses: they must not be finalized before the call is over
    static void h_temp_arg() {
        long x = V.i64(), y = V.i64(), z = V.i64(), k = V.i64(); Cell a = new Cell(x), b = new Cell(y), c = new Cell(z);
        if (V.bool()) V.temp(a); if (V.bool()) V.temp(b); if (V.bool()) V.temp(c);
        V.chk(Use.fence3(a, k, b, "xy", c) == x + k * y - z + 2); V.chk(Use.dropped(0) + Use.dropped(1) + Use.dropped(2) == 0);
    }
    static void h_temp_mut() { long x = V.i64(); Cell a = new Cell(x), b = new Cell(4), c = new Cell(5); V.temp(V.bool() ? a : c); V.chk(Use.mixed(a, b, c, 1) == (x ^ 4) + 1); }
    static void h_temp_method() { long x = V.i64(), y = V.i64(); Cell a = new Cell(x), b = new Cell(y); V.temp(b); if (V.bool()) { a.swap(b); V.chk(a.get() == y); } else V.chk(!a.same(b)); alive(1); }
    static void h_temp_opt() { long x = V.i64(); Cell a = new Cell(x); V.temp(a); V.chk(Use.opt_peek(a) == x); alive(0); }
    static void h_temp_ctor() { long x = V.i64(); Cell a = new Cell(x), b = new Cell(1); V.temp(a); V.temp(b); Cell c = new Cell(a, b); V.chk(c.get() == x * 31 + 1); gone(0); gone(1); }
    static void h_temp_shared() { long x = V.i64(); Sh s = new Sh(x); V.temp(s); V.chk(Use.sh_get(s) == x); Sp p = new Sp(x); V.temp(p); V.chk(Use.sp_count(p) == 2); Rr q = new Rr(x), r = new Rr(2); V.temp(q); V.temp(r); V.chk(Use.rr_two(q, r) == x + 1); }
    static void h_temp_copy() { long x = V.i64(); Pt p = new Pt(1, x), q = new Pt(2, 3); V.temp(p); V.temp(q); V.chk(Use.pt_sum(p, q) == x + 2); }
    static void h_ref_smart() { long x = V.i64(); Fs a = Use.fs_new(x); V.chk(Use.fs_ref(a) == 1); V.chk(a.get() == x); a.delete(); gone(0); }
    static void h_alias_consume() { long x = V.i64(); Holder a = new Holder(x), b = new Holder(~x); V.chk(Use.late(b, a) == ~x); Holder c = new Holder(x); V.chk(Use.late(c, c) == x); }
    static void h_temp_receiver() { long x = V.i64(); Cell a = new Cell(x); V.temp(a); V.chk(a.get() == x); }
}
