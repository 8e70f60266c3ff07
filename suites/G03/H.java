package com.example.rust;
import vp.V;
class H {
    static void h_api() { int v = V.i32(), x = V.i32(); Doc d = new Doc(v); V.chk(d.get() == v); d.add(x); V.chk(d.get() == v + x); V.chk(d.neg() == -(v + x));
        V.chk(Doc.twice(x) == 2 * x); V.chk(Doc.thrice(x) == 3 * x); V.chk(Stat.a(x) == 2 * x); V.chk(Stat.b(x) == 3 * x); d.delete(); }
    static void h_level() { Level[] l = { Level.LOW, Level.MID, Level.HIGH }; int k = V.pick(3); V.chk(Doc.flip(l[k]) == l[2 - k]); }
    static class Sk implements Sink { public int first(int x) { return x; } public int second(int x) { return x * 5; } }
    static void h_sink() { int x = V.i32(); V.chk(Doc.ask(new Sk(), x) == x - x * 5); }
}
