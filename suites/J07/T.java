package com.example.rust;
import vp.V;
class T {
    static Kind kind(int n) { return H.kind(n); }
    static Code code(int n) { return H.code(n); }
    static void h_t_distinct() { int i = V.pick(H.BIG), j = V.pick(H.BIG); V.assume(i < j); V.chk(En.big_of(i) != En.big_of(j)); V.chk(H.big(i).getValue() != H.big(j).getValue()); }
    static void h_t_positions() {
        int a = V.pick(3), c = V.pick(4), d = V.pick(4), g = V.pick(5), h = V.pick(3); boolean f = V.bool(), e = V.bool(); int b = V.i32();
        long r = En.pos(kind(a), b, code(c), d < 3 ? kind(d) : null, e ? 1.5 : -1.5, f ? Two.YES : Two.NO, g < 4 ? code(g) : null, big(h * 30), One.ONLY);
        long x = a + 10L * c + 100L * (d < 3 ? d + 5 : 0) + (f ? 1000 : 0) + 10000L * (g < 4 ? g + 5 : 0) + 100000L * (h * 30) + 770000000L + 1000000000L * b + (e ? 500000000 : 0);
        V.chk(r == x);
    }
    static void h_t_cell() {
        int k = V.pick(3), c = V.pick(5); Cell cell = new Cell(kind(k), c < 4 ? code(c) : null); V.chk(cell.kind() == kind(k)); V.chk(cell.code().isPresent() == (c < 4)); if (c < 4) V.chk(cell.code().get() == code(c));
        for (int i = 0; i < 3; i++) switch (V.pick(3)) {
            case 0: { int n = V.pick(3); V.chk(cell.set(kind(n)) == kind(k)); k = n; V.chk(cell.kind() == kind(k)); break; }
            case 1: cell.next(); k = k == 2 ? 0 : k + 1; V.chk(cell.kind() == kind(k)); break;
            case 2: { int n = V.pick(5); cell.set_code(n < 4 ? code(n) : null); V.chk(cell.code().isPresent() == (n < 4)); if (n < 4) V.chk(cell.code().get() == code(n)); break; }
        }
        cell.delete();
    }
}
