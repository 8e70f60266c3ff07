package java.lang;
public final class StringBuilder { private String s = ""; public StringBuilder() {} public StringBuilder(String x) { s = x; } public StringBuilder append(String x) { s = s.concat(x == null ? "null" : x); return this; } public StringBuilder append(Object x) { return append(String.valueOf(x)); } public StringBuilder append(int x) { return append("#"); } public StringBuilder append(long x) { return append("#"); } public StringBuilder append(char x) { return append("#"); } public StringBuilder append(boolean x) { return append("#"); } public StringBuilder append(double x) { return append("#"); } public StringBuilder append(float x) { return append("#"); } public String toString() { return s; } }
