package java.util;
public class Date { private long t; public Date(long x) { t = x; } public long getTime() { return t; } }
