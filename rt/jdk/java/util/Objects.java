package java.util;
public final class Objects { public static <T> T requireNonNull(T o) { if (o == null) throw new NullPointerException(); return o; } public static boolean equals(Object a, Object b) { return a == b || (a != null && a.equals(b)); } }
