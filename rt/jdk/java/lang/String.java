package java.lang;
public final class String { public native int length(); public native char charAt(int i); public native boolean equals(Object o); public native String concat(String s); public boolean isEmpty() { return length() == 0; } public String toString() { return this; }
  public static String valueOf(Object o) { return o == null ? "null" : o.toString(); } public static String valueOf(int x) { return "#"; } public static String valueOf(long x) { return "#"; } }
