package java.lang;
public final class Boolean { private final boolean value; public Boolean(boolean v) { value = v; } public static Boolean valueOf(boolean v) { return new Boolean(v); } public boolean booleanValue() { return value; } public boolean equals(Object o) { return o instanceof Boolean && ((Boolean)o).value == value; } }
