package java.util;
public final class OptionalInt { private final boolean present; private final int value; private OptionalInt(boolean p, int v) { present = p; value = v; } public static OptionalInt empty() { return new OptionalInt(false, 0); } public static OptionalInt of(int v) { return new OptionalInt(true, v); } public int getAsInt() { if (!present) throw new NoSuchElementException(); return value; } public boolean isPresent() { return present; } public boolean isEmpty() { return !present; } }
