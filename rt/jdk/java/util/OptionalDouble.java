package java.util;
public final class OptionalDouble { private final boolean present; private final double value; private OptionalDouble(boolean p, double v) { present = p; value = v; } public static OptionalDouble empty() { return new OptionalDouble(false, 0); } public static OptionalDouble of(double v) { return new OptionalDouble(true, v); } public double getAsDouble() { if (!present) throw new NoSuchElementException(); return value; } public boolean isPresent() { return present; } public boolean isEmpty() { return !present; } }
