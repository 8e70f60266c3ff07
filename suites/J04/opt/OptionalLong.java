package my_opt.x1;
public final class OptionalLong { private final boolean present; private final long value; private OptionalLong(boolean p, long v) { present = p; value = v; } public static OptionalLong empty() { return new OptionalLong(false, 0); } public static OptionalLong of(long v) { return new OptionalLong(true, v); } public long getAsLong() { if (!present) throw new java.util.NoSuchElementException(); return value; } public boolean isPresent() { return present; } public boolean isEmpty() { return !present; } }
