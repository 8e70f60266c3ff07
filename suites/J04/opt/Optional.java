package my_opt.x1;
public final class Optional<T> { private final T value; private Optional(T v) { value = v; } public static <T> Optional<T> empty() { return new Optional<T>(null); } public static <T> Optional<T> of(T v) { if (v == null) throw new NullPointerException(); return new Optional<T>(v); } public static <T> Optional<T> ofNullable(T v) { return new Optional<T>(v); } public T get() { if (value == null) throw new java.util.NoSuchElementException(); return value; } public boolean isPresent() { return value != null; } public boolean isEmpty() { return value == null; } public T orElse(T o) { return value == null ? o : value; } }
