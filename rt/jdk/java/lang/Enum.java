package java.lang;
public abstract class Enum<E extends Enum<E>> { private final String name; private final int ordinal; protected Enum(String n, int o) { name = n; ordinal = o; } public final String name() { return name; } public final int ordinal() { return ordinal; } public String toString() { return name; }
  public static <T extends Enum<T>> T valueOf(Class<T> c, String n) { throw new IllegalArgumentException(); } }
