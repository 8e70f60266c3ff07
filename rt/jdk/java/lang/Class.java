package java.lang;
public final class Class<T> { public boolean desiredAssertionStatus() { return false; } }
