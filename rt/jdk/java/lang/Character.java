package java.lang;
public final class Character { private final char value; public Character(char v) { value = v; } public static Character valueOf(char v) { return new Character(v); } public char charValue() { return value; } }
