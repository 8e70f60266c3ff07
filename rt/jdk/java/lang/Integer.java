package java.lang;
public final class Integer extends Number { private final int value; public Integer(int v) { value = v; } public static Integer valueOf(int v) { return new Integer(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Integer && ((Integer)o).value == value; } public static final int MAX_VALUE = 0x7fffffff; public static final int MIN_VALUE = 0x80000000; }
