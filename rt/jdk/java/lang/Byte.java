package java.lang;
public final class Byte extends Number { private final byte value; public Byte(byte v) { value = v; } public static Byte valueOf(byte v) { return new Byte(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Byte && ((Byte)o).value == value; } }
