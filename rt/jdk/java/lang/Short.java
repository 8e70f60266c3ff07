package java.lang;
public final class Short extends Number { private final short value; public Short(short v) { value = v; } public static Short valueOf(short v) { return new Short(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Short && ((Short)o).value == value; } }
