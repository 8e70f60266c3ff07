package java.lang;
public final class Long extends Number { private final long value; public Long(long v) { value = v; } public static Long valueOf(long v) { return new Long(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Long && ((Long)o).value == value; } public static final long MAX_VALUE = 0x7fffffffffffffffL; public static final long MIN_VALUE = 0x8000000000000000L; }
