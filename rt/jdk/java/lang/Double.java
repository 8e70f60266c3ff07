package java.lang;
public final class Double extends Number { private final double value; public Double(double v) { value = v; } public static Double valueOf(double v) { return new Double(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Double && Double.doubleToRawLongBits(((Double)o).value) == Double.doubleToRawLongBits(value); } public static native long doubleToRawLongBits(double f); public static native double longBitsToDouble(long x); }
