package java.lang;
public final class Float extends Number { private final float value; public Float(float v) { value = v; } public static Float valueOf(float v) { return new Float(v); } public byte byteValue() { return (byte)value; } public short shortValue() { return (short)value; } public int intValue() { return (int)value; } public long longValue() { return (long)value; } public float floatValue() { return (float)value; } public double doubleValue() { return (double)value; } public boolean equals(Object o) { return o instanceof Float && Float.floatToRawIntBits(((Float)o).value) == Float.floatToRawIntBits(value); } public static native int floatToRawIntBits(float f); public static native float intBitsToFloat(int x); }
