package vp;
/** Harness primitives: symbolic in the executor, recorded inputs in native replay. */
public class V {
    public static native byte i8();
    public static native short i16();
    public static native char c16();
    public static native int i32();
    public static native long i64();
    public static native boolean bool();
    public static native float f32();
    public static native double f64();
    public static native int pick(int n);
    public static native void assume(boolean c);
    public static native void chk(boolean c);
    public static native void obs(long x);
    public static native void expectAbort();
    public static native void gc(Object o);
    public static native void temp(Object o);
    public static native void reload();
    public static native String str(int n);
    public static int bits(float f) { return Float.floatToRawIntBits(f); }
    public static long bits(double d) { return Double.doubleToRawLongBits(d); }
}
