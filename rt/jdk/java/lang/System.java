package java.lang;
public final class System { public static void loadLibrary(String s) {} }
