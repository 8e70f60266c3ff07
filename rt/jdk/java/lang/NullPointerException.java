package java.lang;
public class NullPointerException extends RuntimeException { public NullPointerException() {} public NullPointerException(String m) { super(m); } }
