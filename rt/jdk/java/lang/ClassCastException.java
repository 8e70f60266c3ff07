package java.lang;
public class ClassCastException extends RuntimeException { public ClassCastException() {} public ClassCastException(String m) { super(m); } }
