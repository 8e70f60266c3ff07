package java.lang;
public class IllegalStateException extends RuntimeException { public IllegalStateException() {} public IllegalStateException(String m) { super(m); } }
