package java.lang;
public class ArithmeticException extends RuntimeException { public ArithmeticException() {} public ArithmeticException(String m) { super(m); } }
