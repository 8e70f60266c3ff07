package java.lang;
public class NegativeArraySizeException extends RuntimeException { public NegativeArraySizeException() {} public NegativeArraySizeException(String m) { super(m); } }
