package java.lang;
public class IndexOutOfBoundsException extends RuntimeException { public IndexOutOfBoundsException() {} public IndexOutOfBoundsException(String m) { super(m); } }
