package java.util;
public class NoSuchElementException extends RuntimeException { public NoSuchElementException() {} public NoSuchElementException(String m) { super(m); } }
