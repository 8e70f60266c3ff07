package java.lang;
public class ArrayStoreException extends RuntimeException { public ArrayStoreException() {} public ArrayStoreException(String m) { super(m); } }
