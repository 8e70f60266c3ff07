package java.lang;
public class ArrayIndexOutOfBoundsException extends IndexOutOfBoundsException { public ArrayIndexOutOfBoundsException() {} public ArrayIndexOutOfBoundsException(String m) { super(m); } }
