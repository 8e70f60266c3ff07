package java.lang;
public class StringIndexOutOfBoundsException extends IndexOutOfBoundsException { public StringIndexOutOfBoundsException() {} public StringIndexOutOfBoundsException(String m) { super(m); } }
