package java.lang;
public class NumberFormatException extends IllegalArgumentException { public NumberFormatException() {} public NumberFormatException(String m) { super(m); } }
