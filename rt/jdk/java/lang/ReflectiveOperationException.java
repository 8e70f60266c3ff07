package java.lang;
public class ReflectiveOperationException extends Exception { public ReflectiveOperationException() {} public ReflectiveOperationException(String m) { super(m); } }
