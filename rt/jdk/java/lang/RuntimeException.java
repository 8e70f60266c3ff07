package java.lang;
public class RuntimeException extends Exception { public RuntimeException() {} public RuntimeException(String m) { super(m); } }
