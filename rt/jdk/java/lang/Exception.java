package java.lang;
public class Exception extends Throwable { public Exception() {} public Exception(String m) { super(m); } }
