package java.lang;
public class InstantiationException extends ReflectiveOperationException { public InstantiationException() {} public InstantiationException(String m) { super(m); } }
