package java.lang;
public class CloneNotSupportedException extends Exception { public CloneNotSupportedException() {} public CloneNotSupportedException(String m) { super(m); } }
