package java.lang;
public class Error extends Throwable { public Error() {} public Error(String m) { super(m); } }
