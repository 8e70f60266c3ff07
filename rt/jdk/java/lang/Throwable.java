package java.lang;
public class Throwable { private String detailMessage; public Throwable() {} public Throwable(String m) { detailMessage = m; } public Throwable(Throwable c) {} public Throwable(String m, Throwable c) { detailMessage = m; } public String getMessage() { return detailMessage; } public String toString() { return "exception"; } }
