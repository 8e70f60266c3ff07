package java.lang;
public class LinkageError extends Error { public LinkageError() {} public LinkageError(String m) { super(m); } }
