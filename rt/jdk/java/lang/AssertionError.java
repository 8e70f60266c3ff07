package java.lang;
public class AssertionError extends Error { public AssertionError() {} public AssertionError(Object m) { super(String.valueOf(m)); } }
