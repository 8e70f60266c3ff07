package java.lang.ref;
public abstract class Reference<T> { public static void reachabilityFence(Object o) {} }
