package java.lang;
public class Object { public Object() {} public final native Class<?> getClass(); public boolean equals(Object o) { return this == o; } public int hashCode() { return 1; } public String toString() { return "obj"; } protected void finalize() throws Throwable {} protected Object clone() throws CloneNotSupportedException { throw new CloneNotSupportedException(); } }
