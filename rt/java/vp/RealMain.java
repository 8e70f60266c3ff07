package vp;
import java.io.*;
import java.lang.reflect.*;
import java.util.*;
/** Runs recorded harness inputs on a real JVM: one line "class method in in in" per run. */
public class RealMain {
    static native void begin(long[] in);
    static native long end();
    public static void main(String[] a) throws Throwable {
        System.load(a[0]);
        BufferedReader r = new BufferedReader(new FileReader(a[1]));
        PrintStream out = System.out;
        for (String l; (l = r.readLine()) != null;) {
            String[] p = l.trim().split(" ");
            long[] in = new long[p.length - 2];
            for (int i = 0; i < in.length; i++) in[i] = Long.parseUnsignedLong(p[i + 2]);
            out.println("RUN " + p[1]); out.flush();
            Method m = Class.forName(p[0]).getDeclaredMethod(p[1]);
            m.setAccessible(true);
            begin(in);
            try { m.invoke(null); } catch (InvocationTargetException e) { out.println("UNCAUGHT " + e.getCause()); out.flush(); }
            out.flush();
            out.println("DONE " + end()); out.flush();
        }
        Runtime.getRuntime().halt(0);
    }
}
