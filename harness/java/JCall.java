// JCall SCRIPT: calls generated proxies connected to generated MinkObjects through a
// recording transport, in one process.  Script lines:
//   D dir                       classes of a program (compiled by JProbe's rules, to dir/classes)
//   X dir dir                   of programs compiled before: proxies from the first, servers from the second
//   C cid proxyIface serverIface method mode status np
//   P dir kind size cnt nobj pre type imgIn objsIn imgOut objsOut nOut
// kind f (fixed data) b (buffer) o (objects), type an element type: b c i l f d (Java carrier)
// or {Class;field*count:type;...}.  Records one JSON event per line.
import com.qualcomm.qti.qms.api.mink.*;
import java.io.*;
import java.lang.reflect.*;
import java.net.*;
import java.nio.*;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

public class JCall {
    static PrintStream out;
    static final String PKG = "com.qualcomm.qti.mink.";
    static ClassLoader loader, sloader;   // of the proxy's and of the server's classes
    static final Map<String, ClassLoader> loaders = new HashMap<>(); static final Set<String> broken = new HashSet<>();

    // ------------------------------------------------------------------- types and values
    static final class Ty {
        char p; Class<?> c; List<Field> fs = new ArrayList<>(); List<Integer> cs = new ArrayList<>(); List<Ty> ts = new ArrayList<>();
        int size() { if (p != 's') return p == 'b' ? 1 : p == 'c' ? 2 : p == 'i' || p == 'f' ? 4 : 8; int n = 0; for (int k = 0; k < ts.size(); k++) n += cs.get(k) * ts.get(k).size(); return n; }
    }
    static String s; static int at;
    static ClassLoader tl;
    static Ty ty(String x, ClassLoader l) throws Exception { s = x; at = 0; tl = l; return ty(); }
    static String upto(char c) { int e = s.indexOf(c, at); String r = s.substring(at, e); at = e + 1; return r; }
    static Ty ty() throws Exception {
        Ty t = new Ty();
        if (s.charAt(at) != '{') { t.p = s.charAt(at++); t.c = t.p == 'b' ? byte.class : t.p == 'c' ? char.class : t.p == 'i' ? int.class : t.p == 'l' ? long.class : t.p == 'f' ? float.class : double.class; return t; }
        at++; t.p = 's'; t.c = Class.forName(PKG + upto(';'), true, tl);
        while (s.charAt(at) != '}') {
            Field f = t.c.getDeclaredField(upto('*')); f.setAccessible(true);
            t.fs.add(f); t.cs.add(Integer.parseInt(upto(':'))); t.ts.add(ty());
            if (s.charAt(at) == ';') at++;
        }
        at++; return t;
    }
    static Object get(Ty t, ByteBuffer b) throws Exception {
        switch (t.p) {
            case 'b': return b.get();
            case 'c': return b.getChar();
            case 'i': return b.getInt();
            case 'l': return b.getLong();
            case 'f': return b.getFloat();
            case 'd': return b.getDouble();
        }
        Constructor<?> k = t.c.getDeclaredConstructor(); k.setAccessible(true);
        Object o = k.newInstance();
        for (int i = 0; i < t.fs.size(); i++) t.fs.get(i).set(o, member(t.fs.get(i).getType(), t.cs.get(i), t.ts.get(i), b));
        return o;
    }
    static Object member(Class<?> decl, int n, Ty t, ByteBuffer b) throws Exception {
        if (!decl.isArray()) return get(t, b);
        Object a = Array.newInstance(t.c, n);
        for (int i = 0; i < n; i++) Array.set(a, i, get(t, b));
        return a;
    }
    static void put(Ty t, Object o, ByteBuffer b) throws Exception {
        switch (t.p) {
            case 'b': b.put((Byte) o); return;
            case 'c': b.putChar((Character) o); return;
            case 'i': b.putInt((Integer) o); return;
            case 'l': b.putLong((Long) o); return;
            case 'f': b.putInt(Float.floatToRawIntBits((Float) o)); return;
            case 'd': b.putLong(Double.doubleToRawLongBits((Double) o)); return;
        }
        for (int i = 0; i < t.fs.size(); i++) {
            Object v = t.fs.get(i).get(o);
            if (!t.fs.get(i).getType().isArray()) { put(t.ts.get(i), v, b); continue; }
            int n = Array.getLength(v);
            if (n != t.cs.get(i)) throw new IllegalStateException("array field of length " + n);
            for (int k = 0; k < n; k++) put(t.ts.get(i), Array.get(v, k), b);
        }
    }
    static ByteBuffer wrap(byte[] b) { return ByteBuffer.wrap(b).order(ByteOrder.LITTLE_ENDIAN); }
    static Object array(Ty t, byte[] img, int n) throws Exception {
        Object a = Array.newInstance(t.c, n); ByteBuffer b = wrap(img);
        for (int i = 0; i < n; i++) Array.set(a, i, get(t, b));
        return a;
    }
    // what the caller's variables hold before the call
    static byte[] stale(P p, int n) { byte[] r = new byte[n]; if (p.pre == 2) Arrays.fill(r, (byte) 0x25); return r; }
    static byte[] image(Ty t, Object a) throws Exception {
        int n = Array.getLength(a); byte[] r = new byte[n * t.size()]; ByteBuffer b = wrap(r);
        for (int i = 0; i < n; i++) put(t, Array.get(a, i), b);
        return r;
    }
    static byte[] one(Ty t, Object v) throws Exception { byte[] r = new byte[t.size()]; put(t, v, wrap(r)); return r; }

    // --------------------------------------------------------------------------- objects
    static final class Tok implements IMinkObject {
        final int id; Tok(int i) { id = i; }
        public void invoke(int m, byte[][] bi, int[] s, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {}
        public void retain() {} public void release() {} public boolean isNull() { return false; }
    }
    static final Tok[] toks = new Tok[16];
    static { for (int i = 1; i < 16; i++) toks[i] = new Tok(i); }
    static int id(Object o) { return o == null ? 0 : o instanceof Tok ? ((Tok) o).id : 99; }
    static IMinkObject[] objs(int[] ids) { IMinkObject[] r = new IMinkObject[ids.length]; for (int i = 0; i < ids.length; i++) r[i] = toks[ids[i]]; return r; }
    static int[] ids(IMinkObject[] a) { if (a == null) return new int[0]; int[] r = new int[a.length]; for (int i = 0; i < r.length; i++) r[i] = id(a[i]); return r; }

    // ------------------------------------------------------------------------- recording
    static String js(byte[] b) { StringBuilder r = new StringBuilder("["); for (int i = 0; i < b.length; i++) r.append(i == 0 ? "" : ",").append(b[i] & 255); return r.append("]").toString(); }
    static String js(int[] b) { StringBuilder r = new StringBuilder("["); for (int i = 0; i < b.length; i++) r.append(i == 0 ? "" : ",").append(b[i]); return r.append("]").toString(); }
    static String js(byte[][] b) { StringBuilder r = new StringBuilder("["); if (b != null) for (int i = 0; i < b.length; i++) r.append(i == 0 ? "" : ",").append(js(b[i] == null ? new byte[0] : b[i])); return r.append("]").toString(); }
    static String quote(String x) { StringBuilder b = new StringBuilder("\""); for (char c : x.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append('?'); else b.append(c); } return b.append('"').toString(); }
    static String val(byte[] b, int[] o, int n, int nul) { return "{\"b\":" + js(b) + ",\"o\":" + js(o) + ",\"n\":" + n + ",\"nul\":" + nul + "}"; }
    static void ev(String e) { out.println("{\"c\":" + cid + ",\"ev\":" + e + "}"); }
    static final byte[] NB = new byte[0]; static final int[] NI = new int[0];

    static final class P { boolean in; char k; int cnt, no, pre, nout; Ty t, ts; byte[] bi, bo; int[] oi, oo; Object arg; }
    static int cid, mode, status; static List<P> ps; static int served;

    static boolean on(int bit) { return (mode & bit) != 0; }

    // the implementation
    static final class Impl implements InvocationHandler {
        public Object invoke(Object self, Method m, Object[] a) throws Throwable {
            if (m.getDeclaringClass() == Object.class) return m.getName().equals("hashCode") ? (Object) 1 : m.getName().equals("equals") ? (Object) (self == a[0]) : "impl";
            served++;
            StringBuilder r = new StringBuilder();
            int k = 0;
            for (P p : ps) {
                Object x = a[k++];
                byte[] b = NB; int[] o = NI; int n = 0, nul = 0;
                if (p.in) {
                    if (x == null && !(p.k == 'o' && p.cnt < 0)) nul = 1;
                    else if (p.k == 'f') b = one(p.ts, x);
                    else if (p.k == 'b') { b = image(p.ts, x); n = Array.getLength(x); }
                    else o = p.cnt < 0 ? new int[] { id(x) } : ids((IMinkObject[]) x);
                } else {
                    if (x == null) nul = 1;
                    if (p.k == 'b' || p.k == 'o' && p.cnt >= 0) n = (Integer) a[k++];
                }
                r.append(r.length() == 0 ? "" : ",").append(val(b, o, n, nul));
            }
            ev("\"serve\",\"m\":" + quote(m.getName()) + ",\"np\":" + ps.size() + ",\"v\":[" + r + "]");
            if (status != 0) throw new IMinkObject.InvokeException(status);
            k = 0;
            for (P p : ps) {
                Object x = a[k++];
                if (p.in) continue;
                if (p.k == 'f') Array.set(x, 0, get(p.ts, wrap(p.bo)));
                else if (p.k == 'b') { k++; if (p.nout > 0 || !on(2)) Array.set(x, 0, array(p.ts, p.bo, p.nout)); }
                else if (p.cnt < 0) Array.set(x, 0, toks[p.oo[0]]);
                else {
                    k++; IMinkObject[] q = objs(p.oo), old = ((IMinkObject[][]) x)[0];
                    if (old != null && old.length == q.length && on(4)) System.arraycopy(q, 0, old, 0, q.length); else Array.set(x, 0, q);
                }
            }
            return null;
        }
    }
    // the transport
    static final class Wire implements IMinkObject {
        final IMinkObject to; Wire(IMinkObject t) { to = t; }
        static byte[][] copy(byte[][] a) { if (a == null) return null; byte[][] r = new byte[a.length][]; for (int i = 0; i < r.length; i++) r[i] = a[i] == null ? (on(1) ? new byte[0] : null) : a[i].clone(); return r; }
        public void invoke(int op, byte[][] bi, int[] sz, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
            int ns = sz == null ? 0 : sz.length, nb = bo == null ? 0 : bo.length, no = oo == null ? 0 : oo.length;
            ev("\"send\",\"op\":" + op + ",\"bi\":" + js(bi) + ",\"bo\":" + js(sz == null ? NI : sz) + ",\"nbo\":" + nb + ",\"oi\":" + js(ids(oi)) + ",\"noo\":" + no);
            byte[][] rb = bo == null ? null : new byte[nb][]; IMinkObject[] ro = oo == null ? null : new IMinkObject[no];
            int st = 0; String err = null;
            try { to.invoke(op, copy(bi), sz == null ? null : sz.clone(), rb, oi == null ? null : oi.clone(), ro); }
            catch (InvokeException e) { st = e.getErr(); }
            catch (Throwable e) { st = -1; err = e.toString(); }
            boolean mem = err == null;
            if (st == 0) for (int i = 0; i < nb && i < ns; i++) mem &= rb[i] == null || rb[i].length <= sz[i];
            ev("\"reply\",\"st\":" + st + ",\"mem\":" + (mem ? 1 : 0) + ",\"bo\":" + js(rb) + ",\"oo\":" + js(ids(ro)) + (err == null ? "" : ",\"err\":" + quote(err)));
            if (st != 0) throw new InvokeException(st);
            for (int i = 0; i < nb; i++) bo[i] = rb[i] == null ? (on(1) ? new byte[0] : null) : rb[i].clone();
            for (int i = 0; i < no; i++) oo[i] = ro[i];
        }
        public void retain() { to.retain(); } public void release() { to.release(); } public boolean isNull() { return false; }
    }

    static void call(String pi, String si, String m) throws Exception {
        served = 0;
        ev("\"call\"");
        int st = 0; String err = null; Object[] a = null;
        try {
            Class<?> S = Class.forName(PKG + si, true, sloader), I = Class.forName(PKG + pi, true, loader);
            Object impl = java.lang.reflect.Proxy.newProxyInstance(sloader, new Class<?>[] { S }, new Impl());
            IMinkObject skel = (IMinkObject) Class.forName(PKG + si + "$MinkObject", true, sloader).getConstructor(S).newInstance(impl);
            Object proxy = Class.forName(PKG + pi + "$Proxy", true, loader).getConstructor(IMinkObject.class).newInstance(new Wire(skel));
            Method mm = null;
            for (Method x : proxy.getClass().getMethods()) if (x.getName().equals(m) && (mm == null || x.getDeclaringClass() == proxy.getClass())) mm = x;
            List<Object> l = new ArrayList<>();
            for (P p : ps) {
                Object x;
                if (p.in) {
                    if (p.k == 'f') x = get(p.t, wrap(p.bi));
                    else if (p.k == 'b') { int n = p.bi.length / p.t.size(); x = n == 0 && on(8) ? null : array(p.t, p.bi, n); }
                    else if (p.cnt < 0) x = toks[p.oi[0]];
                    else x = objs(p.oi);
                } else if (p.pre == 7) x = null;
                else if (p.k == 'f') { x = Array.newInstance(p.t.c, 1); if (p.t.p == 's' ? p.pre != 0 : p.pre == 2) Array.set(x, 0, get(p.t, wrap(stale(p, p.t.size())))); }
                else if (p.k == 'b') x = Array.newInstance(p.t.c, 1, 0);
                else if (p.cnt < 0) { IMinkObject[] q = { toks[p.pre] }; x = q; }
                else { IMinkObject[][] q = new IMinkObject[1][]; if (p.pre != 0) { q[0] = new IMinkObject[p.cnt]; if (p.pre == 2) Arrays.fill(q[0], toks[15]); } x = q; }
                if (!p.in && p.k == 'b' && x != null) Array.set(x, 0, p.pre == 2 ? array(p.t, stale(p, 3 * p.t.size()), 3) : null);
                p.arg = x; l.add(x);
                if (!p.in && (p.k == 'b' || p.k == 'o' && p.cnt >= 0)) l.add(p.cnt);
            }
            a = l.toArray();
            mm.setAccessible(true);
            mm.invoke(proxy, a);
        } catch (InvocationTargetException e) {
            Throwable t = e.getCause();
            if (t instanceof IMinkObject.InvokeException) st = ((IMinkObject.InvokeException) t).getErr(); else { st = -1; err = t.toString(); }
        } catch (Throwable e) { st = -1; err = e.toString(); }
        StringBuilder r = new StringBuilder();
        try {
            if (st == 0) for (P p : ps) {
                byte[] b = NB; int[] o = NI; int n = 0, nul = 0; Object x = p.arg;
                if (!p.in && x == null) nul = 1;
                else if (!p.in) {
                    Object y = Array.get(x, 0);
                    if (p.k == 'f') { if (y == null) nul = 2; else b = one(p.t, y); }
                    else if (p.k == 'b') { if (y != null) { b = image(p.t, y); n = Array.getLength(y); } }
                    else if (p.cnt < 0) o = new int[] { id(y) };
                    else o = ids((IMinkObject[]) y);
                }
                r.append(r.length() == 0 ? "" : ",").append(val(b, o, n, nul));
            }
        } catch (Throwable e) { st = -2; err = e.toString(); }
        ev("\"ret\",\"st\":" + st + ",\"served\":" + served + ",\"v\":[" + (st == 0 ? r : "") + "]" + (err == null ? "" : ",\"err\":" + quote(err)));
    }

    static byte[] hex(String x) { if (x.equals("-")) return NB; byte[] r = new byte[x.length() / 2]; for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(x.substring(2 * i, 2 * i + 2), 16); return r; }
    static int[] ints(String x) { if (x.equals("-")) return NI; String[] q = x.split(","); int[] r = new int[q.length]; for (int i = 0; i < r.length; i++) r[i] = Integer.parseInt(q[i]); return r; }

    public static void main(String[] av) throws Exception {
        out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16), false, "US-ASCII");
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        boolean ok = false; int left = 0; String[] h = null;
        try (BufferedReader rd = Files.newBufferedReader(Paths.get(av[0]))) {
            for (String ln; (ln = rd.readLine()) != null;) {
                String[] w = ln.split(" ");
                if (w[0].equals("D")) {
                    Path d = Paths.get(w[1]), cls = d.resolve("classes"); Files.createDirectories(cls);
                    List<File> src = new ArrayList<>();
                    try (DirectoryStream<Path> q = Files.newDirectoryStream(d, "*.java")) { for (Path f : q) src.add(f.toFile()); }
                    Collections.sort(src);
                    DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
                    try (StandardJavaFileManager fm = jc.getStandardFileManager(dc, null, null)) {
                        ok = jc.getTask(null, fm, dc, Arrays.asList("-d", cls.toString(), "-cp", System.getProperty("java.class.path"), "-proc:none"), null, fm.getJavaFileObjectsFromFiles(src)).call();
                    }
                    StringBuilder ds = new StringBuilder();
                    for (Diagnostic<? extends JavaFileObject> g : dc.getDiagnostics())
                        if (ds.length() < 600) ds.append(ds.length() == 0 ? "" : " | ").append(g.getKind() + " " + (g.getSource() == null ? "" : Paths.get(g.getSource().toUri()).getFileName().toString()) + ":" + g.getLineNumber() + ": " + g.getMessage(Locale.ROOT));
                    out.println("{\"d\":" + quote(w[1]) + ",\"ok\":" + ok + ",\"diag\":" + quote(ds.toString()) + "}");
                    loader = sloader = new URLClassLoader(new URL[] { cls.toUri().toURL() }, JCall.class.getClassLoader());
                    loaders.put(w[1], loader); if (!ok) broken.add(w[1]);
                } else if (w[0].equals("X")) {
                    loader = loaders.get(w[1]); sloader = loaders.get(w[2]); ok = !broken.contains(w[1]) && !broken.contains(w[2]);
                } else if (w[0].equals("C")) {
                    h = w; ps = new ArrayList<>(); cid = Integer.parseInt(w[1]); mode = Integer.parseInt(w[5]); status = Integer.parseInt(w[6]); left = Integer.parseInt(w[7]);
                    if (left == 0 && ok) call(h[2], h[3], h[4]);
                } else if (w[0].equals("P") && ok) {
                    P p = new P(); p.in = w[1].equals("i"); p.k = w[2].charAt(0); p.cnt = Integer.parseInt(w[4]); p.no = Integer.parseInt(w[5]); p.pre = Integer.parseInt(w[6]);
                    p.t = w[7].equals("-") ? null : ty(w[7], loader);
                    p.ts = p.t; if (p.t != null && sloader != loader) try { p.ts = ty(w[7], sloader); } catch (ClassNotFoundException e) { p.ts = null; }
                    p.bi = hex(w[8]); p.oi = ints(w[9]); p.bo = hex(w[10]); p.oo = ints(w[11]); p.nout = Integer.parseInt(w[12]);
                    ps.add(p);
                    if (--left == 0) call(h[2], h[3], h[4]);
                }
            }
        }
        out.println("{\"end\":1}");
        out.flush();
    }
}
