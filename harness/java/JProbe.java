// JProbe OUTDIR-LIST: compiles the generated Java classes of each directory (one file set
// each) against the runtime stand-in and prints the constants its interfaces expose.
import java.io.*;
import java.lang.reflect.*;
import java.net.*;
import java.nio.*;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

public class JProbe {
    static String q(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }
    static String bytes(byte[] a) {
        StringBuilder b = new StringBuilder("[");
        for (int i = 0; i < a.length; i++) b.append(i == 0 ? "" : ",").append(a[i] & 255);
        return b.append("]").toString();
    }
    static ByteBuffer bb(int n) { return ByteBuffer.allocate(n).order(ByteOrder.LITTLE_ENDIAN); }

    public static void main(String[] a) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        List<String> dirs = Files.readAllLines(Paths.get(a[0]));
        for (int k = 0; k < dirs.size(); k++) {
            Path d = Paths.get(dirs.get(k)), cls = d.resolve("classes");
            Files.createDirectories(cls);
            List<File> src = new ArrayList<>();
            try (DirectoryStream<Path> s = Files.newDirectoryStream(d, "*.java")) { for (Path f : s) src.add(f.toFile()); }
            Collections.sort(src);
            DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
            boolean ok;
            try (StandardJavaFileManager fm = jc.getStandardFileManager(dc, null, null)) {
                ok = src.isEmpty() || jc.getTask(null, fm, dc, Arrays.asList("-d", cls.toString(), "-cp", System.getProperty("java.class.path"), "-proc:none", "-Xlint:all,-serial,-dep-ann,-deprecation"), null, fm.getJavaFileObjectsFromFiles(src)).call();
            }
            StringBuilder ds = new StringBuilder();
            for (Diagnostic<? extends JavaFileObject> g : dc.getDiagnostics())
                ds.append(ds.length() == 0 ? "" : ",").append("[").append(q(g.getKind().toString())).append(",")
                  .append(q((g.getSource() == null ? "" : Paths.get(g.getSource().toUri()).getFileName().toString()) + ":" + g.getLineNumber() + ": " + g.getMessage(Locale.ROOT))).append("]");
            out.println("{\"k\":" + k + ",\"ok\":" + ok + ",\"diag\":[" + ds + "]}");
            if (!ok) continue;
            Path pk = cls.resolve("com/qualcomm/qti/mink");
            if (!Files.isDirectory(pk)) continue;
            try (URLClassLoader cl = new URLClassLoader(new URL[] { cls.toUri().toURL() }, JProbe.class.getClassLoader())) {
                List<String> names = new ArrayList<>();
                try (DirectoryStream<Path> s = Files.newDirectoryStream(pk, "*.class")) { for (Path f : s) names.add(f.getFileName().toString().replace(".class", "")); }
                Collections.sort(names);
                for (String n : names) {
                    Class<?> c = Class.forName("com.qualcomm.qti.mink." + n, false, cl);
                    if (!c.isInterface()) continue;
                    for (Field f : c.getDeclaredFields()) {
                        if (!Modifier.isStatic(f.getModifiers())) continue;
                        f.setAccessible(true);
                        Object v = f.get(null);
                        String t; byte[] b;
                        if (v instanceof Byte) { t = "int8"; b = bb(1).put((Byte) v).array(); }
                        else if (v instanceof Character) { t = "uint16"; b = bb(2).putChar((Character) v).array(); }
                        else if (v instanceof Short) { t = "int16"; b = bb(2).putShort((Short) v).array(); }
                        else if (v instanceof Integer) { t = "int32"; b = bb(4).putInt((Integer) v).array(); }
                        else if (v instanceof Long) { t = "int64"; b = bb(8).putLong((Long) v).array(); }
                        else if (v instanceof Float) { t = "float32"; b = bb(4).putFloat((Float) v).array(); }
                        else if (v instanceof Double) { t = "float64"; b = bb(8).putDouble((Double) v).array(); }
                        else { t = "other"; b = new byte[0]; }
                        out.println("{\"k\":" + k + ",\"c\":" + q(n) + ",\"f\":" + q(f.getName()) + ",\"ty\":" + q(t) + ",\"b\":" + bytes(b) + "}");
                    }
                }
            }
        }
        out.flush();
    }
}
