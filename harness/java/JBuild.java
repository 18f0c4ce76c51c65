import java.io.*;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

/** Compiles the sources of each directory on its own, warnings being errors; one JSON line each. */
public class JBuild {
    static String q(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }
    public static void main(String[] a) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        PrintStream out = System.out;
        for (int i = 1; i < a.length; i++) {
            DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
            StandardJavaFileManager fm = jc.getStandardFileManager(dc, null, null);
            List<File> src = new ArrayList<>();
            try (DirectoryStream<Path> ds = Files.newDirectoryStream(Paths.get(a[i]), "*.java")) { for (Path p : ds) src.add(p.toFile()); }
            Path cls = Files.createDirectories(Paths.get(a[i], "classes"));
            StringWriter more = new StringWriter();
            boolean ok = jc.getTask(more, fm, dc, Arrays.asList("-Werror", "-Xlint:-dep-ann", "-implicit:none", "-proc:none", "-cp", a[0], "-d", cls.toString()), null, fm.getJavaFileObjectsFromFiles(src)).call();
            List<String> say = new ArrayList<>();
            for (Diagnostic<? extends JavaFileObject> d : dc.getDiagnostics())
                if (d.getKind() != Diagnostic.Kind.NOTE)
                    say.add(q((d.getSource() == null ? "" : new File(d.getSource().getName()).getName() + ":" + d.getLineNumber() + ": ") + d.getKind() + " " + d.getMessage(Locale.ROOT).replace('\n', ' ')));
            if (more.toString().trim().length() > 0) say.add(q(more.toString().trim()));
            out.println("{\"ok\":" + ok + ",\"say\":[" + String.join(",", say) + "]}");
            fm.close();
        }
    }
}
