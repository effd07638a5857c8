// Prints the API of Java sources, one line per type or member, tab separated: file, owner, kind, access, flags, name, type, parameters, throws, doc, package
import com.sun.source.tree.*;
import com.sun.source.util.*;
import javax.lang.model.element.Modifier;
import javax.tools.*;
import java.io.*;
import java.util.*;
public class ApiDump {
  static String esc(String s) { return s == null ? "-" : s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r"); }
  static String acc(Set<Modifier> m) { return m.contains(Modifier.PUBLIC) ? "public" : m.contains(Modifier.PROTECTED) ? "protected" : m.contains(Modifier.PRIVATE) ? "private" : "package"; }
  public static void main(String[] a) throws Exception {
    JavaCompiler c = ToolProvider.getSystemJavaCompiler();
    StandardJavaFileManager fm = c.getStandardFileManager(null, null, null);
    JavacTask t = (JavacTask) c.getTask(null, fm, d -> { if (d.getKind() == Diagnostic.Kind.ERROR) System.out.println("ERROR\t" + esc(d.toString())); }, List.of("-proc:none"), null, fm.getJavaFileObjects(a));
    DocTrees docs = DocTrees.instance(t);
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
    for (CompilationUnitTree u : t.parse()) {
      String file = new File(u.getSourceFile().getName()).getName(), pkg = "" + u.getPackageName();
      new TreePathScanner<Void, String>() {
        void line(String owner, String kind, ModifiersTree m, String name, String type, String par, String thr) {
          String fl = (m.getFlags().contains(Modifier.STATIC) ? "s" : "") + (m.getFlags().contains(Modifier.NATIVE) ? "n" : "") + (m.getFlags().contains(Modifier.ABSTRACT) ? "a" : "");
          out.println(String.join("\t", file, owner, kind, acc(m.getFlags()), fl, name, type, par, thr, esc(docs.getDocComment(getCurrentPath())), pkg));
        }
        public Void visitClass(ClassTree k, String owner) {
          line(owner, k.getKind().toString().toLowerCase(), k.getModifiers(), k.getSimpleName().toString(), "", "", "");
          return super.visitClass(k, k.getSimpleName().toString());
        }
        public Void visitMethod(MethodTree k, String owner) {
          StringBuilder p = new StringBuilder();
          for (VariableTree v : k.getParameters()) p.append(p.length() == 0 ? "" : ", ").append(v.getType()).append(" ").append(v.getName());
          line(owner, k.getReturnType() == null ? "constructor" : "method", k.getModifiers(), k.getName().toString(), "" + k.getReturnType(), p.toString(), "" + k.getThrows());
          return null;
        }
        public Void visitVariable(VariableTree k, String owner) { line(owner, "field", k.getModifiers(), k.getName().toString(), "" + k.getType(), "" + k.getInitializer(), ""); return null; }
      }.scan(u, "");
    }
    out.flush();
  }
}
