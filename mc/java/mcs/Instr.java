package mcs;
import java.nio.file.*;
import java.util.*;
import jdk.internal.org.objectweb.asm.*;
import static jdk.internal.org.objectweb.asm.Opcodes.*;

/* Puts scheduling points into generated classes: before every access of a field of type long of such a class, before native
   calls, at monitors (which the scheduler then owns) and before calls into java.util.concurrent and of VarHandles.
   args: in-dir out-dir internal-name-regex */
public final class Instr {
  static int n = 0;
  public static void main(String[] a) throws Exception {
    Path in = Paths.get(a[0]), out = Paths.get(a[1]);
    Map<String, byte[]> todo = new TreeMap<>();
    try (var s = Files.walk(in)) {
      for (Path p : (Iterable<Path>) s.filter(x -> x.toString().endsWith(".class"))::iterator) todo.put(in.relativize(p).toString(), Files.readAllBytes(p));
    }
    // native methods of the generated classes
    Set<String> natives = new HashSet<>();
    for (var e : todo.entrySet())
      if (e.getKey().replace(".class", "").matches(a[2]))
        new ClassReader(e.getValue()).accept(new ClassVisitor(ASM8) {
          String me;
          public void visit(int v, int acc, String name, String sig, String sup, String[] ifs) { me = name; }
          public MethodVisitor visitMethod(int acc, String name, String d, String s, String[] x) { if ((acc & ACC_NATIVE) != 0) natives.add(me + "." + name + d); return null; }
        }, 0);
    for (var e : todo.entrySet()) {
      byte[] b = e.getValue();
      if (e.getKey().replace(".class", "").matches(a[2])) b = transform(b, natives, a[2]);
      Path o = out.resolve(e.getKey());
      Files.createDirectories(o.getParent());
      Files.write(o, b);
    }
    System.out.println("points " + n);
  }
  static byte[] transform(byte[] b, Set<String> natives, String re) {
    ClassReader r = new ClassReader(b);
    ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_FRAMES | ClassWriter.COMPUTE_MAXS) { protected String getCommonSuperClass(String x, String y) { return "java/lang/Object"; } };
    r.accept(new ClassVisitor(ASM8, w) {
      String me;
      public void visit(int v, int acc, String name, String sig, String sup, String[] ifs) { me = name; super.visit(v, acc, name, sig, sup, ifs); }
      public MethodVisitor visitMethod(int acc, String name, String d, String s, String[] x) {
        boolean sync = (acc & ACC_SYNCHRONIZED) != 0 && (acc & ACC_NATIVE) == 0, st = (acc & ACC_STATIC) != 0;
        String real = name;
        if (sync) {
          MethodVisitor m = super.visitMethod(acc & ~ACC_SYNCHRONIZED, name, d, s, x);
          real = name + "$locked";
          m.visitCode();
          Label t0 = new Label(), t1 = new Label(), h = new Label();
          lock(m, st, "enter");
          m.visitTryCatchBlock(t0, t1, h, null);
          m.visitLabel(t0);
          int at = 0;
          if (!st) m.visitVarInsn(ALOAD, at++);
          for (Type t : Type.getArgumentTypes(d)) { m.visitVarInsn(t.getOpcode(ILOAD), at); at += t.getSize(); }
          m.visitMethodInsn(st ? INVOKESTATIC : INVOKESPECIAL, me, real, d, false);
          m.visitLabel(t1);
          lock(m, st, "exit");
          m.visitInsn(Type.getReturnType(d).getOpcode(IRETURN));
          m.visitLabel(h);
          lock(m, st, "exit");
          m.visitInsn(ATHROW);
          m.visitMaxs(0, 0);
          m.visitEnd();
          acc = (acc & ~(ACC_SYNCHRONIZED | ACC_PUBLIC | ACC_PROTECTED)) | ACC_PRIVATE;
        }
        MethodVisitor m = super.visitMethod(acc, real, d, s, x);
        if ((acc & (ACC_NATIVE | ACC_ABSTRACT)) != 0) return m;
        return new MethodVisitor(ASM8, m) {
          void point() { ++n; super.visitMethodInsn(INVOKESTATIC, "mcs/Sched", "point", "()V", false); }
          public void visitFieldInsn(int op, String o, String f, String d) { if (o.matches(re) && (op == GETFIELD || op == PUTFIELD || op == GETSTATIC || op == PUTSTATIC) && d.equals("J")) point(); super.visitFieldInsn(op, o, f, d); }
          public void visitInsn(int op) {
            if (op == MONITORENTER) super.visitMethodInsn(INVOKESTATIC, "mcs/Sched", "enter", "(Ljava/lang/Object;)V", false);
            else if (op == MONITOREXIT) super.visitMethodInsn(INVOKESTATIC, "mcs/Sched", "exit", "(Ljava/lang/Object;)V", false);
            else super.visitInsn(op);
          }
          public void visitMethodInsn(int op, String o, String f, String d, boolean itf) {
            if (o.startsWith("java/util/concurrent/locks/") && d.equals("()V") && (f.equals("lock") || f.equals("unlock"))) { super.visitMethodInsn(INVOKESTATIC, "mcs/Sched", f.equals("lock") ? "enter" : "exit", "(Ljava/lang/Object;)V", false); return; }
            if (natives.contains(o + "." + f + d) || o.startsWith("java/util/concurrent/") || o.equals("java/lang/invoke/VarHandle")) point();
            super.visitMethodInsn(op, o, f, d, itf);
          }
        };
      }
      void lock(MethodVisitor m, boolean st, String what) {
        if (st) m.visitLdcInsn(Type.getObjectType(me)); else m.visitVarInsn(ALOAD, 0);
        m.visitMethodInsn(INVOKESTATIC, "mcs/Sched", what, "(Ljava/lang/Object;)V", false);
      }
    }, 0);
    return w.toByteArray();
  }
}
