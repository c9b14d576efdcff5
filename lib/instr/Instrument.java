import java.io.*;
import java.nio.file.*;
import java.util.*;
import jdk.internal.org.objectweb.asm.*;
// Rewrites the compiled classes of the repository: verif.Sched is told before each access to a field that is not final.
public class Instrument {
    static final Set<String> fin = new HashSet<>(), own = new HashSet<>(); static final String S = "verif/Sched", D = "(Ljava/lang/Object;)V";
    public static void main(String[] a) throws Exception {
        List<Path> l = new ArrayList<>(); for (String r : new String[]{"org/boofcpp"}) try (var s = Files.walk(Paths.get(a[0], r))) { s.filter(p -> p.toString().endsWith(".class")).forEach(l::add); }
        for (Path p : l) new ClassReader(Files.readAllBytes(p)).accept(new ClassVisitor(Opcodes.ASM8) {
            String n; public void visit(int v, int ac, String name, String sig, String sup, String[] i) { n = name; own.add(n); }
            public FieldVisitor visitField(int ac, String f, String d, String s, Object v) { if ((ac & Opcodes.ACC_FINAL) != 0) fin.add(n + "." + f); return null; }
        }, ClassReader.SKIP_CODE);
        for (Path p : l) {
            ClassReader r = new ClassReader(Files.readAllBytes(p)); ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
            r.accept(new ClassVisitor(Opcodes.ASM8, w) {
                public MethodVisitor visitMethod(int ac, String name, String desc, String sig, String[] ex) {
                    MethodVisitor mv = super.visitMethod(ac, name, desc, sig, ex); boolean init = name.equals("<init>"), cl = name.equals("<clinit>"), bridge = (ac & Opcodes.ACC_BRIDGE) != 0; if (cl || bridge) return mv;
                    return new MethodVisitor(Opcodes.ASM8, mv) {
                        int news = 0; boolean made = !init;
                        @Override public void visitTypeInsn(int op, String t) { if (op == Opcodes.NEW) news++; super.visitTypeInsn(op, t); }
                        @Override public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
                            super.visitMethodInsn(op, o, n, d, itf);
                            if (op == Opcodes.INVOKESPECIAL && n.equals("<init>")) { if (news > 0) news--; else if (!made) { made = true; super.visitVarInsn(Opcodes.ALOAD, 0); super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "created", D, false); } }
                        }
                        @Override public void visitFieldInsn(int op, String o, String n, String d) {
                            if (made && own.contains(o) && !fin.contains(o + "." + n)) {
                                boolean two = d.equals("J") || d.equals("D");
                                if (op == Opcodes.GETSTATIC || op == Opcodes.PUTSTATIC) super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "point", "()V", false);
                                else if (op == Opcodes.GETFIELD) { super.visitInsn(Opcodes.DUP); super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "access", D, false); }
                                else if (!two) { super.visitInsn(Opcodes.DUP2); super.visitInsn(Opcodes.POP); super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "access", D, false); }
                                else { super.visitInsn(Opcodes.DUP2_X1); super.visitInsn(Opcodes.POP2); super.visitInsn(Opcodes.DUP_X2); super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "access", D, false); }
                            }
                            super.visitFieldInsn(op, o, n, d);
                        }
                    };
                }
            }, 0);
            Files.write(p, w.toByteArray());
        }
    }
}
