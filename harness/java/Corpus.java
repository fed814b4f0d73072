import java.io.*;
import java.net.URI;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import javax.tools.*;

/** Writes a pack of compiled classes: classes of the JDK's image and of sources generated from a seed. */
public class Corpus {
    static long h(long a, long b) {
        long z = a * 0x9E3779B97F4A7C15L + b;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }

    static DataOutputStream out;
    static int jdk, own, repo, failed;

    static void put(byte[] b) throws IOException {
        out.writeInt(b.length);
        out.write(b);
    }

    public static void main(String[] a) throws Exception {
        long seed = Long.parseLong(a[1]);
        boolean deep = a[2].equals("thorough");
        out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(a[0]), 1 << 20));
        FileSystem fs = FileSystems.getFileSystem(URI.create("jrt:/"));
        List<Path> all;
        try (Stream<Path> s = Files.walk(fs.getPath("/modules"))) {
            all = s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList());
        }
        int keep = deep ? 1 : Math.max(1, all.size() / 2500);
        for (Path p : all) {
            boolean descr = p.toString().endsWith("module-info.class");
            if (descr || Math.floorMod(h(seed, p.toString().hashCode()), (long) keep) == 0) {
                put(Files.readAllBytes(p));
                jdk++;
            }
        }
        // class files that come with the repository, if there are any
        for (int i = 3; i < a.length; i++) {
            try (Stream<Path> s = Files.walk(Paths.get(a[i]))) {
                for (Path p : s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList())) {
                    put(Files.readAllBytes(p));
                    repo++;
                }
            } catch (NoSuchFileException e) {
                // none
            }
        }
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        int rounds = deep ? 400 : 24;
        for (int r = 0; r < rounds; r++) {
            compile(jc, h(seed, r + 1), r);
        }
        out.close();
        if (failed * 4 > rounds) System.exit(1);
        System.out.println(jdk + " JDK classes, " + repo + " of the repository, " + own + " compiled");
        System.exit(0);
    }

    static class Mem extends SimpleJavaFileObject {
        final ByteArrayOutputStream o = new ByteArrayOutputStream();
        final String text;
        Mem(String name, String text) {
            super(URI.create("mem:///" + name + ".java"), Kind.SOURCE);
            this.text = text;
        }
        Mem(String name) {
            super(URI.create("mem:///" + name.replace('.', '/') + ".class"), Kind.CLASS);
            text = null;
        }
        @Override public CharSequence getCharContent(boolean i) { return text; }
        @Override public OutputStream openOutputStream() { return o; }
    }

    static void compile(JavaCompiler jc, long seed, int round) throws Exception {
        Random r = new Random(seed);
        int[] levels = {8, 9, 11, 17, 17};
        int level = levels[round % levels.length];
        List<String> opt = new ArrayList<>(List.of("--release", "" + level, "-proc:none", "-Xlint:none", "-nowarn"));
        if (r.nextBoolean()) opt.add("-parameters");
        opt.add(new String[] {"-g", "-g:none", "-g:lines", "-g:vars,source"}[r.nextInt(4)]);
        if (level >= 9 && r.nextInt(3) == 0) opt.add("-XDstringConcat=" + new String[] {"inline", "indy", "indyWithConstants"}[r.nextInt(3)]);
        List<Mem> src = new ArrayList<>();
        int k = 4;
        for (int i = 0; i < k; i++) {
            String n = "G" + i;
            src.add(new Mem("p/" + n, new Src(r, level, n).unit()));
        }
        src.add(new Mem("p/Big", new Src(r, level, "Big").big()));
        src.add(new Mem("p/An", Src.annotations()));
        if (r.nextBoolean()) src.add(new Mem("p/package-info", "@Deprecated package p;"));
        if (level >= 9 && r.nextBoolean()) src.add(new Mem("module-info", new Src(r, level, "").module()));
        for (int i = 1; i <= 2; i++) src.add(new Mem("p/R" + i, "package p; public class R" + i + " implements Runnable { public void run() {} }"));
        List<Mem> done = new ArrayList<>();
        StandardJavaFileManager std = jc.getStandardFileManager(null, null, null);
        JavaFileManager fm = new ForwardingJavaFileManager<JavaFileManager>(std) {
            @Override public JavaFileObject getJavaFileForOutput(Location l, String name, JavaFileObject.Kind kind, FileObject f) {
                Mem m = new Mem(name);
                synchronized (done) { done.add(m); }
                return m;
            }
        };
        StringWriter log = new StringWriter();
        boolean ok = jc.getTask(log, fm, null, opt, null, src).call();
        if (!ok) {
            System.err.println("generated sources do not compile (seed " + seed + ", " + opt + "):\n" + log);
            failed++;
            return;
        }
        done.sort(Comparator.comparing(m -> m.getName()));
        for (Mem m : done) {
            put(m.o.toByteArray());
            own++;
        }
    }

    /** Random sources that always compile. */
    static class Src {
        final Random r;
        final int level;
        final String name;
        final StringBuilder b = new StringBuilder();
        int u = 0;

        Src(Random r, int level, String name) {
            this.r = r;
            this.level = level;
            this.name = name;
        }
        boolean half() { return r.nextBoolean(); }
        int n(int k) { return r.nextInt(k); }
        String pick(String... s) { return s[n(s.length)]; }
        String id() { return "v" + (u++); }

        static String annotations() {
            return "package p; import java.lang.annotation.*;\n"
                + "@Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE,ElementType.METHOD,ElementType.FIELD,ElementType.PARAMETER,ElementType.CONSTRUCTOR}) public @interface An {\n"
                + " int i() default 5; long l() default 1L<<40; double d() default 1.5; float f() default -0f; byte b() default 1; short s() default 2; char c() default 'x'; boolean z() default true;\n"
                + " String t() default \"d\\u0000\\u00e9\\u20ac\\ud83d\\ude00\"; Class<?> k() default int[].class; E e() default E.A; In n() default @In; In[] ns() default {@In(1),@In(2)}; int[] is() default {}; String[] ts() default {\"a\",\"\"}; Class<?>[] ks() default {void.class, String.class}; E[] es() default {E.B};\n"
                + " enum E {A,B{ void x(){} }; void x(){} }\n @Retention(RetentionPolicy.RUNTIME) @interface In { int value() default 0; Deep[] d() default {}; }\n @interface Deep { An.E[] e() default {}; }\n"
                + " @Target({ElementType.TYPE,ElementType.METHOD,ElementType.FIELD,ElementType.PARAMETER,ElementType.CONSTRUCTOR}) @interface Cl { String value() default \"\"; }\n"
                + " @Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE_USE,ElementType.TYPE_PARAMETER}) @Repeatable(Ts.class) @interface T { int value() default 0; }\n"
                + " @Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE_USE,ElementType.TYPE_PARAMETER}) @interface Ts { T[] value(); }\n"
                + " @Target({ElementType.TYPE_USE,ElementType.TYPE_PARAMETER}) @interface C { String[] value() default {}; }\n}\n";
        }

        String an() {
            switch (n(6)) {
                case 0: return "@An ";
                case 1: return "@An(i=" + r.nextInt() + ", l=" + r.nextLong() + "L, f=1e" + (n(20) - 10) + "f, c='" + (char) ('a' + n(26)) + "', z=" + half() + ") ";
                case 2: return "@An(n=@An.In(value=3,d={@An.Deep(e={An.E.A,An.E.B}),@An.Deep}), is={1,2,3}, ks={}, es={An.E.A,An.E.A}) ";
                case 3: return "@An.Cl(\"" + (char) ('a' + n(26)) + "\") ";
                case 4: return "@An(t=\"" + text() + "\", ns={}) @An.Cl ";
                default: return "";
            }
        }
        String ta() {
            switch (n(5)) {
                case 0: return "@An.T ";
                case 1: return "@An.T(" + n(9) + ") @An.T(2) ";
                case 2: return "@An.C({\"a\",\"b\"}) ";
                case 3: return "@An.C @An.T ";
                default: return "";
            }
        }
        String text() {
            StringBuilder s = new StringBuilder();
            for (int i = n(6); i > 0; i--) {
                switch (n(7)) {
                    case 0: s.append("\\u0000"); break;
                    case 1: s.append(String.format("\\u%04x", 0x80 + n(0x780))); break;
                    case 2: s.append(String.format("\\u%04x", 0x800 + n(0xC000))); break;
                    case 3: int c = 0x10000 + n(0x100000);
                        s.append(String.format("\\u%04x\\u%04x", (int) Character.highSurrogate(c), (int) Character.lowSurrogate(c))); break;
                    case 4: s.append(String.format("\\u%04x", 0xE000 + n(0x1FFE))); break;
                    default: s.append((char) ('a' + n(26)));
                }
            }
            return s.toString();
        }

        String unit() {
            b.append("package p; import java.util.*; import java.util.function.*; import java.io.*;\n");
            b.append(an()).append("public ").append(half() ? "" : "abstract ").append(half() ? "strictfp " : "").append("class ").append(name)
                .append("<").append(ta()).append("A, ").append(ta()).append("B extends ").append(ta()).append("Object & ").append(ta()).append("Comparable<").append(ta()).append("? super B>> extends ")
                .append(ta()).append("Base").append(name).append(" implements ").append(ta()).append("Serializable, ").append("Face").append(name).append("<").append(ta()).append("String> {\n");
            int k = 3 + n(8);
            for (int i = 0; i < k; i++) field();
            k = 4 + n(8);
            for (int i = 0; i < k; i++) member();
            b.append("}\n");
            b.append("class Base").append(name).append(" { Base").append(name).append("() {} ").append(half() ? "@Deprecated void old() throws " + ta() + "IOException {}" : "").append(" }\n");
            b.append("interface Face").append(name).append("<X> { default X id(X x) { return x; } static <Y> Y st(").append(an()).append("Y y) { return y; } ")
                .append(level >= 9 ? "private int pr() { return 1; } " : "").append("int K = ").append(n(70000)).append("; }\n");
            b.append("enum En").append(name).append(" { A, B { int z() { return 2; } }, C(3); En").append(name).append("() {} En").append(name).append("(int i) {} int z() { return 1; } }\n");
            if (level >= 16) {
                b.append(an()).append("record Rec").append(name).append("<T>(").append(an()).append("int a, ").append(ta()).append("T t, String... s) { Rec").append(name).append(" { if (a > 3) throw new RuntimeException(); } }\n");
                b.append("sealed interface Se").append(name).append(" permits Se").append(name).append("A, Se").append(name).append("B {}\nfinal class Se").append(name).append("A implements Se").append(name).append(" {}\nnon-sealed class Se").append(name).append("B implements Se").append(name).append(" {}\n");
            }
            return b.toString();
        }

        void field() {
            String v = id();
            String mod = pick("", "public ", "private ", "protected ") + pick("", "static ");
            switch (n(12)) {
                case 0: b.append(an()).append("static final int ").append(v).append(" = ").append(r.nextInt()).append(";\n"); break;
                case 1: b.append("static final long ").append(v).append(" = ").append(r.nextLong()).append("L;\n"); break;
                case 2: b.append("static final double ").append(v).append(" = ").append(pick("1.5", "0.0", "-0.0", "Double.NaN", "Double.MIN_VALUE", "Double.NEGATIVE_INFINITY", "" + r.nextDouble())).append(";\n"); break;
                case 3: b.append("static final float ").append(v).append(" = ").append(pick("1.5f", "-0f", "Float.NaN", "Float.MAX_VALUE")).append(";\n"); break;
                case 4: b.append("static final String ").append(v).append(" = \"").append(text()).append("\";\n"); break;
                case 5: b.append("static final ").append(pick("byte", "short", "boolean", "char").replace("boolean", "byte")).append(" ").append(v).append(" = ").append(n(100)).append(";\n"); break;
                case 6: b.append(mod).append("volatile long ").append(v).append(";\n"); break;
                case 7: b.append(mod).append("transient ").append(an()).append("Object[][] ").append(v).append(";\n"); break;
                case 8: b.append(mod).append("Map<").append(ta()).append("? extends ").append(ta()).append("Number, ").append(ta()).append("List<").append(ta()).append("int[]>> ").append(v).append(";\n"); break;
                case 9: b.append("@Deprecated ").append(mod).append("int ").append(v).append(" = ").append(n(40000)).append(";\n"); break;
                case 10: b.append(mod).append("Map.").append(ta()).append("Entry<String, ?> ").append(v).append(";\n"); break;
                default: b.append("static final boolean ").append(v).append(" = ").append(half()).append(";\n");
            }
        }

        void member() {
            String v = id();
            switch (n(15)) {
                case 0: tableSwitch(v); break;
                case 1: lookupSwitch(v); break;
                case 2:
                    b.append("static int ").append(v).append("(String s) { switch (s) {");
                    for (int i = 0; i < 2 + n(6); i++) b.append(" case \"").append(i % 2 == 0 ? "Aa" : "BB").append(i).append("\": return ").append(n(100000)).append(";");
                    b.append(" default: return -1; } }\n");
                    break;
                case 3:
                    b.append("static int ").append(v).append("(En").append(name).append(" e) { switch (e) { case A: return 1; case C: return 2; } return 0; }\n");
                    break;
                case 4: locals(v, 20 + n(300)); break;
                case 5:
                    b.append("static <X extends Exception> int ").append(v).append("(InputStream in) throws ").append(ta()).append("IOException { int q = 0; try (").append(ta()).append("InputStream i = in; InputStream j = in) { q = i.read(); } catch (")
                        .append(ta()).append("RuntimeException | ").append(ta()).append("Error e) { q++; } finally { q += 2; } try { q /= q; } catch (Throwable t) { try { q--; } finally { q++; } } synchronized (in) { q += 4; } return q; }\n");
                    break;
                case 6:
                    b.append("Runnable ").append(v).append("(").append(an()).append("final int x, String... rest) { long w = ").append(r.nextLong()).append("L; Supplier<String> s = () -> x + \"\\u0001\" + w + rest.length; Function<String,Integer> f = Integer::parseInt; IntFunction<int[]> g = int[]::new; Supplier<List<String>> h = ")
                        .append(ta()).append("ArrayList<String>::new; UnaryOperator<String> i = (").append(ta()).append("String y) -> { ").append(ta()).append("String z = y; return z + f.apply(z); }; return () -> System.out.println(s.get() + g + h + i); }\n");
                    break;
                case 7:
                    b.append("Object ").append(v).append("(int c) { class Loc").append(v).append(" { int d = c; class In { int e = d; } } return new Object() { int k = new Loc").append(v).append("().d; Object o = new Object() {}; @Override public String toString() { return \"\" + k; } }; }\n");
                    break;
                case 8:
                    b.append("static native ").append(pick("int", "long", "double", "void", "Object")).append(" ").append(v).append("(").append(an()).append("int a, long b, double... c);\n");
                    break;
                case 9:
                    b.append("synchronized ").append(ta()).append("Object ").append(v).append("(Object o) { int[] a = new int[").append(n(70000)).append("]; boolean[] z = {true}; char[] c = {'a'}; float[] f = new float[1]; double[] d = {1}; byte[] y = {1}; short[] s = {2}; long[] l = {3L}; int[][][] m = new ").append(ta()).append("int[3][4]").append("[]; String[][] q = new String[2][5]; a[0] = y[0] + s[0] + c[0]; l[0] <<= 3; d[0] %= 2; f[0] = (float) d[0]; return o instanceof ")
                        .append(ta()).append("String ? (").append(ta()).append("String) o : o instanceof int[] ? (int[]) o : z; }\n");
                    break;
                case 10:
                    b.append("<").append(ta()).append("Q extends ").append(ta()).append("Number & ").append(ta()).append("Comparable<Q>> ").append(ta()).append("Q ").append(v).append("(List<").append(ta()).append("? super ").append(ta()).append("Q> x, ").append(ta()).append("Q @An.C [] @An.T [] y) { List<@An.T String> l = new ArrayList<@An.T(7) String>(); this.<@An.T Integer>g").append(v).append("(1); for (").append(ta()).append("String s : l) { @An.C int k = s.length(); } return null; } <G> void g").append(v).append("(G g) {}\n");
                    break;
                case 11:
                    b.append("static double ").append(v).append("(double a, float f, long l, int i) { a += f * l - i; l ^= i >>> 3 | l << 2; i = (int) a % 7; f = -f; a = -a; l = ~l; if (a > f || l <= i && !(f >= a)) i = (byte) i + (short) l + (char) i; return i == 0 ? a : l != 3 ? f : i > 2 ? i : (long) a; }\n");
                    break;
                case 12:
                    b.append("static int ").append(v).append("(int n) { assert n > 3 : \"").append(text()).append("\"; out: for (int i = 0; i < n; i += 1000) { for (int j = 0; ; j -= 200) { if (j < -5000) continue out; if (j == i) break out; do { n--; } while (n > 5); } } return n; }\n");
                    break;
                case 13:
                    b.append("static class Nest").append(v).append("<T> { private int p; protected interface I {} enum X { Y } ").append(an()).append("Nest").append(v).append("(").append(an()).append("int a, ").append(an()).append("T t) { p = a; } int q() { return new Nest").append(v).append("<String>(1, \"\").p; } }\n class Inn").append(v).append(" { ").append(name).append("<A, B> o() { return ").append(name).append(".this; } Inn").append(v).append("(").append(an()).append("int z) {} }\n");
                    break;
                default:
                    b.append("static void ").append(v).append("() { ");
                    for (int i = 0; i < 3; i++) b.append("System.out.println(").append(pick("" + r.nextInt(), r.nextLong() + "L", "" + r.nextDouble(), r.nextFloat() + "f", "\"" + text() + "\"", "String.class", "int[][].class", "'\\u" + String.format("%04x", 0x100 + n(0xD000)) + "'")).append("); ");
                    b.append("}\n");
            }
        }

        void tableSwitch(String v) {
            int lo = (int) (new long[] {Integer.MIN_VALUE, Integer.MAX_VALUE - 40, -20, 0, 1, -100000, r.nextInt() / 2}[n(7)]);
            int k = 3 + n(30);
            b.append("static int ").append(v).append("(int x) { ").append(pad()).append("switch (x) {");
            for (int i = 0; i < k; i++) if (n(8) != 0) b.append(" case ").append(lo + i).append(":").append(half() ? " return " + n(1000) + ";" : "");
            b.append(" default: return 7; } }\n");
        }
        void lookupSwitch(String v) {
            TreeSet<Integer> keys = new TreeSet<>();
            int k = 2 + n(40);
            for (int i = 0; i < k; i++) keys.add(n(5) == 0 ? (half() ? Integer.MIN_VALUE : Integer.MAX_VALUE) : r.nextInt());
            b.append("static int ").append(v).append("(int x) { ").append(pad()).append("switch (x) {");
            for (int key : keys) b.append(" case ").append(key).append(": ").append(half() ? "return " + n(1000) + ";" : "x++;");
            b.append(" } return x; }\n");
        }
        String pad() {
            return pick("", "x = -x; ", "x++; ", "x += 300; ", "x = x * 2; ");
        }
        void locals(String v, int k) {
            b.append("static double ").append(v).append("(int p) { ");
            StringBuilder e = new StringBuilder();
            for (int i = 0; i < k; i++) {
                String x = v + "_" + i;
                switch (n(5)) {
                    case 0: b.append("int ").append(x).append(" = p; ").append(x).append(" += ").append(n(2000) - 1000).append("; "); break;
                    case 1: b.append("long ").append(x).append(" = p; "); break;
                    case 2: b.append("float ").append(x).append(" = p; "); break;
                    case 3: b.append("double ").append(x).append(" = p; "); break;
                    default: b.append("Integer ").append(x).append(" = p; ");
                }
                if (n(3) == 0) e.append(" + ").append(x);
                if (n(20) == 0) b.append("if (p > ").append(i).append(") p = ").append(i).append("; ");
            }
            b.append("return p").append(e).append("; }\n");
        }

        /** A class with more than 256 constants, a body beyond 32 KiB and a long jump over it. */
        String big() {
            b.append("package p;\npublic class Big {\n");
            int k = 300 + n(200);
            b.append(" static String[] s() { return new String[] {");
            for (int i = 0; i < k; i++) b.append("\"k").append(i).append(n(4) == 0 ? text() : "").append("\",");
            b.append("}; }\n static long[] l() { return new long[] {");
            for (int i = 0; i < k; i++) b.append(r.nextLong()).append("L,");
            b.append("}; }\n static double d() { double x = 0; x += ").append(r.nextDouble()).append("; float f = ").append(r.nextFloat()).append("f; return x + f + ").append(r.nextInt()).append("; }\n");
            b.append(" static int far(int n) { int x = 0; for (int i = 0; i < n; i++) { ");
            if (half()) b.append("if (x == 9) continue; ");
            int m = 2600 + n(1200);
            for (int i = 0; i < m; i++) b.append("x = x * ").append(1000 + n(30000)).append(" + i; ");
            b.append("} return x; }\n}\n");
            return b.toString();
        }

        String module() {
            return (half() ? "@Deprecated " : "") + (half() ? "open " : "") + "module m" + n(9) + " {\n requires " + pick("", "static ", "transitive ", "static transitive ") + "java.logging; requires java.compiler;\n exports p" + pick("", " to java.logging, java.sql")
                + ";\n uses java.lang.Runnable; provides java.lang.Runnable with p.R1, p.R2;\n}\n";
        }
    }
}
