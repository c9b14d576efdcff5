package verif;

// C37: loads the repository's entry class and says which native libraries that loaded
public class Load {
    static final StringBuilder loaded = new StringBuilder();
    public static void note(char id) { loaded.append(id); }
    public static void main(String[] a) {
        java.io.PrintStream out = System.out; System.setOut(System.err); String r = "ok";
        for (String k : a) try { if (k.equals("i")) org.boofcpp.BoofCPP.initialize(); else org.boofcpp.BoofCPP.loadlib(); } catch (Throwable e) { r = e.toString().replace('\n', ' '); break; }
        out.println("[" + loaded + "] " + r); out.flush();
    }
}
