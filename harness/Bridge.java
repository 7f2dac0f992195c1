import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import xyz.omkar.tokenizers.Tokenizer;

/** Runs calls of the Java class and writes what they give, one line per call. */
public class Bridge {
    static String str(String hex) {
        if (hex.equals("null")) {
            return null;
        }
        int from = 1;               // a leading '.' marks a string
        StringBuilder b = new StringBuilder();
        for (int i = from; i + 4 <= hex.length(); i += 4) {
            b.append((char) Integer.parseInt(hex.substring(i, i + 4), 16));
        }
        return b.toString();
    }

    static String hex(String s) {
        if (s == null) {
            return "null";
        }
        StringBuilder b = new StringBuilder(".");
        for (int i = 0; i < s.length(); i++) {
            b.append(Integer.toHexString(0x10000 | s.charAt(i)), 1, 5);
        }
        return b.toString();
    }

    static int[] ids(String s) {
        if (s.equals("null")) {
            return null;
        }
        if (s.equals(".")) {
            return new int[0];
        }
        String[] p = s.substring(1).split(",");
        int[] r = new int[p.length];
        for (int i = 0; i < p.length; i++) {
            r[i] = Integer.parseInt(p[i]);
        }
        return r;
    }

    /** calls of several threads at once: par 3;enc ...;dec ... */
    static String par(final ArrayList<Tokenizer> toks, String line) throws InterruptedException {
        final String[] calls = line.split(";");
        final int n = Integer.parseInt(calls[0].split(" ")[1]);
        final String[] got = new String[calls.length];
        final java.util.concurrent.CyclicBarrier start = new java.util.concurrent.CyclicBarrier(n);
        Thread[] ts = new Thread[n];
        for (int k = 0; k < n; k++) {
            final int id = k;
            ts[k] = new Thread(() -> {
                try {
                    start.await();
                } catch (Exception e) {
                    return;
                }
                for (int i = 1 + id; i < calls.length; i += n) {
                    got[i] = call(toks, calls[i].split(" "));
                }
            });
            ts[k].start();
        }
        for (Thread t : ts) {
            t.join();
        }
        StringBuilder b = new StringBuilder("par");
        for (int i = 1; i < calls.length; i++) {
            b.append(';').append(got[i]);
        }
        return b.toString();
    }

    static Tokenizer at(ArrayList<Tokenizer> toks, String[] f, int k) {
        return toks.get(toks.size() - 1 - (f.length > k ? Integer.parseInt(f[k]) : 0));
    }

    static String call(ArrayList<Tokenizer> toks, String[] f) {
        try {
            switch (f[0]) {
                case "new":
                    toks.add(null);
                    toks.set(toks.size() - 1, new Tokenizer(str(f[1])));
                    return "ok";
                case "enc": {
                    Tokenizer t = at(toks, f, 3);
                    if (t == null) {
                        return "none";
                    }
                    int[] r = t.encode(str(f[1]), f[2].equals("1"));
                    if (r == null) {
                        return "ids null";
                    }
                    StringBuilder b = new StringBuilder("ids .");
                    for (int i = 0; i < r.length; i++) {
                        if (i > 0) {
                            b.append(',');
                        }
                        b.append(r[i]);
                    }
                    return b.toString();
                }
                case "dec": {
                    Tokenizer t = at(toks, f, 3);
                    if (t == null) {
                        return "none";
                    }
                    int[] given = ids(f[1]);
                    String text = t.decode(given, f[2].equals("1"));
                    if (!java.util.Arrays.equals(given, ids(f[1]))) {
                        return "changed its argument";
                    }
                    return "text " + hex(text);
                }
                default:
                    return "badop";
            }
        } catch (Throwable e) {
            return "threw " + e.getClass().getName() + " " + hex(String.valueOf(e.getMessage()));
        }
    }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        PrintStream out = new PrintStream(System.out, false, "US-ASCII");
        ArrayList<Tokenizer> toks = new ArrayList<>();
        String line;
        while ((line = in.readLine()) != null) {
            String r = line.startsWith("par ") ? par(toks, line) : call(toks, line.split(" "));
            out.println("@ " + r);
            out.flush();
        }
        out.println("@ done");
        out.flush();
        Runtime.getRuntime().halt(0);
    }
}
