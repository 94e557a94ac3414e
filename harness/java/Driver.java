import ethereum.cryptography.CellsAndProofs;
import ethereum.cryptography.LibEthKZG;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

/** Calls the Java binding with the corpus and with everything a Java program can get wrong. */
public class Driver {
    static byte[] data;
    static final AtomicInteger bad = new AtomicInteger();
    static final ConcurrentHashMap<String, AtomicLong> counts = new ConcurrentHashMap<>();

    static void complain(String what) {
        if (bad.incrementAndGet() <= 5) System.out.println("BAD " + what.replace('\n', ' '));
    }

    static void count(String what) {
        counts.computeIfAbsent(what, k -> new AtomicLong()).incrementAndGet();
    }

    static byte[] item(String t) {
        int c = t.indexOf(':');
        int o = Integer.parseInt(t.substring(0, c)), n = Integer.parseInt(t.substring(c + 1));
        return Arrays.copyOfRange(data, o, o + n);
    }

    static byte[][] items(String t) {
        if (t.equals("-")) return new byte[0][];
        String[] p = t.split(",");
        byte[][] r = new byte[p.length][];
        for (int i = 0; i < p.length; i++) r[i] = item(p[i]);
        return r;
    }

    static long[] words(String t) {
        if (t.equals("-")) return new long[0];
        String[] p = t.split(",");
        long[] r = new long[p.length];
        for (int i = 0; i < p.length; i++) r[i] = Long.parseUnsignedLong(p[i]);
        return r;
    }

    interface Call {
        Object run();
    }

    /** What a call came to: its value, or the class of what it threw. */
    static Object outcome(Call f) {
        try {
            return f.run();
        } catch (Throwable e) {
            if (e instanceof IllegalArgumentException) {
                if (e.getMessage() == null || e.getMessage().isEmpty()) return "IllegalArgumentException without a message";
                return "error";
            }
            return e.getClass().getName() + ": " + e.getMessage();
        }
    }

    static boolean flat(byte[][] a, byte[] want, int n, int len) {
        if (a == null || a.length != n) return false;
        for (int i = 0; i < n; i++) {
            if (a[i] == null || a[i].length != len) return false;
            if (!Arrays.equals(a[i], Arrays.copyOfRange(want, i * len, i * len + len))) return false;
        }
        return true;
    }

    static String judge(String want, Object got) {
        if (want.startsWith("com=")) {
            return got instanceof byte[] && Arrays.equals((byte[]) got, item(want.substring(4))) ? null : describe(got);
        }
        if (want.startsWith("data=")) {
            if (!(got instanceof CellsAndProofs)) return describe(got);
            String[] p = want.substring(5).split(",");
            CellsAndProofs c = (CellsAndProofs) got;
            byte[] cells = item(p[0]), proofs = item(p[1]);
            if (!flat(c.getCells(), cells, 128, 2048)) return "other cells";
            if (!flat(c.getProofs(), proofs, 128, 48)) return "other proofs";
            byte[] all = c.toBytes();
            byte[] both = Arrays.copyOf(cells, cells.length + proofs.length);
            System.arraycopy(proofs, 0, both, cells.length, proofs.length);
            if (!Arrays.equals(all, both)) return "other bytes from toBytes";
            // no two results share an array
            Set<byte[]> seen = Collections.newSetFromMap(new IdentityHashMap<>());
            for (byte[] x : c.getCells()) if (!seen.add(x)) return "one array used for two cells";
            for (byte[] x : c.getProofs()) if (!seen.add(x)) return "one array used twice";
            return null;
        }
        Object w = want.equals("valid") ? Boolean.TRUE : want.equals("invalid") ? Boolean.FALSE : "error";
        return w.equals(got) ? null : describe(got);
    }

    static String describe(Object o) {
        if (o instanceof byte[]) return "a byte array of " + ((byte[]) o).length;
        if (o instanceof CellsAndProofs) return "cells and proofs";
        return String.valueOf(o);
    }

    static byte[][] copy(byte[][] a) {
        byte[][] r = new byte[a.length][];
        for (int i = 0; i < a.length; i++) r[i] = a[i].clone();
        return r;
    }

    static final ConcurrentLinkedQueue<Object[]> kept = new ConcurrentLinkedQueue<>();

    static void recheck(int n) {
        for (int i = 0; i < n; i++) {
            Object[] k = kept.poll();
            if (k == null) return;
            count("results looked at again");
            if (judge((String) k[0], k[1]) != null) complain("the result of " + k[2] + " changed while other calls ran");
        }
    }

    static void line(LibEthKZG kzg, String l, String who) {
        String[] t = l.split(" # ")[0].split(" ");
        String what = l.contains(" # ") ? l.substring(l.indexOf(" # ") + 3) : "";
        String op = t[1], want = t[2];
        Object got;
        boolean same;
        switch (op) {
            case "commit": {
                byte[] b = item(t[3]), k = b.clone();
                got = outcome(() -> kzg.blobToKZGCommitment(b));
                same = Arrays.equals(b, k);
                break;
            }
            case "compute": {
                byte[] b = item(t[3]), k = b.clone();
                got = outcome(() -> kzg.computeCellsAndKZGProofs(b));
                same = Arrays.equals(b, k);
                break;
            }
            case "recover": {
                long[] w = words(t[3]), kw = w.clone();
                byte[][] c = items(t[4]), kc = copy(c);
                got = outcome(() -> kzg.recoverCellsAndKZGProofs(w, c));
                same = Arrays.equals(w, kw) && Arrays.deepEquals(c, kc);
                break;
            }
            default: {
                byte[][] a = items(t[3]), b = items(t[5]), c = items(t[6]);
                byte[][] ka = copy(a), kb = copy(b), kc = copy(c);
                long[] w = words(t[4]), kw = w.clone();
                got = outcome(() -> kzg.verifyCellKZGProofBatch(a, w, b, c));
                same = Arrays.equals(w, kw) && Arrays.deepEquals(a, ka) && Arrays.deepEquals(b, kb) && Arrays.deepEquals(c, kc);
            }
        }
        count(who + " " + op + " -> " + (want.contains("=") ? want.substring(0, want.indexOf('=')) : want));
        String e = judge(want, got);
        // results are values: later calls leave them alone
        if (e == null && want.contains("=")) {
            kept.add(new Object[] {want, got, op + " (" + what + ", request " + t[0] + ")"});
            if (kept.size() > 60) recheck(20);
        }
        if (e != null) complain(who + ": " + op + " (" + what + ", request " + t[0] + ") gave " + e + " where the library gives " + want);
        if (!same) complain(who + ": " + op + " (" + what + ", request " + t[0] + ") changed its arguments");
    }

    static void expect(String name, String want, Call f) {
        Object o = outcome(f);
        count("hostile arguments");
        String e = judge(want, o);
        if (e != null) complain(name + " gave " + e + " instead of " + want);
    }

    /** Waits for threads that run calls; one that never returns ends the program. */
    static void join(List<Thread> ts, String what) throws Exception {
        long end = System.nanoTime() + 200_000_000_000L;
        for (Thread t : ts) {
            t.join(Math.max(1, (end - System.nanoTime()) / 1_000_000));
            if (t.isAlive()) {
                complain(what + ": a call never returns");
                System.out.flush();
                Runtime.getRuntime().halt(1);
            }
        }
    }

    static long rss() throws Exception {
        return Long.parseLong(Files.readString(Path.of("/proc/self/statm")).split(" ")[1]) * 4096;
    }

    public static void main(String[] a) throws Exception {
        Path dir = Path.of(a[0]);
        boolean thorough = a[1].equals("thorough");
        long seed = Long.parseLong(a[2]);
        data = Files.readAllBytes(dir.resolve("data.bin"));
        List<String> lines = Files.readAllLines(dir.resolve("index.txt"));
        Random rng = new Random(seed);

        // several contexts at once; every request on one of them, many threads
        LibEthKZG one = new LibEthKZG(false, 1), three = new LibEthKZG(false, 3), dflt = new LibEthKZG(false, 0);
        LibEthKZG[] all = {one, three, dflt};
        int n = 6;
        AtomicInteger next = new AtomicInteger();
        AtomicBoolean stop = new AtomicBoolean();
        Thread garbage = new Thread(() -> {
            List<byte[]> keep = new ArrayList<>();
            while (!stop.get()) {
                for (int i = 0; i < 200; i++) keep.add(new byte[1 << 13]);
                if (keep.size() > 2000) keep.subList(0, 1500).clear();
                if (ThreadLocalRandom.current().nextInt(40) == 0) System.gc();
                try { Thread.sleep(1); } catch (InterruptedException e) { return; }
            }
        });
        garbage.setDaemon(true);
        garbage.start();
        List<Thread> ts = new ArrayList<>();
        for (int k = 0; k < n; k++) {
            Thread t = new Thread(() -> {
                int i;
                while ((i = next.getAndIncrement()) < lines.size()) line(all[i % 3], lines.get(i), "shared instance");
            });
            t.start();
            ts.add(t);
        }
        join(ts, "a shared instance");
        recheck(Integer.MAX_VALUE);

        // nulls, ragged arrays, indices with the top bit set
        String ver = null, rec = null, com = null;
        for (String l : lines) {
            String[] t = l.split(" ");
            if (t[1].equals("verify") && t[2].equals("valid") && t[4].split(",").length > 3) ver = l;
            if (t[1].equals("recover") && t[2].startsWith("data")) rec = l;
            if (t[1].equals("commit") && t[2].startsWith("com")) com = l;
        }
        String[] v = ver.split(" # ")[0].split(" "), r = rec.split(" # ")[0].split(" "), b = com.split(" # ")[0].split(" ");
        expect("null blob for a commitment", "error", () -> one.blobToKZGCommitment(null));
        expect("null blob for cells", "error", () -> one.computeCellsAndKZGProofs(null));
        expect("empty blob", "error", () -> one.blobToKZGCommitment(new byte[0]));
        expect("empty blob for cells", "error", () -> one.computeCellsAndKZGProofs(new byte[0]));
        for (int m = 1; m < 16; m++) {
            byte[][] x = (m & 1) != 0 ? null : items(v[3]), y = (m & 4) != 0 ? null : items(v[5]), z = (m & 8) != 0 ? null : items(v[6]);
            long[] w = (m & 2) != 0 ? null : words(v[4]);
            expect("null arguments (mask " + m + ") of verification", "error", () -> one.verifyCellKZGProofBatch(x, w, y, z));
        }
        expect("null indices of recovery", "error", () -> one.recoverCellsAndKZGProofs(null, items(r[4])));
        expect("null cells of recovery", "error", () -> one.recoverCellsAndKZGProofs(words(r[3]), null));
        expect("nulls of recovery", "error", () -> one.recoverCellsAndKZGProofs(null, null));
        for (int round = 0; round < (thorough ? 600 : 60); round++) {
            LibEthKZG k = all[round % 3];
            byte[][] x = items(v[3]), y = items(v[5]), z = items(v[6]), c = items(r[4]);
            long[] w = words(v[4]), q = words(r[3]);
            byte[][][] lists = {x, y, z, c};
            int li = rng.nextInt(4), at = rng.nextInt(lists[li].length);
            byte[] old = lists[li][at];
            String name;
            if (round % 2 == 0) {
                int[] sizes = {0, 1, old.length - 1, old.length + 1, 2 * old.length, 31, 32, 1 << 16};
                byte[] nu = rng.nextInt(3) == 0 ? null : new byte[sizes[rng.nextInt(sizes.length)]];
                if (nu != null && nu.length == old.length) continue;
                lists[li][at] = nu;
                name = "list " + li + " with an item " + (nu == null ? "null" : "of " + nu.length);
                if (li == 3) expect(name, "error", () -> k.recoverCellsAndKZGProofs(q, c));
                else expect(name, "error", () -> k.verifyCellKZGProofBatch(x, w, y, z));
            } else {
                long[] vals = {-1, Long.MIN_VALUE, Long.MAX_VALUE, 128, 256, 1L << 32, (1L << 32) + 5, -128, Long.MIN_VALUE + 7, 0xffffffff00000000L};
                long val = vals[rng.nextInt(vals.length)];
                if (rng.nextBoolean()) {
                    w[rng.nextInt(w.length)] = val;
                    expect("verification index " + val, "error", () -> k.verifyCellKZGProofBatch(x, w, y, z));
                } else {
                    q[rng.nextInt(q.length)] = val;
                    expect("recovery index " + val, "error", () -> k.recoverCellsAndKZGProofs(q, c));
                }
            }
        }
        // the same array many times, and very many items
        {
            byte[] c = item(v[3].split(",")[0]), y = item(v[5].split(",")[0]), z = item(v[6].split(",")[0]);
            int m = thorough ? 60000 : 8000;
            byte[][] x = new byte[m][], yy = new byte[m][], zz = new byte[m][];
            Arrays.fill(x, c);
            Arrays.fill(yy, y);
            Arrays.fill(zz, z);
            long[] w = new long[m];
            Arrays.fill(w, words(v[4])[0]);
            w[m - 1] = 128;
            expect(m + " items", "error", () -> one.verifyCellKZGProofBatch(x, w, yy, zz));
            byte[] y0 = yy[0];
            yy[m - 1] = new byte[0];
            w[m - 1] = w[0];
            expect(m + " items, the last one empty", "error", () -> one.verifyCellKZGProofBatch(x, w, yy, zz));
            int s = 60;
            expect("one tuple " + s + " times", "valid", () -> one.verifyCellKZGProofBatch(Arrays.copyOf(x, s), Arrays.copyOf(w, s), Arrays.copyOf(yy, s), Arrays.copyOf(zz, s)));
        }
        expect("a genuine batch afterwards", v[2], () -> one.verifyCellKZGProofBatch(items(v[3]), words(v[4]), items(v[5]), items(v[6])));
        if (LibEthKZG.BYTES_PER_COMMITMENT != 48 || LibEthKZG.BYTES_PER_PROOF != 48 || LibEthKZG.BYTES_PER_FIELD_ELEMENT != 32
                || LibEthKZG.BYTES_PER_BLOB != 131072 || LibEthKZG.MAX_NUM_COLUMNS != 128 || LibEthKZG.BYTES_PER_CELL != 2048)
            complain("a constant is wrong");

        // results are values
        {
            CellsAndProofs p = one.recoverCellsAndKZGProofs(words(r[3]), items(r[4])), q = three.recoverCellsAndKZGProofs(words(r[3]), items(r[4]));
            count("equality of results");
            if (!p.equals(q) || p.hashCode() != q.hashCode() || p.equals(null) || p.equals("x")) complain("equal results are not equal");
            q.proofs[127][47] ^= 1;
            if (p.equals(q)) complain("different results are equal");
        }

        // memory: failing calls must not leave anything behind
        stop.set(true);
        garbage.join();
        {
            byte[] wrong = new byte[131071], noncanon = item(b[3]);
            Arrays.fill(noncanon, 0, 32, (byte) 0xff);
            byte[][] x = items(v[3]), y = items(v[5]), z = items(v[6]), c = items(r[4]);
            long[] w = words(v[4]), q = words(r[3]).clone();
            long[] dup = q.clone();
            dup[1] = dup[0];
            byte[][] ragged = c.clone();
            ragged[c.length - 1] = new byte[2047];
            List<Call> calls = List.of(() -> one.blobToKZGCommitment(wrong), () -> one.blobToKZGCommitment(noncanon), () -> one.computeCellsAndKZGProofs(noncanon),
                () -> one.recoverCellsAndKZGProofs(dup, c), () -> one.recoverCellsAndKZGProofs(q, ragged),
                () -> one.verifyCellKZGProofBatch(x, new long[0], y, z), () -> one.verifyCellKZGProofBatch(null, w, y, z),
                () -> one.blobToKZGCommitment(item(b[3])));
            int[] reps = {1200, 1200, 1200, 500, 500, 3000, 20000, 1000};
            for (int i = 0; i < calls.size(); i++) {
                long grown = 0;
                // three times in a row, each time more than the collector could explain
                int grew = 0;
                for (int j = 0; j < 30; j++) outcome(calls.get(i));
                for (int round = 0; round < 3; round++) {
                    System.gc();
                    long before = rss();
                    for (int j = 0; j < reps[i] / (thorough ? 1 : 3); j++) outcome(calls.get(i));
                    System.gc();
                    grown = rss() - before;
                    if (grown > 24L << 20) grew++;
                    else break;
                }
                count("resident memory after repeated calls");
                if (grew == 3) complain("repeated failing call " + i + " grows the process by " + grown + " bytes every " + reps[i] + " calls");
            }
        }

        // contexts come and go
        for (int i = 0; i < (thorough ? 60 : 8); i++) {
            try (LibEthKZG k = new LibEthKZG(false, 1 + i % 3)) {
                line(k, com, "short-lived instance");
            }
        }
        {
            LibEthKZG k = new LibEthKZG(); // precomputation, the default
            line(k, rec, "default instance");
            line(k, com, "default instance");
            k.close();
        }
        // destroyed instances
        for (LibEthKZG k : all) {
            k.destroy();
            k.destroy();
            k.close();
            List<Call> calls = List.of(() -> k.blobToKZGCommitment(item(b[3])), () -> k.computeCellsAndKZGProofs(item(b[3])),
                () -> k.verifyCellKZGProofBatch(items(v[3]), words(v[4]), items(v[5]), items(v[6])), () -> k.verifyCellKZGProofBatch(null, null, null, null),
                () -> k.recoverCellsAndKZGProofs(words(r[3]), items(r[4])), () -> k.blobToKZGCommitment(null));
            for (Call f : calls) {
                Object o = outcome(f);
                count("calls on a destroyed instance");
                if (!String.valueOf(o).startsWith("java.lang.IllegalStateException")) complain("a destroyed instance gave " + describe(o));
            }
        }
        // closed by several threads, and while calls are running
        for (int i = 0; i < (thorough ? 150 : 24); i++) {
            LibEthKZG k = new LibEthKZG(false, 2);
            line(k, com, "instance about to be closed");
            boolean busy = i % 2 == 1;
            CyclicBarrier bar = new CyclicBarrier(busy ? 8 : 4);
            List<Thread> cs = new ArrayList<>();
            for (int j = 0; j < (busy ? 8 : 4); j++) {
                boolean closes = !busy || j >= 6;
                boolean verifies = j % 2 == 0;
                long pause = busy && closes ? rng.nextInt(6_000_000) : 0;
                Thread t = new Thread(() -> {
                    try { bar.await(); } catch (Exception e) { return; }
                    if (closes) {
                        long t0 = System.nanoTime();
                        while (System.nanoTime() - t0 < pause) Thread.onSpinWait();
                        k.close();
                        return;
                    }
                    for (int m = 0; m < 50; m++) {
                        Object o = verifies ? outcome(() -> k.verifyCellKZGProofBatch(items(v[3]), words(v[4]), items(v[5]), items(v[6])))
                                            : outcome(() -> k.blobToKZGCommitment(item(b[3])));
                        count("calls on an instance being closed");
                        if (String.valueOf(o).startsWith("java.lang.IllegalStateException")) break;
                        String e = judge(verifies ? v[2] : b[2], o);
                        if (e != null) { complain("a call on an instance being closed gave " + e); break; }
                    }
                });
                t.start();
                cs.add(t);
            }
            join(cs, "an instance being closed");
            count("instances closed by several threads");
        }
        counts.forEach((k, c) -> System.out.println("COUNT " + k + " " + c));
        System.out.println("DONE");
    }
}
