import ethereum.cryptography.CellsAndProofs;
import ethereum.cryptography.LibEthKZG;
import java.util.*;

/** Calls the binding while the Java heap is all but full. */
public class Exhausted {
    interface Call { Object run(); }

    public static void main(String[] a) throws Exception {
        boolean thorough = a[0].equals("thorough");
        Random rng = new Random(Long.parseLong(a[1]));
        LibEthKZG k = new LibEthKZG(false, 1);
        byte[] blob = new byte[131072], malformed = new byte[131072];
        for (int i = 0; i < 4096; i++) blob[32 * i + 9] = (byte) rng.nextInt();
        Arrays.fill(malformed, (byte) 0xff);
        CellsAndProofs cp = k.computeCellsAndKZGProofs(blob);
        byte[] com = k.blobToKZGCommitment(blob);
        long[] ids = new long[64], bad = new long[64];
        byte[][] half = new byte[64][];
        for (int i = 0; i < 64; i++) { ids[i] = 2 * i; half[i] = cp.getCells()[2 * i]; bad[i] = 300; }
        byte[][] coms = {com, com}, cells = {cp.getCells()[3], cp.getCells()[9]}, proofs = {cp.getProofs()[3], cp.getProofs()[9]};
        byte[][] swapped = {cp.getProofs()[9], cp.getProofs()[3]};
        long[] idx = {3, 9};
        Object[] want = {com, cp, cp, true, false, "x", "x", "x"};
        Call[] calls = {() -> k.blobToKZGCommitment(blob), () -> k.computeCellsAndKZGProofs(blob), () -> k.recoverCellsAndKZGProofs(ids, half),
            () -> k.verifyCellKZGProofBatch(coms, idx, cells, proofs), () -> k.verifyCellKZGProofBatch(coms, idx, cells, swapped),
            () -> k.computeCellsAndKZGProofs(malformed), () -> k.recoverCellsAndKZGProofs(bad, half), () -> k.verifyCellKZGProofBatch(coms, new long[1], cells, proofs)};
        int done = 0, oom = 0, wrong = 0;
        // what is needed afterwards exists before the heap is full
        Object got;
        Object[] hog = new Object[1 << 16];
        int rounds = thorough ? 60 : 14;
        for (int round = 0; round < rounds; round++) {
            for (int c = 0; c < calls.length; c++) {
                int n = 0, size = 1 << 20;
                while (size >= 16 && n < hog.length) {
                    try { hog[n] = new byte[size]; n++; } catch (OutOfMemoryError e) { size >>= 1; }
                }
                long spare = round == 0 ? 0 : round < rounds / 2 ? rng.nextInt(4000) : rng.nextInt(340000), freed = 0;
                for (int i = n - 1; i >= 0 && freed < spare; i--) { freed += ((byte[]) hog[i]).length + 16; hog[i] = null; }
                boolean out = false, refused = false;
                got = null;
                try { got = calls[c].run(); }
                catch (OutOfMemoryError e) { out = true; }
                catch (IllegalArgumentException e) { refused = true; }
                for (int i = 0; i < n; i++) hog[i] = null;
                boolean ok = out || (c >= 5 ? refused : !refused && (c == 0 ? Arrays.equals((byte[]) got, (byte[]) want[0]) : want[c].equals(got)));
                if (!ok && wrong++ < 3) System.out.println("BAD with the heap full, call " + c + " gave " + (refused ? "IllegalArgumentException" : String.valueOf(got)));
                if (out) oom++; else done++;
            }
        }
        System.out.println("COUNT calls that ran out of heap " + oom);
        System.out.println("COUNT calls that got through " + done);
        if (!Arrays.equals(k.blobToKZGCommitment(blob), com)) System.out.println("BAD another commitment afterwards");
        k.close();
        System.out.println("DONE");
    }
}
