import os
LOCK = open("/verif/harness/ws/Cargo.lock").read()
HEAD = r'''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
'''
WS = HEAD + r'''
mkdir "$W/ws"
for n in $(ls "$REPO"); do [ "$n" = target ] || cp -r "$REPO/$n" "$W/ws/"; done
sed -i '/bindings\/nim\/rust_code/d' "$W/ws/Cargo.toml"
cp "$HERE/Cargo.lock" "$W/ws/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTFLAGS= CARGO_PROFILE_RELEASE_LTO=off
'''
CDEMO = HEAD + r'''
gcc -g -I "$REPO/bindings/c/build" "$HERE/demo.c" "$REPO/target/debug/libc_eth_kzg.a" -lm -lpthread -ldl -o "$W/demo" || exit 2
timeout 250 "$W/demo"
'''
SEEDS = [
dict(id="c-shared-message", prop="P12",
 edits=[("bindings/c/src/lib.rs", '''        let error_msg = std::ffi::CString::new(error_msg).unwrap();
        CResult {
            status: CResultStatus::Err,
            error_msg: error_msg.into_raw(),
        }''', '''        // Callers that poll get the same error many times in a row, so the last message is kept
        // and handed out again while it has not been freed.
        let mut last = LAST_MESSAGE.lock().unwrap();
        if let Some((text, address)) = last.as_ref() {
            if text == error_msg {
                return CResult {
                    status: CResultStatus::Err,
                    error_msg: *address as *mut std::os::raw::c_char,
                };
            }
        }
        let message = std::ffi::CString::new(error_msg).unwrap().into_raw();
        *last = Some((error_msg.to_owned(), message as usize));
        CResult {
            status: CResultStatus::Err,
            error_msg: message,
        }'''),
  ("bindings/c/src/lib.rs", '''impl CResult {
''', '''static LAST_MESSAGE: std::sync::Mutex<Option<(String, usize)>> = std::sync::Mutex::new(None);

impl CResult {
'''),
  ("bindings/c/src/lib.rs", '''    unsafe {
        let _ = std::ffi::CString::from_raw(c_message);
    };''', '''    let mut last = LAST_MESSAGE.lock().unwrap();
    if matches!(last.as_ref(), Some((_, address)) if *address == c_message as usize) {
        *last = None;
    }
    unsafe {
        let _ = std::ffi::CString::from_raw(c_message);
    };''')],
 needs="two failing calls with the same error before the first message is freed",
 breaks="one message is handed out to two owners, so freeing both is a double free",
 files={"demo.sh": CDEMO, "demo.c": r'''
#include "c_eth_kzg.h"
#include <stdio.h>
#include <string.h>
int main(void) {
    DASContext *c = eth_kzg_das_context_new(false, 1);
    uint8_t *blob = malloc(131072), out[48];
    memset(blob, 0xff, 131072);
    CResult a = eth_kzg_blob_to_kzg_commitment(c, blob, out), b = eth_kzg_blob_to_kzg_commitment(c, blob, out);
    if (a.status != Err || b.status != Err || !a.error_msg || !b.error_msg) return 2;
    if (a.error_msg == b.error_msg) { puts("BROKEN: one message, two owners"); return 1; }
    eth_kzg_free_error_message(a.error_msg);
    if (strlen(b.error_msg) == 0) return 1;
    eth_kzg_free_error_message(b.error_msg);
    return 0;
}
'''}),
dict(id="c-verdict-before-error", prop="P11",
 edits=[("bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", '''    let verified = deref_mut(verified);

''', '''    let verified = deref_mut(verified);
    // Nothing is valid until it has been checked
    *verified = false;

''')],
 needs="a call that reports an error, with the output holding true or not writable",
 breaks="the output is written although the call reports an error",
 files={"demo.sh": CDEMO, "demo.c": r'''
#include "c_eth_kzg.h"
#include <stdio.h>
int main(void) {
    DASContext *c = eth_kzg_das_context_new(false, 1);
    bool v = true;
    uint64_t idx[1] = {0};
    CResult a = eth_kzg_verify_cell_kzg_proof_batch(c, 0, NULL, 1, idx, 0, NULL, 0, NULL, &v);
    if (a.status != Err) return 2;
    if (!v) { puts("BROKEN: output written by a failing call"); return 1; }
    return 0;
}
'''}),
dict(id="c-contiguous-outputs", prop="P11",
 edits=[("bindings/c/src/pointer_utils.rs", '''    let out_cells = ptr_ptr_to_slice_slice_mut(ptr, N);

    for''', '''    // Most callers hand in rows of one allocation, which can be filled front to back.
    let (first, second) = unsafe { (*ptr, *ptr.add(1)) };
    let row = data[0].as_ref().len();
    if second == first.wrapping_add(row) {
        let mut at = first;
        for result in data {
            write_to_slice(at, result.as_ref());
            at = at.wrapping_add(row);
        }
        return;
    }

    let out_cells = ptr_ptr_to_slice_slice_mut(ptr, N);

    for''')],
 needs="output buffers of which the first two are adjacent and others are not",
 breaks="writes outside the output regions and leaves some of them unwritten",
 files={"demo.sh": CDEMO, "demo.c": r'''
#include "c_eth_kzg.h"
#include <stdio.h>
#include <string.h>
int main(void) {
    DASContext *c = eth_kzg_das_context_new(false, 1);
    uint8_t *blob = calloc(1, 131072);
    uint8_t *cells[128], *proofs[128];
    uint8_t *big = calloc(1, 128 * 4096), *pbig = calloc(1, 128 * 4096);
    memset(big, 0xa5, 128 * 4096); memset(pbig, 0xa5, 128 * 4096);
    for (int i = 0; i < 128; i++) { cells[i] = big + 4096 * i; proofs[i] = pbig + 4096 * i; }
    cells[1] = cells[0] + 2048;
    blob[40] = 7;
    CResult a = eth_kzg_compute_cells_and_kzg_proofs(c, blob, cells, proofs);
    if (a.status != Ok) return 2;
    for (int i = 2; i < 128; i++)
        for (int j = 2048; j < 4096; j++)
            if (cells[i][j] != 0xa5) { printf("BROKEN: byte %d behind cell %d was written\n", j - 2048, i); return 1; }
    return 0;
}
'''}),
dict(id="c-recover-shorter-list", prop="P12",
 edits=[("bindings/c/src/recover_cells_and_kzg_proofs.rs", '''    let cell_indices = create_slice_view(cell_indices, cell_indices_length as usize);
''', '''    // There is one index per cell
    let cell_indices = create_slice_view(
        cell_indices,
        cell_indices_length.min(cells.len() as u64) as usize,
    );
''')],
 needs="a recovery with more indices than cells",
 breaks="a request the library refuses is answered with data",
 files={"demo.sh": CDEMO, "demo.c": r'''
#include "c_eth_kzg.h"
#include <stdio.h>
#include <string.h>
int main(void) {
    DASContext *c = eth_kzg_das_context_new(false, 1);
    uint8_t *blob = calloc(1, 131072);
    uint8_t *cells[128], *proofs[128], *oc[128], *op[128];
    uint64_t idx[128];
    for (int i = 0; i < 128; i++) { cells[i] = malloc(2048); proofs[i] = malloc(48); oc[i] = malloc(2048); op[i] = malloc(48); idx[i] = i; }
    if (eth_kzg_compute_cells_and_kzg_proofs(c, blob, cells, proofs).status != Ok) return 2;
    CResult a = eth_kzg_recover_cells_and_proofs(c, 64, (const uint8_t *const *)cells, 70, idx, oc, op);
    if (a.status == Ok) { puts("BROKEN: 64 cells with 70 indices were accepted"); return 1; }
    return 0;
}
'''}),
dict(id="java-index-int", prop="P13",
 edits=[("bindings/java/rust_code/src/lib.rs", '''    Ok(buffer.into_iter().map(|x| x as u64).collect())''', '''    // Column indices are small, Java callers keep them in ints
    Ok(buffer.into_iter().map(|x| u64::from(x as u32)).collect())''')],
 needs="an index whose low 32 bits are a column index and whose high bits are not zero",
 breaks="an index out of range is turned into another index instead of being refused",
 files={"Cargo.lock": LOCK, "demo.sh": WS + r'''
(cd "$W/ws" && cargo build --release --offline -q -p java_eth_kzg) || exit 2
javac -d "$W/cl" "$W"/ws/bindings/java/java_code/src/main/java/ethereum/cryptography/*.java "$HERE/Demo.java" || exit 2
timeout 200 java -Djava.library.path="$W/target/release" -cp "$W/cl" Demo
''', "Demo.java": r'''
import ethereum.cryptography.*;
public class Demo {
    public static void main(String[] a) {
        LibEthKZG k = new LibEthKZG(false, 1);
        byte[] blob = new byte[131072];
        blob[45] = 3;
        byte[] com = k.blobToKZGCommitment(blob);
        CellsAndProofs cp = k.computeCellsAndKZGProofs(blob);
        byte[][] c = {com}, cells = {cp.getCells()[5]}, proofs = {cp.getProofs()[5]};
        if (!k.verifyCellKZGProofBatch(c, new long[] {5}, cells, proofs)) System.exit(2);
        try {
            boolean v = k.verifyCellKZGProofBatch(c, new long[] {(7L << 32) + 5}, cells, proofs);
            System.out.println("BROKEN: index accepted, verdict " + v);
            System.exit(1);
        } catch (IllegalArgumentException e) {
        }
    }
}
'''}),
dict(id="node-oversized-view", prop="P14",
 edits=[("bindings/node/src/lib.rs", '''  slice.try_into().map_err(|err| {''', '''  // Buffers that come out of a pool can have unused space at the end
  slice[..slice.len().min(N)].try_into().map_err(|err| {''')],
 needs="an item longer than its size",
 breaks="oversized items are cut off and accepted instead of being refused",
 files={"Cargo.lock": LOCK, "demo.sh": WS + r'''
(cd "$W/ws" && cargo build --release --offline -q -p node-eth-kzg) || exit 2
cp "$W/target/release/libnode_eth_kzg.so" "$W/kzg.node"
timeout 200 node -e '
const { DasContextJs } = require(process.argv[1])
const c = DasContextJs.create({ usePrecomp: false, numThreads: 1 })
c.blobToKzgCommitment(new Uint8Array(131072))
try { c.blobToKzgCommitment(new Uint8Array(131073)) } catch (e) { process.exit(0) }
console.log("BROKEN: a blob of 131073 bytes was accepted"); process.exit(1)' "$W/kzg.node"
'''}),
dict(id="node-async-cells-view", prop="P14",
 edits=[("bindings/node/src/lib.rs", '''    self.recover_cells_and_kzg_proofs(cell_indices, cells)
  }''', '''    // A column that arrives twice is only a retransmission
    let mut seen = std::collections::HashSet::new();
    let (cell_indices, cells) = cell_indices
      .into_iter()
      .zip(cells)
      .filter(|(index, _)| seen.insert(index.words.clone()))
      .unzip();
    self.recover_cells_and_kzg_proofs(cell_indices, cells)
  }''')],
 needs="the asynchronous form with a repeated index, or with lists of different lengths",
 breaks="the asynchronous form accepts what the synchronous form and the library refuse",
 files={"Cargo.lock": LOCK, "demo.sh": WS + r'''
(cd "$W/ws" && cargo build --release --offline -q -p node-eth-kzg) || exit 2
cp "$W/target/release/libnode_eth_kzg.so" "$W/kzg.node"
timeout 200 node -e '
const { DasContextJs } = require(process.argv[1])
const c = DasContextJs.create({ usePrecomp: false, numThreads: 1 })
const cells = c.computeCells(new Uint8Array(131072))
const idx = cells.map((_, i) => BigInt(i))
c.asyncRecoverCellsAndKzgProofs(idx.slice(0, 70).concat([3n]), cells.slice(0, 71)).then(
  () => { console.log("BROKEN: a repeated index was accepted"); process.exit(1) }, () => process.exit(0))' "$W/kzg.node"
'''}),
dict(id="go-shared-native-context", prop="P15",
 edits=[("bindings/golang/prover.go", '''	self := &DASContext{_inner: C.eth_kzg_das_context_new(C._Bool(true), C.uint32_t(1))}
''', '''	// Contexts are alike and take long to make, so they all use the first one.
	native.Do(func() {
		nativeContext = C.eth_kzg_das_context_new(C._Bool(true), C.uint32_t(1))
	})
	self := &DASContext{_inner: nativeContext}
'''), ("bindings/golang/prover.go", '''func NewProverContext() *DASContext {
''', '''var (
	native        sync.Once
	nativeContext *C.DASContext
)

func NewProverContext() *DASContext {
'''), ("bindings/golang/prover.go", '''	"runtime"
''', '''	"runtime"
	"sync"
''')],
 needs="two Go contexts of which one is collected",
 breaks="the native context is freed while other Go contexts use it",
 files={"demo.sh": HEAD + r'''
mkdir -p "$W/build/x86_64-unknown-linux-gnu"
cp "$REPO"/bindings/golang/prover.go "$REPO"/bindings/golang/go.mod "$W/"
cp "$HERE/demo_test.go.txt" "$W/demo_test.go"
cp "$REPO/bindings/c/build/c_eth_kzg.h" "$W/build/"
gcc -c -I "$W/build" "$HERE/native.c" -o "$W/native.o" && ar rcs "$W/build/x86_64-unknown-linux-gnu/libc_eth_kzg.a" "$W/native.o" || exit 2
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 250 go test -count=1 ./... > "$W/log" 2>&1
rc=$?
grep -q 'BROKEN' "$W/log" && { grep BROKEN "$W/log"; exit 1; }
[ $rc = 0 ] || { cat "$W/log"; exit 2; }
''', "native.c": r'''
#include "c_eth_kzg.h"
struct DASContext { int alive; };
static int dead_uses;
struct DASContext *eth_kzg_das_context_new(bool a, uint32_t n) { (void)a; (void)n; struct DASContext *c = malloc(sizeof *c); c->alive = 1; return c; }
void eth_kzg_das_context_free(struct DASContext *c) { if (c) { if (!c->alive) dead_uses++; c->alive = 0; } }
void eth_kzg_free_error_message(char *m) { free(m); }
struct CResult eth_kzg_blob_to_kzg_commitment(const struct DASContext *c, const uint8_t *b, uint8_t *o) {
    struct CResult r = { Ok, 0 };
    if (!c->alive) dead_uses++;
    o[0] = b[0];
    if (b[1] == 0xee) o[1] = dead_uses;
    return r;
}
''', "demo_test.go.txt": r'''
package eth_kzg

import (
	"runtime"
	"testing"
	"time"
)

//go:noinline
func use(b []byte) { NewProverContext().BlobToKZGCommitment(b) }

func TestLife(t *testing.T) {
	b := make([]byte, BytesPerBlob)
	keep := NewProverContext()
	for i := 0; i < 5; i++ {
		use(b)
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	b[1] = 0xee
	out, err := keep.BlobToKZGCommitment(b)
	if err != nil || out[1] != 0 {
		t.Fatal("BROKEN: a native context was used after it had been freed")
	}
	runtime.KeepAlive(keep)
}
'''}),
dict(id="go-output-reuse", prop="P15",
 edits=[("bindings/golang/prover.go", '''	_inner *C.DASContext
''', '''	_inner *C.DASContext
	// space for results, so that calls do not allocate
	_out [BytesPerCommitment]byte
'''), ("bindings/golang/prover.go", '''	out := make([]byte, 48)
''', '''	out := prover._out[:]
''')],
 needs="a result that is looked at after another call on the same context",
 breaks="a later call overwrites commitments returned before, and concurrent calls mix up their results",
 files={"demo.sh": HEAD + r'''
mkdir -p "$W/build/x86_64-unknown-linux-gnu"
cp "$REPO"/bindings/golang/prover.go "$REPO"/bindings/golang/go.mod "$W/"
cp "$HERE/demo_test.go.txt" "$W/demo_test.go"
cp "$REPO/bindings/c/build/c_eth_kzg.h" "$W/build/"
cp "$REPO/target/debug/libc_eth_kzg.a" "$W/build/x86_64-unknown-linux-gnu/"
cd "$W" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 280 go test -count=1 ./... > "$W/log" 2>&1
rc=$?
grep -q 'BROKEN' "$W/log" && { grep BROKEN "$W/log"; exit 1; }
[ $rc = 0 ] || { cat "$W/log"; exit 2; }
''', "demo_test.go.txt": r'''
package eth_kzg

import "testing"

func TestResults(t *testing.T) {
	k := NewProverContext()
	a, b := make([]byte, BytesPerBlob), make([]byte, BytesPerBlob)
	a[40], b[40] = 1, 2
	x, err := k.BlobToKZGCommitment(a)
	if err != nil {
		t.Fatal(err)
	}
	y, err := k.BlobToKZGCommitment(b)
	if err != nil {
		t.Fatal(err)
	}
	if string(x) == string(y) {
		t.Fatal("BROKEN: the first commitment became the second")
	}
}
'''}),
]
