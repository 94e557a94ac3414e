//! The real C functions, called under Miri the way a C program calls them:
//! blocks of exactly the right size, outputs never initialised, any alignment.
use c_eth_kzg::*;
use rust_eth_kzg as stub;
use std::alloc::{alloc, dealloc, Layout};
use std::ffi::CStr;

/// `len` uninitialised bytes at an odd address of their own block.
struct Block {
    base: *mut u8,
    l: Layout,
    off: usize,
    len: usize,
}
impl Block {
    fn new(len: usize, off: usize) -> Block {
        let l = Layout::from_size_align(len + off, 1).unwrap();
        Block { base: unsafe { alloc(l) }, l, off, len }
    }
    fn of(v: &[u8], off: usize) -> Block {
        let b = Block::new(v.len(), off);
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b.p(), v.len()) };
        b
    }
    fn p(&self) -> *mut u8 {
        unsafe { self.base.add(self.off) }
    }
    fn get(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.p(), self.len) }.to_vec()
    }
}
impl Drop for Block {
    fn drop(&mut self) {
        unsafe { dealloc(self.base, self.l) }
    }
}

fn done(r: CResult, want_ok: bool, what: &str) {
    match r.status {
        CResultStatus::Ok => {
            assert!(want_ok, "{what}: Ok instead of Err");
            assert!(r.error_msg.is_null(), "{what}: a message with Ok");
        }
        CResultStatus::Err => {
            assert!(!want_ok, "{what}: Err instead of Ok");
            let t = unsafe { CStr::from_ptr(r.error_msg) }.to_str().unwrap().to_string();
            assert!(!t.is_empty());
            unsafe { eth_kzg_free_error_message(r.error_msg) };
        }
    }
    println!("call {what}");
}

fn blob(first: u8, off: usize) -> Block {
    let mut v = vec![0x21u8; 131072];
    v[0] = first;
    v[131071] = 9 + off as u8;
    Block::of(&v, off)
}
fn ptrs(v: &[Block]) -> Vec<*const u8> {
    v.iter().map(|b| b.p() as *const u8).collect()
}
fn outs(n: usize, len: usize) -> (Vec<Block>, Vec<*mut u8>) {
    // one block each, every other one at an odd address
    let b: Vec<Block> = (0..n).map(|k| Block::new(len, k % 2)).collect();
    let p = b.iter().map(|x| x.p()).collect();
    (b, p)
}
/// all outputs inside one allocation, in reverse order
fn packed(n: usize, len: usize) -> (Block, Vec<*mut u8>) {
    let b = Block::new(n * len, 1);
    let p = (0..n).map(|k| unsafe { b.p().add((n - 1 - k) * len) }).collect();
    (b, p)
}
fn check(seed: u8, cells: impl Fn(usize) -> Vec<u8>, proofs: impl Fn(usize) -> Vec<u8>, what: &str) {
    for k in 0..128 {
        assert!(cells(k) == stub::cell_of(seed, k), "{what}: cell {k}");
        assert!(proofs(k) == stub::proof_of(seed, k), "{what}: proof {k}");
    }
}

fn session(ctx: *mut DASContext) {
    for off in [0, 1, 3] {
        let b = blob(1, off);
        let o = Block::new(48, off);
        done(eth_kzg_blob_to_kzg_commitment(ctx, b.p(), o.p()), true, "commitment");
        assert!(o.get() == stub::proof_of(stub::seed_of_blob(&b.get()), 200));
    }
    {
        let b = blob(stub::BAD, 1);
        let o = Block::new(48, 0);
        done(eth_kzg_blob_to_kzg_commitment(ctx, b.p(), o.p()), false, "commitment of a malformed blob");
    }
    {
        let b = blob(3, 1);
        let s = stub::seed_of_blob(&b.get());
        let (cb, mut cp) = outs(128, 2048);
        let (pb, mut pp) = outs(128, 48);
        done(eth_kzg_compute_cells_and_kzg_proofs(ctx, b.p(), cp.as_mut_ptr(), pp.as_mut_ptr()), true, "cells into separate blocks");
        check(s, |k| cb[k].get(), |k| pb[k].get(), "compute");
        let (cb, mut cp) = packed(128, 2048);
        let (pb, mut pp) = packed(128, 48);
        done(eth_kzg_compute_cells_and_kzg_proofs(ctx, b.p(), cp.as_mut_ptr(), pp.as_mut_ptr()), true, "cells into one block");
        let (ca, pa) = (cb.get(), pb.get());
        check(s, |k| ca[(127 - k) * 2048..][..2048].to_vec(), |k| pa[(127 - k) * 48..][..48].to_vec(), "compute, packed");
        let b = blob(stub::BAD, 0);
        done(eth_kzg_compute_cells_and_kzg_proofs(ctx, b.p(), cp.as_mut_ptr(), pp.as_mut_ptr()), false, "cells of a malformed blob");
    }
    let items = |n: usize, len: usize, first: u8| -> Vec<Block> {
        (0..n)
            .map(|k| {
                let mut v = vec![k as u8; len];
                if k == n / 2 {
                    v[0] = first;
                }
                Block::of(&v, k % 3)
            })
            .collect()
    };
    for (n, m, first, ok) in [(64, 64, 1, true), (5, 5, 1, true), (3, 2, 1, false), (4, 4, stub::BAD, false), (0, 0, 0, false), (0, 3, 0, false), (3, 0, 0, false)] {
        let cells = items(n, 2048, first);
        let cp = ptrs(&cells);
        let idx: Vec<u64> = (0..m as u64).map(|x| x * 5).collect();
        let (cb, mut cop) = outs(128, 2048);
        let (pb, mut pop) = outs(128, 48);
        let c = if n == 0 { std::ptr::null() } else { cp.as_ptr() };
        let i = if m == 0 { std::ptr::null() } else { idx.as_ptr() };
        done(eth_kzg_recover_cells_and_proofs(ctx, n as u64, c, m as u64, i, cop.as_mut_ptr(), pop.as_mut_ptr()), ok, &format!("recover {n} {m}"));
        if ok {
            let raw: Vec<Vec<u8>> = cells.iter().map(|b| b.get()).collect();
            let refs: Vec<&[u8]> = raw.iter().map(|x| &x[..]).collect();
            check(stub::seed_of_recover(&idx, &refs), |k| cb[k].get(), |k| pb[k].get(), "recover");
        }
    }
    for (n, first_com, first_proof, lens, want) in [
        (3usize, 1u8, 1u8, [0usize; 4], Some(true)),
        (3, 1, stub::FALSE, [0; 4], Some(false)),
        (3, stub::BAD, 1, [0; 4], None),
        (0, 1, 1, [0; 4], Some(true)),
        (2, 1, 1, [2, 0, 0, 0], None),
        (2, 1, 1, [0, 2, 0, 0], None),
        (2, 1, 1, [0, 0, 2, 0], None),
        (2, 1, 1, [0, 0, 0, 2], None),
    ] {
        let coms = items(n - lens[0], 48, first_com);
        let idx: Vec<u64> = (0..(n - lens[1]) as u64).collect();
        let cells = items(n - lens[2], 2048, 1);
        let proofs = items(n - lens[3], 48, first_proof);
        let (a, b, c) = (ptrs(&coms), ptrs(&cells), ptrs(&proofs));
        let null = |v: &Vec<*const u8>| if v.is_empty() { std::ptr::null() } else { v.as_ptr() };
        let v = Block::new(1, 0);
        done(
            eth_kzg_verify_cell_kzg_proof_batch(
                ctx,
                a.len() as u64,
                null(&a),
                idx.len() as u64,
                if idx.is_empty() { std::ptr::null() } else { idx.as_ptr() },
                b.len() as u64,
                null(&b),
                c.len() as u64,
                null(&c),
                v.p() as *mut bool,
            ),
            want.is_some(),
            &format!("verify {n} {lens:?}"),
        );
        if let Some(w) = want {
            assert!(v.get()[0] == w as u8, "verify {n}: {}", v.get()[0]);
        }
    }
}

fn main() {
    let ctx = eth_kzg_das_context_new(false, 1);
    session(ctx);
    #[derive(Clone, Copy)]
    struct Shared(*mut DASContext);
    unsafe impl Send for Shared {}
    let a = Shared(ctx);
    let t: Vec<_> = (0..2)
        .map(|k| {
            std::thread::spawn(move || {
                let a: Shared = a;
                let ctx = a.0;
                let b = blob(k, 1);
                let o = Block::new(48, 1);
                done(eth_kzg_blob_to_kzg_commitment(ctx, b.p(), o.p()), true, "commitment on a thread");
            })
        })
        .collect();
    for x in t {
        x.join().unwrap();
    }
    eth_kzg_das_context_free(ctx);
    eth_kzg_das_context_free(std::ptr::null_mut());
    unsafe { eth_kzg_free_error_message(std::ptr::null_mut()) };
    let ctx = eth_kzg_das_context_new(true, 0);
    eth_kzg_das_context_free(ctx);
    println!("constants {} {} {}", eth_kzg_constant_bytes_per_cell(), eth_kzg_constant_bytes_per_proof(), eth_kzg_constant_cells_per_ext_blob());
    println!("finished");
}
