//! P11 and P12: the C functions called as a C program would call them.
#![allow(dead_code)]
mod corpus;
mod guard;
mod req;

use c_eth_kzg::*;
use guard::*;
use h_common::*;
use req::*;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CStr;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;

/// Bytes the process has allocated and not freed.
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// What a C call delivered.
pub struct Got {
    pub ans: Ans,
    pub msg: Option<Message>,
    /// what is wrong with the status/message pair
    pub bad: Option<String>,
}

/// An error message the caller owns.
pub struct Message {
    p: *mut std::os::raw::c_char,
    text: Vec<u8>,
}
unsafe impl Send for Message {}
impl Message {
    pub fn intact(&self) -> bool {
        unsafe { CStr::from_ptr(self.p).to_bytes() == &self.text[..] }
    }
    pub fn free(self) {
        unsafe { eth_kzg_free_error_message(self.p) }
    }
}

fn judge(r: CResult, ok: impl FnOnce() -> Ans) -> Got {
    match r.status {
        CResultStatus::Ok => Got { ans: ok(), msg: None, bad: (!r.error_msg.is_null()).then(|| "status Ok with an error message".to_string()) },
        CResultStatus::Err => {
            if r.error_msg.is_null() {
                return Got { ans: Ans::Error, msg: None, bad: Some("status Err without a message".into()) };
            }
            let text = unsafe { CStr::from_ptr(r.error_msg) }.to_bytes().to_vec();
            let bad = if text.is_empty() {
                Some("an empty error message".to_string())
            } else if std::str::from_utf8(&text).is_err() {
                Some("an error message that is not UTF-8".to_string())
            } else {
                None
            };
            Got { ans: Ans::Error, msg: Some(Message { p: r.error_msg, text }), bad }
        }
    }
}

struct Ctx(*mut DASContext);
unsafe impl Send for Ctx {}
unsafe impl Sync for Ctx {}

/// What went wrong with memory during a call.
type Memory = Option<String>;

/// Calls with guarded buffers laid out at random.
fn guarded(ctx: *const DASContext, q: &Req, rng: &mut Rng) -> (Got, Memory, String) {
    let mut a = Arena::default();
    let mut mem: Memory = None;
    let mut lay = String::new();
    let null = |rng: &mut Rng, empty: bool| empty && rng.chance(2, 3);
    macro_rules! list {
        ($v:expr) => {
            if null(rng, $v.is_empty()) {
                lay.push_str("null,");
                std::ptr::null()
            } else {
                let (p, n) = a.items(rng, $v);
                lay.push_str(n);
                lay.push(',');
                p
            }
        };
    }
    macro_rules! words {
        ($v:expr) => {
            if null(rng, $v.is_empty()) {
                std::ptr::null()
            } else {
                a.words(rng, $v)
            }
        };
    }
    let unchanged = |mem: &mut Memory, outs: &[(*mut u8, Vec<u8>)], what: &str| {
        for (k, (p, before)) in outs.iter().enumerate() {
            if now(*p, before.len()) != *before {
                *mem = Some(format!("output {what} {k} was written although the call reports an error"));
                return;
            }
        }
    };
    let got = match q {
        Req::Commit(b) => {
            let blob = a.input(rng, b, 1);
            let (out, before) = a.output(rng, 48);
            let g = judge(eth_kzg_blob_to_kzg_commitment(ctx, blob, out), || Ans::Com(now(out, 48)));
            if g.ans == Ans::Error {
                unchanged(&mut mem, &[(out, before)], "commitment");
            }
            g
        }
        Req::Compute(_) | Req::Recover { .. } => {
            let (pc, cells) = a.outputs(rng, 128, CELL);
            let (pp, proofs) = a.outputs(rng, 128, 48);
            let r = match q {
                Req::Compute(b) => {
                    let blob = a.input(rng, b, 1);
                    eth_kzg_compute_cells_and_kzg_proofs(ctx, blob, pc, pp)
                }
                Req::Recover { idx, cells } => {
                    let c = list!(cells);
                    let i = words!(idx);
                    eth_kzg_recover_cells_and_proofs(ctx, cells.len() as u64, c, idx.len() as u64, i, pc, pp)
                }
                _ => unreachable!(),
            };
            let g = judge(r, || {
                Ans::Data(cells.iter().flat_map(|x| now(x.0, CELL)).collect(), proofs.iter().flat_map(|x| now(x.0, 48)).collect())
            });
            if g.ans == Ans::Error {
                unchanged(&mut mem, &cells, "cell");
                unchanged(&mut mem, &proofs, "proof");
            }
            g
        }
        Req::Verify { coms, idx, cells, proofs } => {
            let c = list!(coms);
            let i = words!(idx);
            let ce = list!(cells);
            let p = list!(proofs);
            let (v, _) = a.output(rng, 1);
            let init = rng.below(2) as u8;
            unsafe { *v = init };
            let g = judge(
                eth_kzg_verify_cell_kzg_proof_batch(
                    ctx,
                    coms.len() as u64,
                    c,
                    idx.len() as u64,
                    i,
                    cells.len() as u64,
                    ce,
                    proofs.len() as u64,
                    p,
                    v as *mut bool,
                ),
                || match unsafe { *v } {
                    1 => Ans::Valid,
                    0 => Ans::Invalid,
                    x => panic!("verified is {x}"),
                },
            );
            if g.ans == Ans::Error && unsafe { *v } != init {
                mem = Some("output verified was written although the call reports an error".into());
            }
            g
        }
    };
    if mem.is_none() {
        mem = a.trampled();
    }
    (got, mem, lay)
}

/// Calls with exactly sized heap blocks (AddressSanitizer watches their ends).
fn heap(ctx: *const DASContext, q: &Req) -> Got {
    let ptrs = |v: &[Vec<u8>]| v.iter().map(|x| x.clone().into_boxed_slice()).collect::<Vec<_>>();
    let addr = |v: &[Box<[u8]>]| v.iter().map(|x| x.as_ptr()).collect::<Vec<_>>().into_boxed_slice();
    let outs = |n: usize, len: usize| (0..n).map(|_| vec![0x5au8; len].into_boxed_slice()).collect::<Vec<_>>();
    match q {
        Req::Commit(b) => {
            let b = b.clone().into_boxed_slice();
            let mut o = vec![0u8; 48].into_boxed_slice();
            judge(eth_kzg_blob_to_kzg_commitment(ctx, b.as_ptr(), o.as_mut_ptr()), || Ans::Com(o.to_vec()))
        }
        Req::Verify { coms, idx, cells, proofs } => {
            let (c, ce, p) = (ptrs(coms), ptrs(cells), ptrs(proofs));
            let (ca, cea, pa) = (addr(&c), addr(&ce), addr(&p));
            let i = idx.clone().into_boxed_slice();
            let mut v = Box::new(false);
            judge(
                eth_kzg_verify_cell_kzg_proof_batch(
                    ctx,
                    ca.len() as u64,
                    ca.as_ptr(),
                    i.len() as u64,
                    i.as_ptr(),
                    cea.len() as u64,
                    cea.as_ptr(),
                    pa.len() as u64,
                    pa.as_ptr(),
                    &mut *v,
                ),
                || if *v { Ans::Valid } else { Ans::Invalid },
            )
        }
        _ => {
            let mut oc = outs(128, CELL);
            let mut op = outs(128, 48);
            let mut pc: Box<[*mut u8]> = oc.iter_mut().map(|x| x.as_mut_ptr()).collect();
            let mut pp: Box<[*mut u8]> = op.iter_mut().map(|x| x.as_mut_ptr()).collect();
            let r = match q {
                Req::Compute(b) => {
                    let b = b.clone().into_boxed_slice();
                    eth_kzg_compute_cells_and_kzg_proofs(ctx, b.as_ptr(), pc.as_mut_ptr(), pp.as_mut_ptr())
                }
                Req::Recover { idx, cells } => {
                    let ce = ptrs(cells);
                    let cea = addr(&ce);
                    let i = idx.clone().into_boxed_slice();
                    eth_kzg_recover_cells_and_proofs(ctx, cea.len() as u64, cea.as_ptr(), i.len() as u64, i.as_ptr(), pc.as_mut_ptr(), pp.as_mut_ptr())
                }
                _ => unreachable!(),
            };
            judge(r, || Ans::Data(oc.concat(), op.concat()))
        }
    }
}

fn run(args: Args) {
    let mut rep = Report::new(&args);
    let memory = args.prop == "P11";
    let asan = args.extra.get("mode").map(|m| m == "heap").unwrap_or(false);
    let core = rust_eth_kzg::DASContext::default();
    let mut rng = Rng::new(args.seed, "cabi/pool", 0);
    let pool = Pool::new(&core, &mut rng, 5);
    let ctxs = [
        Ctx(eth_kzg_das_context_new(false, 1)),
        Ctx(eth_kzg_das_context_new(false, 0)),
        Ctx(eth_kzg_das_context_new(!asan, 2)),
    ];
    let held: Mutex<Vec<Message>> = Mutex::new(vec![]);
    let n = if args.thorough { 400_000 } else if asan { 160 } else { 3000 };

    rep.section("calls", n, if memory { 1.0 } else { 0.75 }, args.threads, |i, rng, c| {
        let (d, q) = pool.request(rng, i, false);
        let ctx = &ctxs[(i % 3) as usize];
        let want = if memory { None } else { q.core(&core) };
        if !memory && want.is_none() {
            c.skipped = true; // the core library itself panics: P04 and P08 report that
            return;
        }
        let (g, mem, lay) = if asan { (heap(ctx.0, &q), None, String::new()) } else { guarded(ctx.0, &q, rng) };
        c.eval(&format!("{}: {d} -> {}", q.op(), g.ans.kind()), (q.key(), lay));
        if i < 3 {
            c.sample = Some(json!({"operation": q.op(), "request": d, "outcome": g.ans.kind()}));
        }
        if memory {
            if let Some(m) = mem {
                c.fail(json!({"what": format!("{} ({d}): {m}", q.op())}));
            }
            if let Some(m) = g.msg {
                m.free();
            }
            return;
        }
        if let Some(b) = g.bad {
            return c.fail(json!({"what": format!("{} ({d}): {b}", q.op())}));
        }
        let want = want.unwrap();
        if g.ans != want {
            return c.fail(json!({"what": format!("{} ({d}) gives {} where the library gives {}{}", q.op(), g.ans.kind(), want.kind(),
                if g.ans.kind() == want.kind() { " (other bytes)" } else { "" })}));
        }
        if let Some(m) = g.msg {
            if !m.intact() {
                return c.fail(json!({"what": "an error message changed before it was freed"}));
            }
            let mut h = held.lock().unwrap();
            h.push(m);
            if h.len() > 40 {
                let k = rng.below(h.len());
                let m = h.swap_remove(k);
                drop(h);
                c.eval("message intact while others come and go", i);
                if !m.intact() {
                    c.fail(json!({"what": "an error message changed while the caller owned it", "text": String::from_utf8_lossy(&m.text)}));
                }
                m.free();
            }
        }
    });
    for c in ctxs {
        eth_kzg_das_context_free(c.0);
    }
    let mut c = Case::new();
    // messages outlive the contexts they came from
    for m in held.into_inner().unwrap() {
        c.eval("message intact after its context is gone", c.evals);
        if !m.intact() {
            c.fail(json!({"what": "an error message changed when its context was freed"}));
        }
        m.free();
    }
    eth_kzg_das_context_free(std::ptr::null_mut());
    unsafe { eth_kzg_free_error_message(std::ptr::null_mut()) };
    c.eval("freeing null", 0);
    if !memory {
        use rust_eth_kzg::constants::*;
        c.eval("exported constants", 0);
        let got = (eth_kzg_constant_bytes_per_cell(), eth_kzg_constant_bytes_per_proof(), eth_kzg_constant_cells_per_ext_blob());
        let want = (BYTES_PER_CELL as u64, BYTES_PER_COMMITMENT as u64, CELLS_PER_EXT_BLOB as u64);
        if got != want || want != (2048, 48, 128) {
            c.fail(json!({"what": format!("the exported constants are {got:?}")}));
        }
    }
    rep.absorb("afterwards", 0, c);
    rep.finish()
}

/// What is left of memory after contexts and messages have been given back.
fn life(args: Args) {
    let mut rep = Report::new(&args);
    let core = rust_eth_kzg::DASContext::default();
    let mut rng = Rng::new(args.seed, "cabi/life", 0);
    let pool = Pool::new(&core, &mut rng, 2);
    // blst's process-wide pool and rayon's bookkeeping settle down first
    let reqs: Vec<(String, Req)> = (0..48).map(|i| pool.request(&mut rng, i, false)).collect();
    let ctx = Ctx(eth_kzg_das_context_new(false, 1));
    for _ in 0..1 {
        for (_, q) in &reqs {
            if let Some(m) = heap(ctx.0, q).msg {
                m.free();
            }
        }
    }
    // what is waiting to be freed by other threads
    let live = || {
        let mut last = LIVE.load(Ordering::SeqCst);
        for _ in 0..40 {
            std::thread::sleep(std::time::Duration::from_millis(5));
            let now = LIVE.load(Ordering::SeqCst);
            if now == last {
                break;
            }
            last = now;
        }
        last
    };
    let reps = if args.thorough { 40 } else { 4 };
    let mut c = Case::new();
    for (k, (d, q)) in reqs.iter().enumerate() {
        if k % 16 > 2 && rep.left() < rep.args.budget * 0.3 {
            continue;
        }
        let before = live();
        let mut kind = "";
        for _ in 0..reps {
            let g = heap(ctx.0, q);
            kind = g.ans.kind();
            if let Some(m) = g.msg {
                m.free();
            }
        }
        let grown = live() - before;
        c.eval(&format!("live bytes after repeated {} -> {kind}", q.op()), k);
        // less than the smallest thing a call could forget each time
        if grown >= reps as i64 * 8 {
            // rayon's queues grow and shrink in steps: a leak grows every time
            let mut grew = vec![];
            for _ in 0..4 {
                let before = live();
                for _ in 0..4 * reps {
                    if let Some(m) = heap(ctx.0, q).msg {
                        m.free();
                    }
                }
                grew.push(live() - before);
            }
            if grew.iter().all(|g| *g >= 4 * reps as i64 * 8) {
                c.fail(json!({"what": format!("every {} calls of {} ({d}, {kind}) with their messages freed leave more behind: {grew:?} bytes", 4 * reps, q.op())}));
                break;
            }
        }
    }
    eth_kzg_das_context_free(ctx.0);
    // contexts
    let cycle = |pre: bool, threads: u32| {
        let x = Ctx(eth_kzg_das_context_new(pre, threads));
        if let Some(m) = heap(x.0, &reqs[0].1).msg {
            m.free();
        }
        eth_kzg_das_context_free(x.0);
    };
    for (pre, threads, times) in [(false, 1, 6), (false, 3, 6), (true, 1, 2)] {
        cycle(pre, threads);
        let before = live();
        for _ in 0..times {
            cycle(pre, threads);
        }
        let grown = live() - before;
        c.eval("live bytes after contexts created and freed", (pre, threads));
        c.sample = Some(json!({"precomputation": pre, "threads": threads, "contexts created and freed": times, "bytes left": grown}));
        if grown > times * 16 * 1024 {
            c.fail(json!({"what": format!("{times} contexts (precomputation {pre}, {threads} threads) created and freed leave {grown} bytes")}));
        }
    }
    rep.absorb("life", 0, c);
    rep.finish()
}

fn main() {
    main_with(|a| match a.prop.as_str() {
        "CORPUS" => corpus::write(&a),
        "LIFE" => life(a),
        _ => run(a),
    });
}
