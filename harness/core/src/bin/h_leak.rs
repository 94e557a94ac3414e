//! P10: live heap bytes and threads around contexts and calls.
#![allow(dead_code)]
#[path = "../api.rs"]
mod api;
#[path = "../gen.rs"]
mod gen;
#[path = "../p01.rs"]
mod p01;
#[path = "../p04.rs"]
mod p04;
#[path = "../p09.rs"]
mod p09;

use api::*;
use blstrs::Scalar;
use ff::Field;
use h_common::*;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

struct Counting;
static LIVE: [AtomicI64; 32] = [const { AtomicI64::new(0) }; 32];
static BLOCKS: [AtomicI64; 32] = [const { AtomicI64::new(0) }; 32];
fn slot() -> usize {
    // stack addresses differ between threads: a cheap shard key
    let x = 0u8;
    ((&x as *const u8 as usize) >> 20) & 31
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = slot();
        LIVE[s].fetch_add(l.size() as i64, Ordering::Relaxed);
        BLOCKS[s].fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = slot();
        LIVE[s].fetch_sub(l.size() as i64, Ordering::Relaxed);
        BLOCKS[s].fetch_sub(1, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE[slot()].fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn live() -> (i64, i64) {
    (
        LIVE.iter().map(|x| x.load(Ordering::SeqCst)).sum(),
        BLOCKS.iter().map(|x| x.load(Ordering::SeqCst)).sum(),
    )
}

fn tasks() -> Vec<u32> {
    let mut v: Vec<u32> = std::fs::read_dir("/proc/self/task")
        .unwrap()
        .filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok())
        .collect();
    v.sort();
    v
}
fn task_cpu(tid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
fn gettid() -> u32 {
    std::fs::read_link("/proc/thread-self").unwrap().file_name().unwrap().to_str().unwrap().parse().unwrap()
}

/// Waits until the process has that many threads; returns what it ended with.
fn settle(want: usize) -> usize {
    let t = Instant::now();
    loop {
        let n = tasks().len();
        if n == want || t.elapsed() > Duration::from_secs(45) {
            return n;
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 200 { 5 } else { 100 }));
    }
}

fn main() {
    main_with(run);
}

/// A fresh process: what do creating a one-thread context and its first calls start?
#[cfg(feature = "mt")]
fn first_use(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P10/first", 0);
    let r = refm::Ref::eip(rng.nonzero());
    let reqs = p09::requests(&mut rng, &r, 1, 2);
    rep.section("first-use", 1, 1.0, 1, |_, _, c| {
        std::thread::sleep(Duration::from_millis(700));
        let before = tasks().len();
        let ctx = rust_eth_kzg::DASContext::default();
        let made = tasks().len() - before;
        c.eval("threads after creating the default context", made);
        if made != 1 {
            return c.fail(json!({"what": format!("creating the default (one-thread) context started {made} threads")}));
        }
        let mut seen = vec![];
        for k in &reqs {
            let _ = k.exec(&ctx);
            seen.push(tasks().len() - before);
            c.eval("threads after a call in a fresh process", seen.len());
        }
        c.sample = Some(json!({"threads after each call": seen}));
        let n = std::thread::available_parallelism().unwrap().get();
        if seen.iter().any(|x| *x != 1 && *x != 1 + n) {
            return c.fail(json!({"what": "calls on a one-thread context started an unexpected number of threads", "threads after each call": seen}));
        }
        if seen.iter().any(|x| *x == 1 + n) {
            c.fail(json!({"key": "blst-process-pool", "what": format!("the first calls on a one-thread context started {n} more threads (blst's process-wide pool)"), "threads after each call": seen}));
        }
    });
    rep.finish();
}

/// The single-threaded build must never start a thread.
#[cfg(not(feature = "mt"))]
fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P10/single", 0);
    let r = refm::Ref::eip(rng.nonzero());
    let reqs = p09::requests(&mut rng, &r, 1, 2);
    let setup = r.setup_json();
    rep.section("no-threads", 2, 1.0, 1, |i, _, c| {
        std::thread::sleep(Duration::from_millis(700));
        let before = tasks().len();
        let ts = rust_eth_kzg::TrustedSetup::from_json(&setup);
        let ctx = mkctx(&ts, Cfg { width: i as usize * 4, threads: 1 });
        for k in &reqs {
            let _ = k.exec(&ctx);
            let now = tasks().len();
            c.eval("threads after a call in the single-threaded build", (i, c.evals));
            if now != before {
                return c.fail(json!({"what": format!("'{}' started {} threads in the single-threaded build", k.name, now - before)}));
            }
        }
    });
    rep.finish();
}

#[cfg(feature = "mt")]
fn run(args: Args) {
    let mode = args.extra.get("mode").cloned().unwrap_or_default();
    if mode == "first-use" {
        return first_use(args);
    }
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P10/setup", 0);
    let r = refm::Ref::eip(rng.nonzero());
    let setup = r.setup_json();
    let reqs = p09::requests(&mut rng, &r, 1, 4);
    let t = args.thorough;
    let env_default: Option<usize> = args.extra.get("default-threads").map(|x| x.parse().unwrap());
    // blst's process-wide pool is started by the first multi-scalar multiplication and
    // stays: have it before counting (the first-use run looks at it)
    // one request of each kind: operation and outcome
    let mut kinds: Vec<&p09::Req> = vec![];
    for q in &reqs {
        let key = |r: &p09::Req| (std::mem::discriminant(&r.op), r.want.kind(), r.name.split(|c: char| c.is_ascii_digit()).next().unwrap().to_string());
        if !kinds.iter().any(|k| key(k) == key(q)) {
            kinds.push(q);
        }
    }
    {
        let ts = rust_eth_kzg::TrustedSetup::from_json(&setup);
        let ctx = mkctx(&ts, Cfg { width: 0, threads: 1 });
        for k in &kinds {
            let _ = k.exec(&ctx);
        }
    }

    // ---- threads ---------------------------------------------------------
    // the watchdogs of the harness come and go with the sections: count from inside one
    // the sections run in processes of their own
    let when = |m: &str, n: usize| if mode.is_empty() || mode == m { n as u64 } else { 0 };
    let cfgs: Vec<usize> = if env_default.is_some() { vec![0] } else if t { vec![1, 2, 3, 4, 8, 16, 0, 31, 64] } else { vec![1, 2, 3, 8, 0, 16] };
    rep.section("threads", when("threads", cfgs.len()), 1.0, 1, |i, rng, c| {
        std::thread::sleep(Duration::from_millis(700)); // the previous section's watchdog has gone
        let before = tasks();
        let n = cfgs[i as usize];
        let cfg = Cfg { width: 0, threads: n };
        let ts = rust_eth_kzg::TrustedSetup::from_json(&setup);
        let ctx = if n == 1 && rng.chance(1, 2) { rust_eth_kzg::DASContext::default() } else { mkctx(&ts, cfg) };
        let want = match (n, env_default) {
            (0, Some(d)) => d,
            (0, None) => std::thread::available_parallelism().unwrap().get(),
            (n, _) => n,
        };
        let got = settle(before.len() + want);
        c.eval(&format!("threads after creating with {n}"), got);
        if got != before.len() + want {
            return c.fail(json!({"what": format!("creating a context for {want} threads started {}", got as i64 - before.len() as i64), "requested": n}));
        }
        let pool: Vec<u32> = tasks().into_iter().filter(|x| !before.contains(x)).collect();
        let me = gettid();
        let cpu0: f64 = task_cpu(me);
        let all0: f64 = tasks().iter().map(|x| task_cpu(*x)).sum();
        let pool0: f64 = pool.iter().map(|x| task_cpu(*x)).sum();
        for _ in 0..(if t { 3 } else { 1 }) {
            for (q, k) in reqs.iter().enumerate() {
                let o = k.exec(&ctx);
                if o.kind() != k.want.kind() && n != 1 {
                    return c.fail(json!({"what": format!("'{}' gave {}", k.name, o.brief())}));
                }
                let now = tasks().len();
                c.eval("threads after a call", (n, q));
                if now != got {
                    return c.fail(json!({"what": format!("'{}' changed the number of threads from {got} to {now}", k.name), "requested": n}));
                }
            }
        }
        let cpu: f64 = task_cpu(me) - cpu0;
        let all: f64 = tasks().iter().map(|x| task_cpu(*x)).sum::<f64>() - all0;
        let inpool: f64 = pool.iter().map(|x| task_cpu(*x)).sum::<f64>() - pool0;
        let shared = all - inpool - cpu; // blst's pool
        c.sample = Some(json!({"requested": n, "threads started": pool.len(), "cpu seconds of the caller": cpu, "of the pool": inpool, "of other threads": shared}));
        c.eval("work done by the context's threads", n);
        if all > 0.5 && cpu > 0.3 * all {
            return c.fail(json!({"what": format!("the calling thread did {cpu:.2} of {all:.2} CPU seconds (the context's threads {inpool:.2})"), "requested": n}));
        }
        drop(ctx);
        drop(ts);
        let left = settle(before.len());
        c.eval("threads after dropping", n);
        if left != before.len() {
            c.fail(json!({"what": format!("{} threads are left after dropping the context", left as i64 - before.len() as i64), "requested": n}));
        }
    });
    if env_default.is_some() {
        rep.finish();
    }

    // ---- memory of contexts -------------------------------------------------
    rep.section("contexts", when("contexts", 5), 1.0, 1, |i, rng, c| {
        std::thread::sleep(Duration::from_millis(700));
        let base = tasks().len();
        let cfg = [
            Cfg { width: 0, threads: 1 },
            Cfg { width: 3, threads: 2 },
            Cfg { width: 0, threads: 4 },
            Cfg { width: 6, threads: 1 },
            Cfg { width: 0, threads: 0 },
        ][i as usize];
        let rounds = if t { 30 } else { 7 };
        let mut marks = Vec::with_capacity(rounds);
        for _ in 0..rounds {
            {
                let ts = if i % 2 == 0 { rust_eth_kzg::TrustedSetup::from_json(&setup) } else { rust_eth_kzg::TrustedSetup::default() };
                let ctx = mkctx(&ts, cfg);
                for _ in 0..6 {
                    let k = rng.pick(&reqs);
                    let _ = k.exec(&ctx);
                }
                if i == 1 && marks.len() % 2 == 0 {
                    let d = rust_eth_kzg::DASContext::default();
                    drop(d);
                }
            }
            if settle(base) != base {
                return c.fail(json!({"what": "threads are left after dropping a context", "config": format!("{cfg:?}")}));
            }
            std::thread::sleep(Duration::from_millis(30));
            marks.push(live().0);
        }
        for k in 0..rounds {
            c.eval("live bytes after a context's life", (i, k));
        }
        c.sample = Some(json!({"config": format!("{cfg:?}"), "live bytes after each context": marks}));
        // after warm-up the level must not keep rising
        let m = &marks[2..];
        let rises = m.windows(2).filter(|w| w[1] > w[0]).count();
        let growth = m[m.len() - 1] - m[0];
        if growth > 16384 * (m.len() as i64 - 1) && rises * 3 >= 2 * (m.len() - 1) {
            c.fail(json!({"what": format!("{growth} bytes remain after {} contexts were created and dropped", m.len() - 1), "config": format!("{cfg:?}"), "live bytes": marks}));
        }
    });

    // ---- memory of calls -------------------------------------------------------
    let ts = rust_eth_kzg::TrustedSetup::from_json(&setup);
    let ctxs = [mkctx(&ts, Cfg { width: 0, threads: 1 }), mkctx(&ts, Cfg { width: 2, threads: 4 })];
    rep.note("kinds of calls", json!(kinds.iter().map(|k| k.name.clone()).collect::<Vec<_>>()));
    let extra: Vec<(&str, Box<dyn Fn(&rust_eth_kzg::DASContext) -> Out + Sync>)> = vec![
        ("recover: lengths differ", Box::new(|c| recover(c, &[1, 2, 3], &[]))),
        ("recover: out of range", Box::new(|c| recover(c, &[999; 1], &[&[0u8; CELL]]))),
        ("recover: too few", Box::new(|c| recover(c, &[7; 1], &[&[0u8; CELL]]))),
        ("verify: lengths differ", Box::new(|c| verify(c, &[[0xc0; 48]], &[], &[], &[]))),
        ("verify: empty", Box::new(|c| verify(c, &[], &[], &[], &[]))),
        ("verify: index", Box::new(|c| verify(c, &[[0xc0; 48]], &[300], &[vec![0; CELL]], &[[0xc0; 48]]))),
        ("verify: proof bytes", Box::new(|c| { let mut inf = [0; 48]; inf[0] = 0xc0; verify(c, &[inf], &[3], &[vec![0; CELL]], &[[0x11; 48]]) })),
        ("verify: commitment bytes", Box::new(|c| { let mut inf = [0; 48]; inf[0] = 0xc0; verify(c, &[[0x11; 48]], &[3], &[vec![0; CELL]], &[inf]) })),
    ];
    let n = when("calls", (kinds.len() + extra.len()) * 2);
    rep.section("calls", n, 1.0, 1, |i, _rng, c| {
        let ctx = &ctxs[(i % 2) as usize];
        let k = (i / 2) as usize;
        let (name, heavy) = if k < kinds.len() { (kinds[k].name.clone(), kinds[k].heavy) } else { (extra[k - kinds.len()].0.to_string(), false) };
        let call = || {
            let _ = if k < kinds.len() { kinds[k].exec(ctx) } else { extra[k - kinds.len()].1(ctx) };
        };
        // calibrate: about 0.25 s per batch, at least 3 calls
        let t0 = Instant::now();
        call();
        let per = t0.elapsed().as_secs_f64().max(2e-6);
        let m = if heavy { 2 } else { ((if t { 2.0 } else { 0.08 }) / per).clamp(20.0, 3000.0) as usize };
        for _ in 0..m.min(100) {
            call();
        }
        let mut marks = vec![];
        for _ in 0..4 {
            std::thread::sleep(Duration::from_millis(5));
            marks.push(live());
            for _ in 0..m {
                call();
            }
        }
        std::thread::sleep(Duration::from_millis(5));
        marks.push(live());
        c.evals += 4 * m as u64;
        c.eval(&format!("live bytes over repeated '{}'", name.split(|c: char| c.is_ascii_digit()).next().unwrap()), (i, m));
        if i % 11 == 0 {
            c.sample = Some(json!({"call": name, "calls between marks": m, "(live bytes, live blocks)": marks}));
        }
        let per_batch: Vec<i64> = marks.windows(2).map(|w| w[1].0 - w[0].0).collect();
        // a leak grows every batch in proportion to the calls
        let min = *per_batch.iter().min().unwrap();
        if min >= (m as i64) * 8 && min > 256 {
            c.fail(json!({"what": format!("'{name}' leaves about {} bytes per call", min / m as i64), "(live bytes, live blocks)": marks, "calls between marks": m}));
        }
    });
    // ---- memory of calls whose inputs were never seen before -------------------
    // what a call keeps per distinct input would not show when one request is repeated
    const FRESH: [&str; 9] = [
        "verify: one true cell", "verify: one false cell", "verify: hostile points", "verify: eight true cells", "verify: one commitment, new cells",
        "commit", "commit: not canonical", "compute", "recover",
    ];
    rep.section("fresh-inputs", when("fresh-inputs", FRESH.len() * 2), 1.0, 1, |i, rng, c| {
        let ctx = &ctxs[(i % 2) as usize];
        let kind = (i / 2) as usize;
        let m = [100, 100, 250, 16, 60, 6, 6, 2, 2][kind] * if t { 4 } else { 1 };
        enum In {
            V(gen::Batch),
            B(Vec<u8>),
            R(Vec<u64>, Vec<Vec<u8>>),
        }
        // a tuple that is cheap to make: cell constant, commitment on the line through tau^64
        let cheap = |rng: &mut Rng, truth: bool| {
            let (a, b) = (rng.scalar(), rng.nonzero());
            let k = rng.below(128);
            let y = a + b * r.s[k];
            let com = a + b * r.tau.pow_vartime([64]);
            gen::Tuple { c: gen::Fr(com), k, y: vec![gen::Fr(y); 64], pi: gen::Fr(if truth { b } else { b + Scalar::ONE }) }
        };
        let fixed = gen::Fr(rng.scalar());
        let mut make = |rng: &mut Rng| match kind {
            0 => In::V(gen::Batch::of(&[cheap(rng, true)])),
            1 => In::V(gen::Batch::of(&[cheap(rng, false)])),
            2 => {
                let mut b = gen::Batch::of(&[cheap(rng, true)]);
                let v = if rng.chance(1, 2) { &mut b.coms[0] } else { &mut b.proofs[0] };
                if rng.chance(1, 2) {
                    rng.fill(v);
                    v[0] &= 0x7f;
                } else {
                    *v = refm::off_subgroup(rng);
                }
                In::V(b)
            }
            3 => In::V(gen::Batch::of(&(0..8).map(|_| cheap(rng, true)).collect::<Vec<_>>())),
            4 => In::V(gen::Batch::of(&[gen::true_tuple(rng, &r, Some(fixed.0))])),
            5 | 7 => In::B(refm::scalars_to_bytes(&(0..4096).map(|_| rng.scalar()).collect::<Vec<_>>())),
            6 => {
                let mut b = refm::scalars_to_bytes(&(0..4096).map(|_| rng.scalar()).collect::<Vec<_>>());
                let p = rng.below(4096);
                b[32 * p..32 * p + 32].fill(0xff);
                In::B(b)
            }
            _ => {
                let b = gen::blob_family(rng, &r, 0);
                let v = r.coset_values(&b.coeffs);
                let n = rng.range(64, 128);
                let (_, have) = gen::present(rng, n);
                In::R(have.iter().map(|x| *x as u64).collect(), have.iter().map(|x| refm::scalars_to_bytes(&v[*x])).collect())
            }
        };
        let inputs: Vec<Vec<In>> = (0..5).map(|_| (0..m).map(|_| make(rng)).collect()).collect();
        let mut marks = Vec::with_capacity(8);
        let mut kinds = std::collections::BTreeSet::new();
        for (b, batch) in inputs.iter().enumerate() {
            if b > 0 {
                std::thread::sleep(Duration::from_millis(5));
                marks.push(live());
            }
            for x in batch {
                let o = match x {
                    In::V(v) => v.verify(ctx),
                    In::B(v) if kind == 7 => compute(ctx, v),
                    In::B(v) => commit(ctx, v),
                    In::R(k, v) => recover(ctx, k, &v.iter().map(|x| &x[..]).collect::<Vec<_>>()),
                };
                kinds.insert(o.kind());
            }
        }
        std::thread::sleep(Duration::from_millis(5));
        marks.push(live());
        let want = ["valid", "invalid-proof", "input-error", "valid", "valid", "commitment", "input-error", "data", "data"][kind];
        if kinds.iter().any(|k| *k != want) {
            return c.fail(json!({"what": format!("'{}' with new inputs gave {kinds:?}", FRESH[kind])}));
        }
        c.evals += 4 * m as u64;
        c.eval(&format!("live bytes over never-repeated '{}'", FRESH[kind]), (i, m));
        if i % 5 == 0 {
            c.sample = Some(json!({"call": FRESH[kind], "calls between marks": m, "(live bytes, live blocks)": marks}));
        }
        let min = marks.windows(2).map(|w| w[1].0 - w[0].0).min().unwrap();
        if min >= (m as i64) * 8 && min > 256 {
            c.fail(json!({"what": format!("'{}' with inputs never seen before leaves about {} bytes per call", FRESH[kind], min / m as i64), "(live bytes, live blocks)": marks, "calls between marks": m}));
        }
    });
    drop(ctxs);
    rep.finish()
}
