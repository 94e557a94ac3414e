//! P09: a shared context behaves like a pure function of its arguments under
//! any history and any concurrency. Requests come with their true outcome,
//! computed by the reference, and in families of near twins (same commitments,
//! same indices, same sizes, one thing different), so that anything remembered
//! from another call shows.
use crate::api::*;
use crate::gen::{self, Batch};
use crate::p01;
use crate::p04::bad_scalar;
use h_common::refm::*;
use h_common::*;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

pub enum Op {
    Commit(Vec<u8>),
    Compute(Vec<u8>),
    Recover(Vec<u64>, Vec<Vec<u8>>),
    Verify(Batch),
}
pub struct Req {
    pub name: String,
    pub op: Op,
    pub want: Out,
    pub heavy: bool,
}

impl Req {
    pub fn exec(&self, ctx: &rust_eth_kzg::DASContext) -> Out {
        match &self.op {
            Op::Commit(b) => commit(ctx, b),
            Op::Compute(b) => compute(ctx, b),
            Op::Recover(i, c) => {
                let cs: Vec<&[u8]> = c.iter().map(|x| x.as_slice()).collect();
                recover(ctx, i, &cs)
            }
            Op::Verify(b) => b.verify(ctx),
        }
    }
}

pub fn requests(rng: &mut Rng, r: &Ref, blobs: usize, verifies: usize) -> Vec<Req> {
    let mut v = vec![];
    let mut push = |name: String, op: Op, want: Out| {
        let heavy = matches!(want, Out::Data(_));
        v.push(Req { name, op, want, heavy })
    };
    for j in 0..blobs {
        let b = gen::blob_family(rng, r, [0, 5, 9, 1, 3, 6, 12][j % 7]);
        // a twin differing in one element
        let mut twin = b.data.clone();
        let p = rng.below(4096);
        twin[p] += rng.nonzero();
        for (t, data) in [(0, &b.data), (1, &twin)] {
            let bytes = scalars_to_bytes(data);
            let coeffs = r.data_to_coeffs(data);
            let (com, cells, proofs) = p01::expected(r, &coeffs);
            let full = Out::Data(std::sync::Arc::new((cells.clone(), proofs)));
            push(format!("commit {j}.{t}"), Op::Commit(bytes.clone()), Out::Com(com));
            push(format!("compute {j}.{t}"), Op::Compute(bytes.clone()), full.clone());
            let mut bad = bytes;
            let q = rng.below(4096);
            bad[32 * q..32 * q + 32].copy_from_slice(&bad_scalar(rng, &data[q]));
            push(format!("commit bad {j}.{t}"), Op::Commit(bad.clone()), Out::InputError);
            push(format!("compute bad {j}.{t}"), Op::Compute(bad), Out::InputError);
            // two patterns of the same size, one of another size; the twins share the first
            let mut prng = Rng::new(rng.u64(), "pattern", 0);
            for n in [64usize, 64, 80 + j] {
                let have = gen::present(&mut prng, n).1;
                let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
                let cs: Vec<Vec<u8>> = have.iter().map(|k| cells[k * CELL..(k + 1) * CELL].to_vec()).collect();
                push(format!("recover {n} {j}.{t}"), Op::Recover(idx.clone(), cs.clone()), full.clone());
                if n > 64 {
                    let mut x = cs.clone();
                    x[n / 2][31] ^= 1;
                    push(format!("recover inconsistent {j}.{t}"), Op::Recover(idx.clone(), x), Out::InputError);
                }
                let mut i2 = idx.clone();
                i2[3] = i2[9];
                push(format!("recover duplicate {j}.{t}"), Op::Recover(i2, cs.clone()), Out::InputError);
                let mut x = cs;
                x[5][..32].copy_from_slice(&[0xff; 32]);
                push(format!("recover non-canonical {j}.{t}"), Op::Recover(idx, x), Out::InputError);
            }
        }
    }
    for j in 0..verifies {
        let n = [1usize, 2, 3, 8, 33, 64, 100, 129][j % 8];
        let ts: Vec<gen::Tuple> = (0..n)
            .map(|_| {
                let s = rng.chance(1, 2);
                gen::true_tuple(rng, r, if s { Some(r.tau) } else { None })
            })
            .collect();
        push(format!("verify true {j}"), Op::Verify(Batch::of(&ts)), Out::Valid);
        for m in 0..4 {
            let mut f = ts.clone();
            let p = rng.below(n);
            match m {
                0 => f[p].y[rng.below(64)].0 += rng.nonzero(),
                1 => f[p].pi.0 += rng.nonzero(),
                2 => f[p].c.0 += rng.nonzero(),
                _ => {
                    // another true batch with the same commitments and indices
                    f[p].y[rng.below(64)].0 += rng.nonzero();
                    f[p].fix_proof(r);
                }
            }
            push(format!("verify twin {m} {j}"), Op::Verify(Batch::of(&f)), if m == 3 { Out::Valid } else { Out::InvalidProof });
        }
        let mut b = Batch::of(&ts);
        let p = rng.below(n);
        match j % 4 {
            0 => b.idx[p] += 128,
            1 => b.proofs[p] = off_subgroup(rng),
            2 => b.coms[p][0] ^= 0x80,
            _ => b.cells[p][..32].copy_from_slice(&[0xff; 32]),
        }
        push(format!("verify malformed {j}"), Op::Verify(b), Out::InputError);
    }
    v
}

struct Mon<'a> {
    reqs: &'a [Req],
    calls: AtomicU64,
    overlaps: AtomicU64,
    active: AtomicU64,
    bad: Mutex<Option<serde_json::Value>>,
    // pairs (previous request on the thread, this request, others active) seen
    seen: Mutex<std::collections::HashSet<(usize, usize, u64)>>,
    dog: Watchdog,
}
impl Mon<'_> {
    fn call(&self, who: &str, prev: usize, i: usize, ctx: &rust_eth_kzg::DASContext) {
        self.call_at(who, prev, i, ctx, || ())
    }
    fn call_at(&self, who: &str, prev: usize, i: usize, ctx: &rust_eth_kzg::DASContext, start: impl FnOnce()) {
        let r = &self.reqs[i];
        let others = self.active.fetch_add(1, Ordering::SeqCst);
        let tok = self.dog.begin(&format!("{who}: {}", r.name));
        start();
        let o = r.exec(ctx);
        self.dog.end(tok);
        self.active.fetch_sub(1, Ordering::SeqCst);
        self.calls.fetch_add(1, Ordering::SeqCst);
        if others > 0 {
            self.overlaps.fetch_add(1, Ordering::SeqCst);
        }
        self.seen.lock().unwrap().insert((prev, i, others.min(3)));
        if o != r.want {
            let mut b = self.bad.lock().unwrap();
            if b.is_none() {
                *b = Some(json!({"what": format!("{who}: '{}' gave {} instead of {}", r.name, o.brief(), r.want.brief()),
                    "calls running at the same time": others, "call before it on this thread": if prev == usize::MAX { "none".into() } else { self.reqs[prev].name.clone() }}));
            }
        }
    }
    fn stop(&self) -> bool {
        self.bad.lock().unwrap().is_some()
    }
}

/// Stops random threads of this process for a moment, wherever they are, with a
/// signal whose handler sleeps.
mod disturb {
    use std::sync::atomic::{AtomicU64, Ordering};
    extern "C" fn nap(_: libc::c_int) {
        unsafe {
            let e = *libc::__errno_location();
            let t = libc::timespec { tv_sec: 0, tv_nsec: 1_500_000 };
            libc::nanosleep(&t, std::ptr::null_mut());
            *libc::__errno_location() = e;
        }
    }
    pub fn run(running: &AtomicU64) {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = nap as *const () as usize;
            sa.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
            libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        }
        let me = unsafe { libc::gettid() };
        let mut x = 88172645463325252u64;
        while running.load(Ordering::SeqCst) > 0 {
            let tids: Vec<i32> = std::fs::read_dir("/proc/self/task")
                .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
                .unwrap_or_default();
            for _ in 0..20 {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                if let Some(t) = tids.get(x as usize % tids.len().max(1)) {
                    // a thread that has ended is no error
                    if *t != me {
                        unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), *t, libc::SIGUSR1) };
                    }
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }
    }
}

/// Depth experiment: one outer worker, n queued calls, default stack.
fn depth(args: &Args, n: usize) -> ! {
    let ctx = mkctx(&rust_eth_kzg::TrustedSetup::default(), Cfg { width: 0, threads: 2 });
    let outer = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let heavy = args.extra.contains_key("heavy");
    let blob = vec![0u8; BLOB];
    let max = AtomicU64::new(0);
    let now = AtomicU64::new(0);
    outer.scope(|s| {
        for _ in 0..n {
            s.spawn(|_| {
                let d = now.fetch_add(1, Ordering::SeqCst) + 1;
                max.fetch_max(d, Ordering::SeqCst);
                if heavy {
                    let _ = ctx.compute_cells_and_kzg_proofs(blob[..].try_into().unwrap());
                } else {
                    let _ = ctx.blob_to_kzg_commitment(blob[..].try_into().unwrap());
                }
                now.fetch_sub(1, Ordering::SeqCst);
            });
        }
    });
    println!("depth {}", max.load(Ordering::SeqCst));
    std::process::exit(0)
}

pub fn run(args: Args) {
    if let Some(n) = args.extra.get("depth") {
        depth(&args, n.parse().unwrap());
    }
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P09/setup", 0);
    let tsan = args.extra.get("mode").map(|x| x == "tsan").unwrap_or(false);
    let only_lockstep = args.extra.get("mode").map(|x| x == "lockstep").unwrap_or(false);
    let cfgs: &[Cfg] = if tsan {
        &[Cfg { width: 0, threads: 4 }, Cfg { width: 2, threads: 3 }, Cfg { width: 0, threads: 8 }]
    } else {
        &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 4 }, Cfg { width: 4, threads: 3 }, Cfg { width: 0, threads: 0 }]
    };
    let w = World::new(&mut rng, cfgs);
    let reqs = if tsan { requests(&mut rng, &w.r, 1, 4) } else { requests(&mut rng, &w.r, if args.thorough { 8 } else { 4 }, 16) };
    rep.note("requests", reqs.len());
    let light: Vec<usize> = (0..reqs.len()).filter(|i| !reqs[*i].heavy).collect();
    let heavy: Vec<usize> = (0..reqs.len()).filter(|i| reqs[*i].heavy).collect();
    let pick = |rng: &mut Rng| if rng.chance(1, 10) { *rng.pick(&heavy) } else { *rng.pick(&light) };
    let fresh = |reqs| Mon {
        reqs,
        calls: AtomicU64::new(0),
        overlaps: AtomicU64::new(0),
        active: AtomicU64::new(0),
        bad: Mutex::new(None),
        seen: Mutex::new(Default::default()),
        dog: Watchdog::start(),
    };
    let close = |m: Mon, c: &mut Case, class: &str, i: u64| {
        m.dog.stop();
        for k in m.seen.lock().unwrap().iter() {
            c.eval(class, (k, i));
        }
        let calls = m.calls.load(Ordering::SeqCst);
        c.classes.push(format!("{class}: calls"));
        let n = calls.saturating_sub(c.evals);
        c.evals += n;
        c.sample = Some(json!({"workload": class, "calls": calls, "calls that overlapped another": m.overlaps.load(Ordering::SeqCst),
            "distinct (previous, this, overlap) contexts": m.seen.lock().unwrap().len()}));
        let b = m.bad.lock().unwrap().take();
        if let Some(b) = b {
            c.fail(b);
        }
    };

    // Rayon runs further queued calls on the stack of a worker that waits for
    // one (see DESIGN.md): the pools of the harness get room for that.
    let _ = rayon::ThreadPoolBuilder::new().stack_size(256 << 20).build_global();
    // one after another on one context, arbitrary histories with failing calls
    rep.section("histories", if tsan || only_lockstep { 0 } else if args.thorough { 4000 } else { 60 }, 0.2, args.threads, |i, rng, c| {
        let m = fresh(&reqs);
        let ctx = &w.ctxs[(i % 4) as usize].1;
        let mut prev = usize::MAX;
        let len = rng.range(10, 40);
        for _ in 0..len {
            // stay near the last request half of the time
            let k = if prev != usize::MAX && rng.chance(1, 2) {
                (prev + reqs.len() + rng.range(0, 8) - 4) % reqs.len()
            } else {
                pick(rng)
            };
            m.call("history", prev, k, ctx);
            prev = k;
            if m.stop() {
                break;
            }
        }
        close(m, c, "history", i);
    });

    // many caller threads on shared contexts
    let rounds = if only_lockstep { 0 } else if tsan { 3 } else if args.thorough { 400 } else { 8 };
    rep.section("shared", rounds, 0.3, 1, |i, rng, c| {
        let m = fresh(&reqs);
        let callers = if tsan { 6 } else { *rng.pick(&[2usize, 3, 8, 16, 24]) };
        let per = if tsan { 10 } else { 240 / callers };
        let bar = Barrier::new(callers);
        let seeds: Vec<u64> = (0..callers).map(|_| rng.u64()).collect();
        let one = rng.chance(1, 2).then(|| rng.below(cfgs.len()));
        std::thread::scope(|s| {
            for sd in &seeds {
                s.spawn(|| {
                    let mut rng = Rng::new(*sd, "caller", 0);
                    bar.wait();
                    let mut prev = usize::MAX;
                    for _ in 0..per {
                        let k = pick(&mut rng);
                        let x = one.unwrap_or_else(|| rng.below(cfgs.len()));
                        m.call("shared context", prev, k, &w.ctxs[x].1);
                        prev = k;
                        match rng.below(6) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(std::time::Duration::from_micros(rng.below(800) as u64)),
                            _ => {}
                        }
                        if m.stop() {
                            break;
                        }
                    }
                });
            }
        });
        close(m, c, "shared", i);
    });

    // the same few light calls started at the same instant again and again, and
    // (every other round) threads stopped for a while wherever they happen to be
    let sets: Vec<Vec<usize>> = {
        let mut by: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
        for (i, q) in reqs.iter().enumerate() {
            let cheap = match &q.op {
                Op::Verify(b) => b.idx.len() <= 1,
                _ => !q.heavy,
            };
            if cheap {
                by.entry(q.name.split(' ').next().unwrap().to_string()).or_default().push(i);
            }
        }
        by.into_values().collect()
    };
    rep.section("lockstep", if tsan { 24 } else if args.thorough { 400 } else if only_lockstep { 60 } else { 24 }, if only_lockstep { 1.0 } else { 0.6 }, 1, |i, rng, c| {
        let m = fresh(&reqs);
        // one kind of call; half of the rounds a single request, half twins of it
        let set = if i % 8 == 7 { &heavy } else if i % 5 == 3 { rng.pick(&sets) } else { sets.last().unwrap() };
        let k = rng.below(set.len());
        let mine: Vec<usize> = if i % 3 != 1 { vec![set[k]] } else { (0..6).map(|d| set[(k + d) % set.len()]).collect() };
        let callers = if tsan { 6 } else { *rng.pick(&[2usize, 8, 8, 8, 12]) };
        let reps = if tsan { 40 } else if i % 8 == 7 { 6 } else { 400 };
        let disturb = i % 4 == 3 && !tsan;
        // (a context of one thread runs its calls one after another)
        let x = if i % 3 == 2 { rng.below(cfgs.len()) } else { cfgs.len() - 1 };
        let t0 = std::time::Instant::now();
        let arrived = AtomicU64::new(0);
        let over = std::sync::atomic::AtomicBool::new(false);
        let running = AtomicU64::new(callers as u64);
        let seeds: Vec<u64> = (0..callers).map(|_| rng.u64()).collect();
        std::thread::scope(|s| {
            for sd in &seeds {
                s.spawn(|| {
                    let mut rng = Rng::new(*sd, "lockstep", 0);
                    for n in 0..reps {
                        let k = *rng.pick(&mine);
                        let together = || {
                            arrived.fetch_add(1, Ordering::SeqCst);
                            let mut spins = 0u64;
                            while arrived.load(Ordering::SeqCst) < (n as u64 + 1) * callers as u64 && !over.load(Ordering::SeqCst) {
                                spins += 1;
                                if spins > 20_000 {
                                    std::thread::yield_now();
                                } else {
                                    std::hint::spin_loop();
                                }
                            }
                        };
                        m.call_at(if disturb { "lockstep, disturbed" } else { "lockstep" }, usize::MAX, k, &w.ctxs[x].1, together);
                        if m.stop() || t0.elapsed().as_millis() > 2000 {
                            over.store(true, Ordering::SeqCst);
                        }
                        if over.load(Ordering::SeqCst) {
                            break;
                        }
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                });
            }
            if disturb {
                s.spawn(|| disturb::run(&running));
            }
        });
        close(m, c, if disturb { "lockstep, disturbed" } else { "lockstep" }, i);
    });

    // calls from inside other thread pools, which run further calls while one waits
    rep.section("nested", rounds, 0.5, 1, |i, rng, c| {
        let m = fresh(&reqs);
        let outer = rayon::ThreadPoolBuilder::new().num_threads(rng.range(1, 4)).stack_size(256 << 20).build().unwrap();
        let jobs: Vec<(usize, usize)> = (0..if tsan { 10 } else { 60 }).map(|_| (pick(rng), rng.below(cfgs.len()))).collect();
        let global = i % 3 == 2;
        let work = || {
            jobs.par_iter().with_max_len(1).for_each(|(k, x)| {
                if !m.stop() {
                    m.call(if global { "global pool" } else { "inside another pool" }, usize::MAX, *k, &w.ctxs[*x].1);
                }
            })
        };
        if global {
            work();
        } else {
            outer.install(|| rayon::join(work, work));
        }
        close(m, c, "nested", i);
    });

    // contexts created and dropped while others work
    rep.section("lifecycle", if only_lockstep { 0 } else if tsan { 1 } else if args.thorough { 100 } else { 3 }, 1.0, 1, |i, rng, c| {
        let m = fresh(&reqs);
        let n = if tsan { 2 } else { 6 };
        let seeds: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
        std::thread::scope(|s| {
            for (j, sd) in seeds.iter().enumerate() {
                let (m, w) = (&m, &w);
                s.spawn(move || {
                    let mut rng = Rng::new(*sd, "life", 0);
                    for _ in 0..if tsan { 1 } else { 3 } {
                        if j % 2 == 0 {
                            let cfg = Cfg { width: *rng.pick(&[0, 0, 2]), threads: rng.range(1, 4) };
                            let tok = m.dog.begin("context creation");
                            let ctx = mkctx(&w.ts, cfg);
                            m.dog.end(tok);
                            for _ in 0..3 {
                                let k = pick(&mut rng);
                                m.call("short-lived context", usize::MAX, k, &ctx);
                            }
                        } else {
                            for _ in 0..8 {
                                let k = pick(&mut rng);
                                m.call("long-lived context", usize::MAX, k, &w.ctxs[0].1);
                            }
                        }
                    }
                });
            }
        });
        close(m, c, "lifecycle", i);
    });
    rep.finish()
}
