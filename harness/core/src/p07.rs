//! P07: the weights that batch verification really uses (recorded by a hook)
//! change with every component of the request, and adversaries that choose one
//! component knowing the weights for the rest do not succeed. Built with the
//! singlethreaded feature, so that the hook's records belong to the caller.
use crate::api::*;
use crate::gen::{self, Batch, Fr, Tuple};
use blstrs::Scalar;
use ff::Field;
use h_common::refm::*;
use h_common::*;
use serde_json::json;
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::sync::Mutex;

#[cfg(verif_hooks)]
fn take() -> Vec<Vec<Scalar>> {
    kzg_multi_open::verif_hooks::take_weights()
}
#[cfg(not(verif_hooks))]
fn take() -> Vec<Vec<Scalar>> {
    vec![]
}

/// Verdict and the weights used (None: the hook saw nothing on this thread).
fn observe(ctx: &rust_eth_kzg::DASContext, b: &Batch) -> (Out, Option<Vec<Scalar>>) {
    let _ = take();
    let o = b.verify(ctx);
    let mut w = take();
    (o, if w.len() == 1 { w.pop() } else { None })
}

fn tuples(rng: &mut Rng, r: &Ref, n: usize) -> Vec<Tuple> {
    let ncom = rng.range(1, n.min(5));
    let coms: Vec<Scalar> = (0..ncom).map(|_| rng.nonzero()).collect();
    (0..n)
        .map(|j| {
            let com = if j < ncom { coms[j] } else { *rng.pick(&coms) };
            gen::true_tuple(rng, r, Some(com))
        })
        .collect()
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P07/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 2 }]);
    let r = &w.r;
    let t = args.thorough;
    let seen: Mutex<HashMap<Fr, u64>> = Mutex::new(HashMap::new());
    let stats: Mutex<(u64, u64, [u8; 32])> = Mutex::new((0, 0, [0; 32])); // recorded, missing, or of all bytes

    rep.section("bound", if t { 200_000 } else { 4000 }, 0.5, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = match rng.below(4) {
            0 => 2,
            1 => rng.range(3, 8),
            2 => rng.range(9, 40),
            _ => *rng.pick(&[63, 64, 65, 127, 128, 129, 130]),
        };
        let ts = tuples(rng, r, n);
        let b = Batch::of(&ts);
        let (o, w0) = observe(ctx, &b);
        if o != Out::Valid {
            return c.fail(json!({"what": format!("true batch gave {}", o.brief())}));
        }
        let Some(w0) = w0 else {
            stats.lock().unwrap().1 += 1;
            c.skipped = true;
            return;
        };
        stats.lock().unwrap().0 += 1;
        if w0.len() != n {
            return c.fail(json!({"what": format!("{} weights for {n} tuples", w0.len())}));
        }
        for a in 0..n.min(20) {
            if bool::from(w0[a].is_zero()) || w0[a + 1..].contains(&w0[a]) {
                return c.fail(json!({"what": format!("tuple {a} has weight zero or that of another tuple"), "size": n}));
            }
        }
        // the same request again, on another context of the same setup
        let (_, again) = observe(&w.ctxs[(i % 2) as usize ^ 1].1, &b);
        c.eval("deterministic", b.key());
        if again.as_ref().is_some_and(|x| *x != w0) {
            return c.fail(json!({"what": "the weights are not a function of the request"}));
        }
        {
            let mut st = stats.lock().unwrap();
            for (x, y) in st.2.iter_mut().zip(w0[1].to_bytes_be()) {
                *x |= y;
            }
            if let Some(other) = seen.lock().unwrap().insert(Fr(w0[1]), b.key()) {
                if other != b.key() {
                    return c.fail(json!({"what": "two different requests have the same weights"}));
                }
            }
        }
        for m in 0..6u64 {
            let mut m2 = ts.clone();
            let p = match rng.below(4) {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                _ => rng.below(n),
            };
            let class = match (i + m) % 8 {
                0 => {
                    let e = if rng.chance(1, 3) { *rng.pick(&[0, 63]) } else { rng.below(64) };
                    // flip one bit of the element
                    let bit = rng.below(254) as u64;
                    let d = Scalar::from(2u64).pow_vartime([bit]);
                    m2[p].y[e].0 += d;
                    "cell element"
                }
                1 => {
                    m2[p].pi.0 = if rng.chance(1, 2) && m2[p].pi.0 != Scalar::ZERO { -m2[p].pi.0 } else { m2[p].pi.0 + Scalar::ONE };
                    "proof"
                }
                2 => {
                    m2[p].k = (m2[p].k + *rng.pick(&[1, 64, 127, 16])) % 128;
                    "cell index"
                }
                3 => {
                    // a fresh commitment for one tuple
                    m2[p].c.0 = if rng.chance(1, 2) { -m2[p].c.0 } else { rng.scalar() };
                    "commitment"
                }
                4 => {
                    // the same commitments, assigned differently
                    let q = rng.below(n);
                    if m2[q].c == m2[p].c {
                        continue;
                    }
                    m2[p].c = m2[q].c;
                    "assignment"
                }
                5 => {
                    // every use of one commitment replaced
                    let (old, new) = (m2[p].c, Fr(rng.scalar()));
                    for x in m2.iter_mut().filter(|x| x.c == old) {
                        x.c = new;
                    }
                    "commitment everywhere"
                }
                6 => {
                    let q = rng.below(n);
                    if ts[q] == ts[p] {
                        continue;
                    }
                    let how = rng.below(4);
                    let (a, b2) = (ts[p].clone(), ts[q].clone());
                    match how {
                        0 => {
                            m2[p] = b2;
                            m2[q] = a;
                        }
                        1 => {
                            m2[p].y = b2.y;
                            m2[q].y = a.y;
                        }
                        2 => {
                            m2[p].pi = b2.pi;
                            m2[q].pi = a.pi;
                        }
                        _ => {
                            m2[p].k = b2.k;
                            m2[q].k = a.k;
                        }
                    }
                    if m2 == ts {
                        continue;
                    }
                    "exchange between tuples"
                }
                _ => {
                    // one tuple more or less
                    if rng.chance(1, 2) && n > 2 {
                        m2.remove(p);
                    } else {
                        let x = gen::true_tuple(rng, r, Some(m2[p].c.0));
                        m2.push(x);
                    }
                    "tuple added or removed"
                }
            };
            let b2 = Batch::of(&m2);
            let (_, w1) = observe(ctx, &b2);
            let Some(w1) = w1 else {
                c.eval(&format!("not recorded after changing {class}"), b2.key());
                continue;
            };
            stats.lock().unwrap().0 += 1;
            c.eval(&format!("changed {class}"), b2.key());
            if w1.len() >= 2 && w1[1] == w0[1] {
                return c.fail(json!({"what": format!("changing the {class} of tuple {p} of {n} leaves the randomness unchanged"), "indices": b2.idx}));
            }
        }
    });
    let (rec, miss, or) = *stats.lock().unwrap();
    rep.note("weight vectors recorded", rec);
    rep.note("verifications without a record", miss);
    rep.note("bits seen set in the randomness", or.iter().map(|x| x.count_ones()).sum::<u32>());
    if rec > 200 {
        let mut c = Case::new();
        c.eval("entropy of the randomness", rec);
        let bits = or.iter().map(|x| x.count_ones()).sum::<u32>();
        if bits < 120 {
            c.fail(json!({"what": format!("only {bits} bits of the randomness ever vary")}));
        }
        rep.absorb("entropy", 0, c);
    }

    // adversary: learns the real weights for a statement, then changes one
    // component so that the combination with those weights is satisfied
    rep.section("adaptive", if t { 200_000 } else { 4000 }, 0.5, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = if rng.chance(1, 2) { rng.range(2, 6) } else { rng.range(2, 130) };
        let mut ts = tuples(rng, r, n);
        let any = rng.below(n);
        let p = *rng.pick(&[0, n - 1, any]);
        // make one tuple false by its cell
        ts[p].y[rng.below(64)].0 += rng.nonzero();
        let (o, w0) = observe(ctx, &Batch::of(&ts));
        if o != Out::InvalidProof {
            return c.fail(json!({"what": format!("false batch gave {}", o.brief())}));
        }
        let Some(w0) = w0 else {
            c.skipped = true;
            return;
        };
        let total: Scalar = ts.iter().zip(&w0).map(|(t, w)| t.defect(r) * w).fold(Scalar::ZERO, |a, b| a + b);
        let q = loop {
            let any = rng.below(n);
            let q = *rng.pick(&[0, n - 1, any, any]);
            if q != p {
                break q;
            }
        };
        let need = -total * w0[q].invert().unwrap();
        let class = forge(rng, r, &mut ts, q, need, i % 4, &w0);
        let bad = ts.iter().filter(|t| !bool::from(t.defect(r).is_zero())).count();
        if bad == 0 {
            c.skipped = true;
            return;
        }
        let b = Batch::of(&ts);
        c.eval(&format!("adaptive forgery through the {class}"), b.key());
        let o = b.verify(ctx);
        if i == 9 {
            c.sample = Some(json!({"size": n, "false tuples": bad, "chosen after the randomness": class}));
        }
        if o != Out::InvalidProof {
            c.fail(json!({"what": format!("a forgery that chooses the {class} of tuple {q} after learning the randomness gave {}", o.brief()), "size": n, "false tuples": bad}));
        }
    });

    // the same without the hook: guess that the challenge is the specified hash
    // with some component left out
    rep.section("guessed", if t { 200_000 } else { 4000 }, 1.0, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = rng.range(2, 12);
        let mut ts = tuples(rng, r, n);
        let p = rng.below(n);
        ts[p].y[rng.below(64)].0 += rng.nonzero();
        let q = loop {
            let q = rng.below(n);
            if q != p {
                break q;
            }
        };
        let (drop, through): (Drop, u64) = match i % 10 {
            0 => (Drop::Proofs, 0),
            1 => (Drop::Cells, 1),
            2 => (Drop::Coms, 2),
            3 => (Drop::Proof(q), 0),
            4 => (Drop::Cell(q), 1),
            5 => (Drop::TupleAfter(q.max(1)), 0),
            6 => (Drop::CellTail(q, 1 + rng.below(62)), 3),
            7 => (Drop::CellHead(q), 1),
            8 => (Drop::CosetConst, 0),
            _ => (Drop::Everything, rng.below(3) as u64),
        };
        // when the left-out part is whole lists, forging only through them keeps the guess unchanged
        let x = spec_challenge(&ts, &drop);
        let ws = powers(x, n);
        let total: Scalar = ts.iter().zip(&ws).map(|(t, w)| t.defect(r) * w).fold(Scalar::ZERO, |a, b| a + b);
        let q2 = match drop {
            Drop::TupleAfter(m) => n - 1 - rng.below(n - m),
            _ => q,
        };
        let need = -total * ws[q2].invert().unwrap();
        let class = forge(rng, r, &mut ts, q2, need, through, &ws);
        let bad = ts.iter().filter(|t| !bool::from(t.defect(r).is_zero())).count();
        if bad == 0 {
            c.skipped = true;
            return;
        }
        let b = Batch::of(&ts);
        c.eval(&format!("guessed challenge without {drop:?}").split('(').next().unwrap().to_string(), b.key());
        let o = b.verify(ctx);
        if o != Out::InvalidProof {
            c.fail(json!({"what": format!("a forgery through the {class}, assuming the challenge leaves out {drop:?}, gave {}", o.brief()), "size": n, "false tuples": bad}));
        }
    });
    rep.finish()
}

/// Adds `need` to the defect of tuple q through one component.
fn forge(rng: &mut Rng, r: &Ref, ts: &mut [Tuple], q: usize, need: Scalar, through: u64, ws: &[Scalar]) -> &'static str {
    match through {
        0 => {
            let d = ts[q].defect(r) + need;
            ts[q].set_defect(r, d);
            "proof"
        }
        1 | 3 => {
            let e = if through == 3 { 63 } else if rng.chance(1, 2) { 0 } else { rng.range(1, 63) };
            ts[q].y[e].0 -= need * r.wt[ts[q].k][e].invert().unwrap();
            "cell"
        }
        _ => {
            // the commitment wherever it is used
            let old = ts[q].c;
            let weight: Scalar = ts.iter().zip(ws).filter(|(t, _)| t.c == old).map(|(_, w)| *w).fold(Scalar::ZERO, |a, b| a + b);
            if let Some(inv) = Option::<Scalar>::from(weight.invert()) {
                let d = need * ws[q] * inv;
                for t in ts.iter_mut().filter(|t| t.c == old) {
                    t.c.0 += d;
                }
            }
            "commitment"
        }
    }
}

#[derive(Debug)]
enum Drop {
    Coms,
    Proofs,
    Cells,
    Proof(usize),
    Cell(usize),
    TupleAfter(usize),
    CellTail(usize, usize),
    CellHead(usize),
    CosetConst,
    Everything,
}

fn spec_challenge(ts: &[Tuple], d: &Drop) -> Scalar {
    let mut h = b"RCKZGCBATCH__V1_".to_vec();
    h.extend(4096u64.to_be_bytes());
    h.extend(64u64.to_be_bytes());
    let mut coms: Vec<Scalar> = vec![];
    let rows: Vec<u64> = ts
        .iter()
        .map(|t| match coms.iter().position(|x| *x == t.c.0) {
            Some(p) => p as u64,
            None => {
                coms.push(t.c.0);
                coms.len() as u64 - 1
            }
        })
        .collect();
    h.extend((coms.len() as u64).to_be_bytes());
    h.extend((ts.len() as u64).to_be_bytes());
    if !matches!(d, Drop::Coms | Drop::Everything) {
        for c in &coms {
            h.extend(g1(*c).to_compressed());
        }
    }
    for (j, t) in ts.iter().enumerate() {
        match d {
            Drop::TupleAfter(m) if j >= *m => break,
            Drop::Everything => break,
            _ => {}
        }
        h.extend(rows[j].to_be_bytes());
        h.extend((t.k as u64).to_be_bytes());
        let y = match d {
            Drop::Cells => &[][..],
            Drop::Cell(q) if *q == j => &[][..],
            Drop::CellHead(_) => &t.y[..0],
            Drop::CellTail(_, m) => &t.y[..64 - m],
            _ => &t.y[..],
        };
        for v in y {
            h.extend(v.0.to_bytes_be());
        }
        match d {
            Drop::Proofs => {}
            Drop::Proof(q) if *q == j => {}
            _ => h.extend(g1(t.pi.0).to_compressed()),
        }
    }
    if matches!(d, Drop::CosetConst) {
        h = b"RCKZGCBATCH__V1_".to_vec();
    }
    let mut b: [u8; 32] = Sha256::digest(&h).into();
    // reduce modulo the group order
    b.reverse();
    let mut s = Scalar::ZERO;
    for x in b.iter().rev() {
        s = s * Scalar::from(256u64) + Scalar::from(*x as u64);
    }
    s
}
