//! P06: a batch with any false tuple is rejected; the batch verdict is the
//! conjunction of the tuples' own. The truth of each tuple is known from its
//! discrete logarithms.
use crate::api::*;
use crate::gen::{self, Batch, Fr, Tuple};
use blstrs::Scalar;
use ff::Field;
use h_common::refm::Ref;
use h_common::*;
use serde_json::json;

fn nz(rng: &mut Rng) -> Scalar {
    loop {
        let d = if rng.chance(1, 3) { rng.edge_scalar() } else { rng.scalar() };
        if !bool::from(d.is_zero()) {
            return d;
        }
    }
}

fn base(rng: &mut Rng, r: &Ref, n: usize) -> Vec<Tuple> {
    let ncom = match rng.below(4) {
        0 => 1,
        1 => n,
        _ => rng.range(1, n.min(6)),
    };
    let coms: Vec<Scalar> = (0..ncom).map(|_| if rng.chance(1, 15) { Scalar::ZERO } else { rng.scalar() }).collect();
    let mut ts: Vec<Tuple> = (0..n)
        .map(|j| {
            let com = coms[if ncom == n { j } else { rng.below(ncom) }];
            let mut t = gen::true_tuple(rng, r, Some(com));
            if rng.chance(1, 3) {
                t.k = j % 128;
                t.fix_proof(r);
            }
            t
        })
        .collect();
    if n > 1 && rng.chance(1, 3) {
        // duplicates of whole tuples
        for _ in 0..rng.range(1, n / 2 + 1) {
            let (a, b) = (rng.below(n), rng.below(n));
            ts[a] = ts[b].clone();
        }
    }
    ts
}

/// Places the tuples that are made false.
fn place(rng: &mut Rng, n: usize) -> usize {
    match rng.below(7) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        3 => (64 * rng.range(0, 8)).min(n - 1),
        4 => (64 * rng.range(1, 8) - 1).min(n - 1),
        _ => rng.below(n),
    }
}

/// Alters one component of one tuple.
fn alter(rng: &mut Rng, r: &Ref, ts: &mut [Tuple], p: usize) -> &'static str {
    let n = ts.len();
    match rng.below(12) {
        0 => {
            let e = *rng.pick(&[0, 63, 1, 62, 31, 32]);
            ts[p].y[e].0 += nz(rng);
            "cell element"
        }
        1 => {
            let e = rng.below(64);
            ts[p].y[e].0 += Scalar::ONE;
            "cell element + 1"
        }
        2 => {
            ts[p].pi.0 += nz(rng);
            "proof"
        }
        3 => {
            ts[p].pi.0 = -ts[p].pi.0;
            "proof negated"
        }
        4 => {
            ts[p].pi.0 = Scalar::ZERO;
            "proof at infinity"
        }
        5 => {
            ts[p].c.0 = -ts[p].c.0;
            "commitment negated"
        }
        6 => {
            ts[p].c.0 += nz(rng);
            "commitment"
        }
        7 => {
            ts[p].c.0 = Scalar::ZERO;
            "commitment at infinity"
        }
        8 => {
            ts[p].k = (ts[p].k + *rng.pick(&[1, 127, 64, 2, 32, 126])) % 128;
            "index"
        }
        9 => {
            // alter the cell so that its interpolant changes in exactly one coefficient
            let j = rng.below(64) as u64;
            let d = nz(rng);
            let k = ts[p].k;
            for e in 0..64 {
                ts[p].y[e].0 += d * r.pts[k * 64 + e].pow_vartime([j]);
            }
            "one interpolant coefficient"
        }
        10 => {
            let q = rng.below(n);
            let (a, b) = (ts[p].clone(), ts[q].clone());
            match rng.below(4) {
                0 => {
                    ts[p].c = b.c;
                    ts[q].c = a.c;
                    "commitments swapped"
                }
                1 => {
                    ts[p].k = b.k;
                    ts[q].k = a.k;
                    "indices swapped"
                }
                2 => {
                    ts[p].y = b.y;
                    ts[q].y = a.y;
                    "cells swapped"
                }
                _ => {
                    ts[p].pi = b.pi;
                    ts[q].pi = a.pi;
                    "proofs swapped"
                }
            }
        }
        _ => {
            match rng.below(4) {
                0 => ts[p].y.reverse(),
                1 => ts[p].y.rotate_left(1),
                2 => {
                    let x = rng.subset(64, 2);
                    ts[p].y.swap(x[0], x[1]);
                }
                _ => {
                    let x = rng.subset(64, 2);
                    let d = nz(rng);
                    ts[p].y[x[0]].0 += d;
                    ts[p].y[x[1]].0 -= d;
                }
            }
            "cell rearranged"
        }
    }
}

fn judge(rep_c: &mut Case, r: &Ref, ctx: &rust_eth_kzg::DASContext, ts: &[Tuple], class: &str, i: u64) {
    let falses: Vec<usize> = (0..ts.len()).filter(|j| !bool::from(ts[*j].defect(r).is_zero())).collect();
    let b = Batch::of(ts);
    rep_c.eval(class, b.key());
    let want = if falses.is_empty() { Out::Valid } else { Out::InvalidProof };
    if !falses.is_empty() {
        rep_c.eval(&format!("false batch of 2^{}", ts.len().ilog2()), (b.key(), 1));
    }
    if i == 3 {
        rep_c.sample = Some(json!({"class": class, "size": ts.len(), "false tuples": falses}));
    }
    let o = b.verify(ctx);
    if o != want {
        let f: Vec<_> = falses.iter().take(20).collect();
        rep_c.fail(json!({"what": format!("a batch of {} tuples of which {} are false ({class}) gave {}", ts.len(), falses.len(), o.brief()),
            "false tuples": f, "indices": b.idx}));
    }
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P06/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 3 }]);
    let t = args.thorough;
    let r = &w.r;
    let max = if t { 1100 } else { 520 };

    rep.section("altered", if t { 200_000 } else { 3000 }, 0.4, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = if i % 3 == 0 { rng.range(1, 6) } else { gen::batch_size(rng, max) };
        let mut ts = base(rng, r, n);
        let p = place(rng, n);
        let what = alter(rng, r, &mut ts, p);
        judge(c, r, ctx, &ts, &format!("altered/{what}"), i);
    });

    // two or more false tuples related so that combining them with the wrong weights hides them
    rep.section("related", if t { 200_000 } else { 2500 }, 0.5, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = gen::batch_size(rng, max).max(2);
        let mut ts = base(rng, r, n);
        let kind = i % 9;
        let class = match kind {
            0 | 1 => {
                // sum over m tuples of d_j * weight_j = 0 for a guessed weight family
                let m = if rng.chance(1, 2) { 2 } else { rng.range(2, n.min(9)) };
                let ps = rng.subset(n, m);
                let fam = rng.below(11);
                let base_r = match fam {
                    0 => Scalar::ONE,
                    1 => -Scalar::ONE,
                    2 => Scalar::from(2u64),
                    3 => Scalar::from(rng.range(3, 300) as u64),
                    4 => Scalar::from(2u64).pow_vartime([*rng.pick(&[8u64, 16, 32, 64, 128])]),
                    5 => r.tau,
                    6 => r.w_ext,
                    7 => Scalar::from(7u64),
                    8 => -Scalar::from(rng.range(2, 300) as u64),
                    _ => Scalar::ONE,
                };
                let wt = |p: usize| -> Scalar {
                    match fam {
                        9 => Scalar::from(p as u64 + 1),
                        10 => Scalar::from(ts_k(&ts, p) as u64 + 1),
                        _ => base_r.pow_vartime([p as u64]),
                    }
                };
                let ws: Vec<Scalar> = ps.iter().map(|p| wt(*p)).collect();
                let mut acc = Scalar::ZERO;
                for j in 0..m - 1 {
                    let d = nz(rng);
                    acc += d * ws[j];
                    alter_defect(rng, r, &mut ts[ps[j]], d);
                }
                let last = -acc * ws[m - 1].invert().unwrap();
                alter_defect(rng, r, &mut ts[ps[m - 1]], last);
                format!("cancel/weights{fam}")
            }
            2 => {
                // same commitment and index twice, one true and one false
                let (a, b) = two(rng, n);
                ts[a] = ts[b].clone();
                if rng.chance(1, 2) {
                    ts[a].y[rng.below(64)].0 += nz(rng);
                } else {
                    ts[a].pi.0 += nz(rng);
                }
                "twin with the same commitment and index".into()
            }
            3 => {
                // everything false
                for p in 0..n {
                    let d = nz(rng);
                    alter_defect(rng, r, &mut ts[p], d);
                }
                "all false".into()
            }
            4 => {
                // the same error everywhere, summing to zero or not
                let d = nz(rng);
                for p in 0..n {
                    let s = if p % 2 == 0 { d } else { -d };
                    alter_defect(rng, r, &mut ts[p], s);
                }
                "alternating errors".into()
            }
            5 => {
                // proofs permuted among the tuples
                let mut ps: Vec<Fr> = ts.iter().map(|t| t.pi).collect();
                let s = rng.range(1, n - 1);
                ps.rotate_left(s);
                for (t, p) in ts.iter_mut().zip(ps) {
                    t.pi = p;
                }
                "proofs rotated".into()
            }
            6 => {
                // opposite commitments, one of them false: encodings differ in one bit
                let (a, b) = two(rng, n);
                ts[b].c = Fr(-ts[a].c.0);
                ts[b].fix_proof(r);
                if rng.chance(2, 3) {
                    ts[b].c = ts[a].c;
                }
                "opposite commitments".into()
            }
            7 => {
                // errors in cells that cancel in the sum of the cells or of the proofs
                let (a, b) = two(rng, n);
                let d = nz(rng);
                let e = rng.below(64);
                ts[a].y[e].0 += d;
                ts[b].y[e].0 -= d;
                if rng.chance(1, 2) {
                    ts[b].k = ts[a].k;
                    ts[b].fix_proof(r);
                    ts[b].y[e].0 -= d;
                }
                "opposite cell errors".into()
            }
            _ => {
                // commitments exchanged between two groups
                let (a, b) = two(rng, n);
                let (x, y) = (ts[a].c, ts[b].c);
                for t in ts.iter_mut() {
                    if t.c == x {
                        t.c = y;
                    } else if t.c == y {
                        t.c = x;
                    }
                }
                "commitments exchanged".into()
            }
        };
        judge(c, r, ctx, &ts, &format!("related/{class}"), i);
    });

    // the batch verdict is the conjunction of the single verdicts, in any order
    rep.section("conjunction", if t { 40_000 } else { 600 }, 1.0, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = rng.range(2, 8);
        let mut ts = base(rng, r, n);
        for _ in 0..rng.below(3) {
            let p = rng.below(n);
            alter(rng, r, &mut ts, p);
        }
        let mut all = true;
        for (j, t) in ts.iter().enumerate() {
            let truth = bool::from(t.defect(r).is_zero());
            let o = Batch::of(std::slice::from_ref(t)).verify(ctx);
            let want = if truth { Out::Valid } else { Out::InvalidProof };
            if o != want {
                return c.fail(json!({"what": format!("tuple {j} alone gave {} but is {truth}", o.brief()), "index": t.k}));
            }
            all &= truth;
        }
        let mut order: Vec<usize> = (0..n).collect();
        for _ in 0..2 {
            let b: Vec<Tuple> = order.iter().map(|j| ts[*j].clone()).collect();
            let o = Batch::of(&b).verify(ctx);
            c.eval(&format!("conjunction/{all}"), Batch::of(&b).key());
            let want = if all { Out::Valid } else { Out::InvalidProof };
            if o != want {
                return c.fail(json!({"what": format!("batch verdict {} although the conjunction is {all}", o.brief()), "order": order}));
            }
            rng.shuffle(&mut order);
        }
    });
    rep.finish()
}

fn ts_k(ts: &[Tuple], p: usize) -> usize {
    ts[p].k
}
fn two(rng: &mut Rng, n: usize) -> (usize, usize) {
    let v = rng.subset(n, 2);
    (v[0], v[1])
}

/// Gives the tuple exactly the defect d, through its proof, one cell element
/// or its commitment.
fn alter_defect(rng: &mut Rng, r: &Ref, t: &mut Tuple, d: Scalar) {
    let need = d - t.defect(r);
    match rng.below(4) {
        0 => t.c.0 += need,
        1 => {
            let e = rng.below(64);
            t.y[e].0 -= need * r.wt[t.k][e].invert().unwrap();
        }
        _ => t.set_defect(r, d),
    }
    debug_assert_eq!(t.defect(r), d);
}
