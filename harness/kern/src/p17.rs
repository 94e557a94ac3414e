//! P17: every point is a known multiple of the generator, so the true result
//! of any linear combination is one scalar multiplication away.
use bls12_381::batch_addition::{batch_addition_binary_tree_stride, multi_batch_addition_binary_tree_stride};
use bls12_381::batch_inversion::{batch_inverse, batch_inverse_scratch_pad};
use bls12_381::fixed_base_msm::{FixedBaseMSM, FixedBaseMSMPrecompBLST, UsePrecomp};
use bls12_381::fixed_base_msm_window::FixedBaseMSMPrecompWindow;
use bls12_381::lincomb::*;
use bls12_381::*;
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, Group};
use h_common::refm;
use h_common::*;
use serde_json::json;

fn len(rng: &mut Rng, big: usize) -> usize {
    match rng.below(8) {
        0 => rng.below(3),
        1 | 2 => rng.below(20),
        3 => *rng.pick(&[16usize, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        4 | 5 => rng.below(70),
        _ => rng.below(big),
    }
}

/// Discrete logs with structure: repeats, opposites, infinity.
fn dlogs(rng: &mut Rng, n: usize, infinity: bool) -> Vec<Scalar> {
    let style = rng.below(6);
    let base = rng.nonzero();
    let mut v: Vec<Scalar> = (0..n)
        .map(|i| match style {
            0 => rng.nonzero(),
            1 => base,
            2 => if i % 2 == 0 { base } else { -base },
            3 => Scalar::from(1 + i as u64),
            4 => *rng.pick(&[base, -base, Scalar::ONE, base + base]),
            _ => rng.nonzero(),
        })
        .collect();
    if infinity && rng.chance(1, 2) {
        let k = *rng.pick(&[1, 2, n / 2, n]);
        for _ in 0..k.min(n) {
            let p = rng.below(n);
            v[p] = Scalar::ZERO;
        }
        if rng.chance(1, 8) {
            v.fill(Scalar::ZERO);
        }
    }
    v
}

/// Scalars aimed at w-bit digits: all digits at or next to the boundary.
pub fn digit_scalar(rng: &mut Rng, w: usize) -> Scalar {
    let half = 1u64 << (w - 1);
    let full = 1u64 << w;
    let style = rng.below(8);
    let base = Scalar::from(full);
    let windows = 255 / w + 1;
    let mut acc = Scalar::ZERO;
    let mut p = Scalar::ONE;
    let only = rng.below(windows);
    for i in 0..windows {
        let d = match style {
            0 => half,
            1 => half - 1,
            2 => full - 1,
            3 => if i % 2 == 0 { half } else { half - 1 },
            4 => *rng.pick(&[0, 1, half, half - 1, half + 1, full - 1]),
            5 => if i == only { *rng.pick(&[1, half, full - 1]) } else { 0 },
            6 => if i >= only { full - 1 } else { 0 },
            _ => if i <= only { full - 1 } else { 0 },
        };
        acc += p * Scalar::from(d % full);
        p *= base;
    }
    if rng.chance(1, 3) {
        -acc
    } else {
        acc
    }
}

fn scalars(rng: &mut Rng, n: usize, w: usize) -> Vec<Scalar> {
    let style = rng.below(7);
    let one = rng.any_scalar();
    (0..n)
        .map(|i| match style {
            0 => rng.scalar(),
            1 => rng.edge_scalar(),
            2 => one,
            3 => digit_scalar(rng, w),
            4 => if rng.chance(1, 4) { digit_scalar(rng, w) } else { Scalar::ZERO },
            5 => if i == n / 2 { rng.scalar() } else { Scalar::ZERO },
            _ => rng.any_scalar(),
        })
        .collect()
}

fn dot(d: &[Scalar], s: &[Scalar]) -> Scalar {
    d.iter().zip(s).map(|(a, b)| a * b).fold(Scalar::ZERO, |a, b| a + b)
}
fn g1v(d: &[Scalar]) -> Vec<G1Point> {
    d.iter().map(|s| refm::g1(*s)).collect()
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let t = args.thorough;
    let tiny = args.extra.get("mode").map(|x| x == "small").unwrap_or(false);
    let big = if tiny { 40 } else { 400 };
    let m = |q: u64| if tiny { q / 4 * if t { 20 } else { 1 } } else if t { q * 60 } else { q };

    rep.section("lincomb", m(3000), 0.3, args.threads, |_, rng, c| {
        let mut n = len(rng, big);
        let safe = rng.chance(2, 3);
        if !safe && n == 0 {
            n = 1;
        }
        let d = dlogs(rng, n, safe);
        let s = scalars(rng, n, 8);
        let want = dot(&d, &s);
        if rng.chance(2, 3) {
            let p = g1v(&d);
            let got = if safe { g1_lincomb(&p, &s) } else { g1_lincomb_unsafe(&p, &s) };
            c.eval(if safe { "g1_lincomb" } else { "g1_lincomb_unsafe" }, (n, want.to_bytes_be()));
            if got != Some(G1Projective::from(refm::g1(want))) {
                c.fail(json!({"what": format!("g1 linear combination of {n} points is wrong (none: {})", got.is_none()), "safe": safe,
                    "logs": d.iter().map(|x| hex(&x.to_bytes_be())).collect::<Vec<_>>(), "scalars": s.iter().map(|x| hex(&x.to_bytes_be())).collect::<Vec<_>>()}));
            }
        } else {
            let n = n.min(70);
            let (d, s) = (&d[..n], &s[..n]);
            let want = dot(d, s);
            let p: Vec<G2Point> = d.iter().map(|x| refm::g2(*x)).collect();
            let got = if safe { g2_lincomb(&p, s) } else { g2_lincomb_unsafe(&p, s) };
            c.eval(if safe { "g2_lincomb" } else { "g2_lincomb_unsafe" }, (n, want.to_bytes_be()));
            if got != Some(G2Projective::from(refm::g2(want))) {
                c.fail(json!({"what": format!("g2 linear combination of {n} points is wrong (none: {})", got.is_none()), "safe": safe}));
            }
        }
    });

    rep.section("lengths", m(400), 0.1, args.threads, |_, rng, c| {
        let a = rng.below(20);
        let mut b = rng.below(20);
        if a == b {
            b += 1;
        }
        let (p, s) = (g1v(&dlogs(rng, a, true)), scalars(rng, b, 4));
        let p2: Vec<G2Point> = (0..a).map(|_| refm::g2(rng.scalar())).collect();
        c.eval("lengths differ", (a, b));
        if g1_lincomb(&p, &s).is_some() || g2_lincomb(&p2, &s).is_some() || g1_lincomb_unsafe(&p, &s).is_some() || g2_lincomb_unsafe(&p2, &s).is_some() {
            c.fail(json!({"what": format!("a linear combination of {a} points with {b} scalars gives a result"),
                "g1": g1_lincomb(&p, &s).is_some(), "g2": g2_lincomb(&p2, &s).is_some()}));
        }
        // what the table-driven product cannot serve is refused, never computed out of bounds
        let g = g1v(&(0..a).map(|_| rng.nonzero()).collect::<Vec<_>>());
        let w = rng.range(2, 5);
        c.eval("table and scalar lengths differ", (a, b, w));
        if lib(|| FixedBaseMSMPrecompBLST::new(g.clone(), w).msm(s)).is_ok() {
            c.fail(json!({"what": format!("FixedBaseMSMPrecompBLST over {a} points takes {b} scalars")}));
        }
        let w = *rng.pick(&[1usize, 15, 0]);
        c.eval("width out of range", (a, w));
        let good = scalars(rng, a, 4);
        // a width it cannot serve is either refused or served correctly
        if let Ok(x) = lib(|| FixedBaseMSMPrecompBLST::new(g.clone(), w).msm(good.clone())) {
            let want = g1_lincomb(&g, &good);
            if Some(x) != want {
                c.fail(json!({"what": format!("FixedBaseMSMPrecompBLST of width {w} over {a} points is wrong")}));
            }
        }
    });

    // Fixed bases: no infinity among them; repeated bases only with the repeated scalar, so
    // that no two partial sums are opposite (the documented limitation of the batch addition).
    rep.section("fixed-base", m(2500), 0.6, args.threads, |i, rng, c| {
        let w = if i % 40 == 39 { rng.range(10, if t { 19 } else { 15 }) } else { 1 + (i as usize % 9) };
        let n = if w >= 10 { rng.range(1, 4) } else if tiny { rng.below(6) } else { match rng.below(4) { 0 => rng.below(4), 1 => 64, 2 => rng.below(40), _ => rng.below(100) } };
        let mut d: Vec<Scalar> = (0..n).map(|_| rng.nonzero()).collect();
        let mut s = scalars(rng, n, w);
        match rng.below(5) {
            0 if n > 0 => {
                { let y = d[0]; d.fill(y); }
                let x = s[0];
                s.fill(x);
            }
            1 => {
                for k in (0..n / 2 * 2).step_by(2) {
                    if rng.chance(1, 3) {
                        d[k + 1] = d[k];
                        s[k + 1] = s[k];
                    }
                }
            }
            _ => {}
        }
        let want = G1Projective::from(refm::g1(dot(&d, &s)));
        let p = g1v(&d);
        let which = if (2..=14).contains(&w) { rng.below(4) } else { rng.below(3) };
        let (name, got) = match which {
            0 => ("FixedBaseMSM precomputed", FixedBaseMSM::new(p, UsePrecomp::Yes { width: w }).msm(s.clone())),
            1 => ("FixedBaseMSMPrecompWindow", FixedBaseMSMPrecompWindow::new(&p, w).msm(&s)),
            2 => ("FixedBaseMSM plain", FixedBaseMSM::new(p, UsePrecomp::No).msm(s.clone())),
            _ => ("FixedBaseMSMPrecompBLST", FixedBaseMSMPrecompBLST::new(p, w).msm(s.clone())),
        };
        c.eval(name, (w, n, want.to_compressed()));
        c.classes.push(format!("width {w}"));
        if i < 3 {
            c.sample = Some(json!({"routine": name, "width": w, "points": n}));
        }
        if got != want {
            c.fail(json!({"what": format!("{name} of width {w} over {n} points is wrong"),
                "logs": d.iter().map(|x| hex(&x.to_bytes_be())).collect::<Vec<_>>(), "scalars": s.iter().map(|x| hex(&x.to_bytes_be())).collect::<Vec<_>>()}));
        }
    });

    rep.section("batch-addition", m(1500), 0.5, args.threads, |_, rng, c| {
        let sets = rng.below(7);
        let mut all: Vec<Vec<Scalar>> = vec![];
        for _ in 0..sets {
            let n = if !tiny && sets < 3 && rng.chance(1, 4) { rng.range(120, 520) } else { len(rng, if tiny { 30 } else { 140 }) };
            let mut d: Vec<Scalar> = (0..n).map(|_| rng.nonzero()).collect();
            match rng.below(4) {
                // equal neighbours, equal halves, all equal: doublings at every level of the tree
                0 if n > 1 => {
                    for k in (0..n / 2 * 2).step_by(2) {
                        d[k + 1] = d[k];
                    }
                }
                1 if n > 0 => { let y = d[0]; d.fill(y) }
                2 if n >= 4 => {
                    for k in (0..n / 4 * 4).step_by(4) {
                        d[k + 2] = d[k];
                        d[k + 3] = d[k + 1];
                    }
                }
                _ => {}
            }
            all.push(d);
        }
        let want: Vec<G1Projective> = all.iter().map(|d| refm::g1(d.iter().fold(Scalar::ZERO, |a, b| a + b)).into()).collect();
        let pts: Vec<Vec<G1Point>> = all.iter().map(|d| g1v(d)).collect();
        let got = multi_batch_addition_binary_tree_stride(pts.clone());
        let lens: Vec<usize> = all.iter().map(|d| d.len()).collect();
        c.eval("multi batch addition", &lens);
        if got != want {
            return c.fail(json!({"what": format!("batch addition of sets of {lens:?} points is wrong")}));
        }
        if let Some(p) = pts.first() {
            c.eval("batch addition", p.len());
            if batch_addition_binary_tree_stride(p.clone()) != want[0] {
                c.fail(json!({"what": format!("batch addition of {} points is wrong", p.len())}));
            }
        }
    });

    // every size once, around every power of two up to twice what the library itself uses
    if !tiny {
        let mut sizes: Vec<usize> = (0..if t { 400 } else { 140 }).collect();
        for k in 7..=13 {
            sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        sizes.extend([3000, 4095 * 2, 6143]);
        sizes.sort();
        sizes.dedup();
        // the boundary sizes first
        sizes.sort_by_key(|n| (*n > 1100) as usize * 4 + if *n > 10 && [*n + 1, *n, (*n).max(1) - 1].iter().any(|x| x.is_power_of_two()) { 0 } else { 2 });
        // points i*G, built by repeated addition
        let mut acc = G1Projective::identity();
        let mut proj = vec![];
        for _ in 0..8193 {
            acc += G1Projective::generator();
            proj.push(acc);
        }
        let pts: Vec<G1Point> = g1_batch_normalize(&proj);
        // bases without small relations: window sums of the others can be opposite, which
        // the batch addition excludes
        let mut r = Rng::new(args.seed, "P17/bases", 0);
        let fd: Vec<Scalar> = (0..260).map(|_| r.nonzero()).collect();
        let fp = g1v(&fd);
        rep.section("every-size", sizes.len() as u64, 0.6, args.threads, |i, rng, c| {
            let n = sizes[i as usize];
            let from = rng.below(8194 - n);
            let p = pts[from..from + n].to_vec();
            let d: Vec<Scalar> = (0..n).map(|k| Scalar::from((from + k + 1) as u64)).collect();
            let sum = d.iter().fold(Scalar::ZERO, |a, b| a + b);
            c.eval("batch addition of every size", n);
            if batch_addition_binary_tree_stride(p.clone()) != G1Projective::from(refm::g1(sum)) {
                return c.fail(json!({"what": format!("batch addition of {n} points is wrong")}));
            }
            let other = n / 2;
            let osum = d[..other].iter().fold(Scalar::ZERO, |a, b| a + b);
            let sets = if i % 2 == 0 { vec![p.clone(), p[..other].to_vec()] } else { vec![p[..other].to_vec(), p.clone()] };
            let mut want: Vec<G1Projective> = vec![refm::g1(sum).into(), refm::g1(osum).into()];
            if i % 2 == 1 {
                want.swap(0, 1);
            }
            c.eval("batch addition of two sets, every size", n);
            if multi_batch_addition_binary_tree_stride(sets) != want {
                return c.fail(json!({"what": format!("batch addition of sets of {n} and {other} points is wrong")}));
            }
            let s: Vec<Scalar> = if i % 3 == 0 { (0..n).map(|_| Scalar::from(rng.u64() >> 40)).collect() } else { (0..n).map(|_| rng.any_scalar()).collect() };
            let want = G1Projective::from(refm::g1(dot(&d, &s)));
            c.eval("g1_lincomb of every size", n);
            if g1_lincomb(&p, &s) != Some(want) || (n > 0 && g1_lincomb_unsafe(&p, &s) != Some(want)) {
                return c.fail(json!({"what": format!("linear combination of {n} points is wrong")}));
            }
            if n <= 260 {
                let w = rng.range(2, 6);
                let at = rng.below(261 - n);
                let p = fp[at..at + n].to_vec();
                let want = G1Projective::from(refm::g1(dot(&fd[at..at + n], &s)));
                c.eval("fixed-base product of every size", n);
                if FixedBaseMSM::new(p.clone(), UsePrecomp::Yes { width: w }).msm(s.clone()) != want {
                    return c.fail(json!({"what": format!("fixed-base product of width {w} over {n} points is wrong")}));
                }
                c.eval("blst fixed-base product of every size", n);
                if n > 0 && FixedBaseMSMPrecompBLST::new(p.clone(), w).msm(s.clone()) != want {
                    return c.fail(json!({"what": format!("FixedBaseMSMPrecompBLST of width {w} over {n} points is wrong")}));
                }
            }
            let v: Vec<Scalar> = s.iter().map(|x| if bool::from(x.is_zero()) { Scalar::ONE } else { *x }).collect();
            let mut inv = v.clone();
            batch_inverse(&mut inv);
            c.eval("batch inversion of every size", n);
            if inv.iter().zip(&v).any(|(a, b)| a * b != Scalar::ONE) {
                return c.fail(json!({"what": format!("batch inversion of {n} elements is wrong")}));
            }
            let mut proj: Vec<G1Projective> = proj[from..from + n].iter().map(|x| *x).collect();
            if n > 0 {
                let z = rng.below(n);
                proj[z] = G1Projective::identity();
                let mut want = p.clone();
                want[z] = G1Point::identity();
                c.eval("batch normalisation of every size", n);
                if g1_batch_normalize(&proj) != want {
                    return c.fail(json!({"what": format!("batch normalisation of {n} points is wrong")}));
                }
            }
        });
    }

    rep.section("inversion", m(1500), 0.3, args.threads, |_, rng, c| {
        let n = len(rng, 300);
        let v: Vec<Scalar> = (0..n).map(|_| loop { let s = rng.any_scalar(); if s != Scalar::ZERO { break s } }).collect();
        let want: Vec<Scalar> = v.iter().map(|x| x.invert().unwrap()).collect();
        let mut a = v.clone();
        batch_inverse(&mut a);
        let mut b = v.clone();
        // a scratchpad left over from other work
        let mut pad = vec![Scalar::from(3u64); rng.below(50)];
        batch_inverse_scratch_pad(&mut b, &mut pad);
        c.eval("batch inversion", (n, v.first().map(|x| x.to_bytes_be())));
        if a != want || b != want {
            return c.fail(json!({"what": format!("batch inversion of {n} elements is wrong"), "with scratchpad": b != want}));
        }
        // normalisation, infinity included
        let n = len(rng, 60);
        let d = dlogs(rng, n, true);
        let proj: Vec<G1Projective> = d.iter().map(|x| {
            let p = G1Projective::generator() * x;
            if rng.chance(1, 2) { p + G1Projective::generator() - G1Projective::generator() } else { p }
        }).collect();
        c.eval("batch normalisation", (n, d.first().map(|x| x.to_bytes_be())));
        if g1_batch_normalize(&proj) != g1v(&d) {
            return c.fail(json!({"what": format!("batch normalisation of {n} G1 points is wrong")}));
        }
        if n <= 20 {
            let p2: Vec<G2Projective> = d.iter().map(|x| G2Projective::generator() * x).collect();
            let w2: Vec<G2Point> = d.iter().map(|x| refm::g2(*x)).collect();
            c.eval("batch normalisation G2", n);
            if g2_batch_normalize(&p2) != w2 {
                c.fail(json!({"what": format!("batch normalisation of {n} G2 points is wrong")}));
            }
        }
    });

    rep.section("reduction-and-pairing", m(600), 1.0, args.threads, |i, rng, c| {
        let mut b = [0u8; 32];
        match rng.below(5) {
            0 => b.fill(0xff),
            1 => b = refm::R_BE,
            2 => {
                // k * r + small, for k = 0, 1, 2
                let mut carry = 0u32;
                let k = rng.below(3) as u32;
                let small = rng.below(300) as u32;
                for j in (0..32).rev() {
                    let x = refm::R_BE[j] as u32 * k + carry + if j == 31 { small } else { 0 };
                    b[j] = x as u8;
                    carry = x >> 8;
                }
            }
            _ => rng.fill(&mut b),
        }
        let want = b.iter().fold(Scalar::ZERO, |a, x| a * Scalar::from(256u64) + Scalar::from(*x as u64));
        c.eval("reduction of 32 bytes", b);
        if reduce_bytes_to_scalar_bias(b) != want {
            return c.fail(json!({"what": "a 32-byte string is reduced wrongly", "bytes": hex(&b)}));
        }
        if i % 3 == 0 {
            let n = rng.below(5);
            let mut a = dlogs(rng, n, true);
            let mut e = dlogs(rng, n, true);
            let mut truth = dot(&a, &e) == Scalar::ZERO;
            if !truth && rng.chance(2, 3) {
                a.push(-dot(&a, &e));
                e.push(Scalar::ONE);
                truth = true;
            }
            let p: Vec<G1Point> = g1v(&a);
            let q: Vec<G2Prepared> = e.iter().map(|x| G2Prepared::from(refm::g2(*x))).collect();
            let pairs: Vec<(&G1Point, &G2Prepared)> = p.iter().zip(&q).collect();
            c.eval("pairing product check", (a.len(), truth, i));
            if multi_pairings(&pairs) != truth {
                c.fail(json!({"what": format!("pairing product check over {} pairs says {} instead of {truth}", a.len(), !truth)}));
            }
        }
    });
    let _ = G1Point::identity().to_curve().to_affine();
    rep.finish()
}
