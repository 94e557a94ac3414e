//! P08: every operation is total on untrusted bytes and accepts exactly the
//! canonical encodings.
use crate::api::*;
use crate::gen::{self, Batch};
use crate::p04::bad_scalar;
use blstrs::Scalar;
use h_common::refm::*;
use h_common::*;
use serde_json::json;

/// 48-byte strings around every rule of the compressed point encoding.
pub fn point_bytes(rng: &mut Rng, genuine: &[u8; 48]) -> (&'static str, [u8; 48]) {
    let p_be = unhex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab");
    let mut b = *genuine;
    match rng.below(20) {
        0 => {
            b[0] &= 0x7f;
            ("uncompressed flag", b)
        }
        1 => {
            b[0] |= 0x40;
            ("infinity flag on a point", b)
        }
        2 => {
            let mut z = [0u8; 48];
            z[0] = *rng.pick(&[0xe0, 0x40, 0x60, 0x20, 0x00]);
            ("wrong infinity", z)
        }
        3 => {
            let mut z = [0u8; 48];
            z[0] = 0xc0;
            z[rng.range(1, 47)] = 1 << rng.below(8);
            ("infinity with payload", z)
        }
        4 => {
            let mut z = [0u8; 48];
            z[0] = 0xc0 | (1 << rng.below(5));
            ("infinity with payload in first byte", z)
        }
        5 => {
            let mut z = [0u8; 48];
            z.copy_from_slice(&p_be);
            z[0] |= *rng.pick(&[0x80, 0xa0]);
            let k = rng.below(4) as u8;
            z[47] += k;
            ("x at or above the modulus", z)
        }
        6 => {
            let mut z = [0xff; 48];
            z[0] = *rng.pick(&[0x9f, 0xbf, 0xff]);
            ("x all ones", z)
        }
        7 => {
            let mut z = [0u8; 48];
            rng.fill(&mut z);
            ("random bytes", z)
        }
        8 => {
            let mut z = [0u8; 48];
            rng.fill(&mut z);
            z[0] = 0x80 | (z[0] & 0x2f);
            ("random x", z)
        }
        9 | 10 => ("off subgroup", off_subgroup(rng)),
        11 | 12 => {
            let three = rng.chance(1, 2);
            let t = torsion_point(rng, three);
            ("genuine plus torsion", if valid_g1(genuine) && genuine[0] & 0x40 == 0 { add_torsion(genuine, &t) } else { off_subgroup(rng) })
        }
        13 => {
            b[rng.below(48)] ^= 1 << rng.below(8);
            ("one bit flipped", b)
        }
        14 => {
            b[0] ^= 0x20;
            ("sign flipped", b)
        }
        15 => {
            let mut z = [0u8; 48];
            z[0] = *rng.pick(&[0x80, 0xa0]);
            ("x = 0", z)
        }
        16 => ("zero bytes", [0; 48]),
        17 => {
            // x of a genuine point plus the modulus, if it fits in 381 bits
            let mut x = *genuine;
            let flags = x[0] & 0xe0;
            x[0] &= 0x1f;
            let mut carry = 0u16;
            for i in (0..48).rev() {
                let s = x[i] as u16 + p_be[i] as u16 + carry;
                x[i] = s as u8;
                carry = s >> 8;
            }
            if x[0] & 0xe0 != 0 {
                ("x at or above the modulus", {
                    let mut z: [u8; 48] = p_be.as_slice().try_into().unwrap();
                    z[0] |= 0x80;
                    z
                })
            } else {
                x[0] |= flags;
                ("x plus the modulus", x)
            }
        }
        18 => {
            b.reverse();
            ("reversed bytes", b)
        }
        _ => {
            let mut z = [0u8; 48];
            z[0] = 0xc0;
            ("infinity", z)
        }
    }
}

fn negated(t: &blst::blst_p1) -> blst::blst_p1 {
    let mut n = *t;
    unsafe { blst::blst_p1_cneg(&mut n, true) };
    n
}

fn panicky(o: &Out) -> bool {
    matches!(o, Out::Panic(_))
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P08/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 3 }]);
    let r = &w.r;
    let t = args.thorough;

    // one bad field element at any position of a blob: both blob operations refuse
    rep.section("blob-elements", if t { 40_000 } else { 4400 }, 0.25, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let mut bytes = vec![0u8; BLOB];
        let fill = rng.below(3);
        if fill > 0 {
            for ch in bytes.chunks_mut(32) {
                rng.fill(ch);
                ch[0] = if fill == 1 { ch[0] & 0x3f } else { 0 };
            }
        }
        let p = match i {
            0..=4095 => i as usize,
            _ => *rng.pick(&[0, 1, 63, 64, 2047, 2048, 4095]),
        };
        let v = Scalar::from(rng.u64());
        let bad = bad_scalar(rng, &v);
        bytes[32 * p..32 * p + 32].copy_from_slice(&bad);
        c.eval("bad blob element: commitment", (p, bad, 0));
        let o = commit(ctx, &bytes);
        if o != Out::InputError {
            return c.fail(json!({"what": format!("a blob whose element {p} is {} gave {}", hex(&bad), o.brief())}));
        }
        c.eval("bad blob element: cells", (p, bad, 1));
        let o = compute(ctx, &bytes);
        if o != Out::InputError {
            c.fail(json!({"what": format!("a blob whose element {p} is {} gave {}", hex(&bad), o.brief())}));
        }
    });

    // the largest canonical values are accepted
    rep.section("blob-accept", if t { 2000 } else { 60 }, 0.15, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let mut bytes = vec![0u8; BLOB];
        let mut top = R_BE;
        top[31] = 0; // r - 1
        let mut k = 0;
        for ch in bytes.chunks_mut(32) {
            match rng.below(4) {
                0 => {
                    ch.copy_from_slice(&top);
                    // r - 1 - small, still canonical
                    let d = rng.below(2) as u8;
                    if d == 1 {
                        ch[27] = 0xfe;
                        rng.fill(&mut ch[28..32]);
                    }
                }
                1 => ch[31] = 1,
                _ => {}
            }
            assert!(canonical_scalar(ch));
            k += ch[0] as usize;
        }
        c.eval("extreme canonical blob", (&bytes, k));
        let o = commit(ctx, &bytes);
        if !matches!(o, Out::Com(_)) {
            c.fail(json!({"what": format!("a canonical blob gave {}", o.brief())}));
        }
    });

    // points in verification, at any place of a batch
    rep.section("points", if t { 200_000 } else { 6000 }, 0.45, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = match rng.below(6) {
            0 => 1,
            1 => rng.range(60, 130),
            _ => rng.range(1, 12),
        };
        let mut ts: Vec<gen::Tuple> = vec![];
        let com = rng.scalar();
        for _ in 0..n {
            let same = rng.chance(1, 2);
            ts.push(gen::true_tuple(rng, r, if same { Some(com) } else { None }));
        }
        let mut b = Batch::of(&ts);
        let p = *rng.pick(&[0, n - 1, n / 2]);
        let p = if rng.chance(1, 2) { p } else { rng.below(n) };
        let which = i % 2 == 0;
        let genuine = if which { b.coms[p] } else { b.proofs[p] };
        let (class, pt) = point_bytes(rng, &genuine);
        if which {
            b.coms[p] = pt;
        } else {
            b.proofs[p] = pt;
        }
        let ok = valid_g1(&pt);
        let o = b.verify(ctx);
        c.eval(&format!("{} {class}: {}", if which { "commitment" } else { "proof" }, if ok { "canonical" } else { "not canonical" }), (pt, p, n));
        let want = if !ok {
            Out::InputError
        } else if pt == genuine {
            Out::Valid
        } else {
            Out::InvalidProof
        };
        if i == 7 {
            c.sample = Some(json!({"class": class, "bytes": hex(&pt), "canonical": ok, "position": p, "batch": n}));
        }
        if o != want {
            c.fail(json!({"what": format!("{} bytes {} ({class}) at position {p} of {n} gave {} instead of {}",
                if which {"commitment"} else {"proof"}, hex(&pt), o.brief(), want.brief())}));
        }
    });

    // several bad points at once, whose defects cancel in sums and products
    rep.section("several-points", if t { 60_000 } else { 1500 }, 0.45, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = rng.range(1, 9);
        let ts: Vec<gen::Tuple> = (0..n).map(|_| gen::true_tuple(rng, r, None)).collect();
        let mut b = Batch::of(&ts);
        // the places: commitments 0..n, proofs n..2n
        let mut places: Vec<usize> = (0..2 * n).collect();
        rng.shuffle(&mut places);
        let within = i % 3; // 0: commitments only, 1: proofs only, 2: anywhere
        places.retain(|p| within == 2 || (*p < n) == (within == 0));
        let (class, m) = match i % 5 {
            0 => ("two points, torsion cancels", 2),
            1 => ("three points, one torsion point each", 3),
            2 => ("two points, same torsion", 2),
            3 => ("all points with torsion", places.len()),
            _ => ("two points of different kinds", 2),
        };
        places.truncate(m);
        let t3 = i % 5 == 1 || rng.chance(1, 2);
        let tor = torsion_point(rng, t3);
        let neg = negated(&tor);
        for (j, p) in places.iter().enumerate() {
            let d = if *p < n { &mut b.coms[*p] } else { &mut b.proofs[*p - n] };
            if d[0] & 0x40 != 0 {
                *d = off_subgroup(rng);
            } else if i % 5 == 4 && j == 0 {
                *d = loop {
                    let x = point_bytes(rng, d).1;
                    if !valid_g1(&x) {
                        break x;
                    }
                };
            } else {
                *d = add_torsion(d, if i % 5 == 0 && j == 1 { &neg } else { &tor });
            }
        }
        c.eval(class, b.key());
        let o = b.verify(ctx);
        if o != Out::InputError {
            c.fail(json!({"what": format!("{class} (at {places:?} of {n} commitments and {n} proofs) gave {} instead of an input error", o.brief()),
                "commitments": b.coms.iter().map(|x| hex(x)).collect::<Vec<_>>(), "proofs": b.proofs.iter().map(|x| hex(x)).collect::<Vec<_>>()}));
        }
    });

    // cell elements, indices and lengths in verification
    rep.section("verify-shape", if t { 200_000 } else { 5000 }, 0.5, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = rng.range(1, 9);
        let ts: Vec<gen::Tuple> = (0..n).map(|_| gen::true_tuple(rng, r, None)).collect();
        let mut b = Batch::of(&ts);
        let p = rng.below(n);
        let class = match i % 4 {
            0 => {
                let e = rng.below(64);
                let bad = bad_scalar(rng, &ts[p].y[e].0);
                b.cells[p][32 * e..32 * e + 32].copy_from_slice(&bad);
                "non-canonical cell element".to_string()
            }
            1 => {
                let v = b.idx[p];
                b.idx[p] = *rng.pick(&[128, 129, 255, 256, 128 + v, 256 + v, (1 << 32) + v, (1 << 63) + v, u64::MAX, u64::MAX - v, 65536 + v]);
                "index out of range".to_string()
            }
            2 => {
                // any of the four lists longer or shorter than the others, including empty
                let l = rng.below(4);
                let m = match rng.below(4) {
                    0 => 0,
                    1 => n - 1,
                    2 => n + 1,
                    _ => n + rng.range(1, 200),
                };
                macro_rules! fit {
                    ($v:expr) => {{
                        let f = $v[0].clone();
                        $v.resize(m, f);
                    }};
                }
                match l {
                    0 => fit!(b.coms),
                    1 => fit!(b.idx),
                    2 => fit!(b.cells),
                    _ => fit!(b.proofs),
                }
                format!("length of list {l}")
            }
            _ => {
                // three lists empty, one not; or two and two
                let keep = rng.below(14) + 1; // bit mask, neither none nor all
                if keep & 1 == 0 {
                    b.coms.clear();
                }
                if keep & 2 == 0 {
                    b.idx.clear();
                }
                if keep & 4 == 0 {
                    b.cells.clear();
                }
                if keep & 8 == 0 {
                    b.proofs.clear();
                }
                "some lists empty".to_string()
            }
        };
        let o = b.verify(ctx);
        c.eval(&class, b.key());
        if o != Out::InputError {
            c.fail(json!({"what": format!("{class} gave {} instead of an input error", o.brief()),
                "lengths": [b.coms.len(), b.idx.len(), b.cells.len(), b.proofs.len()], "indices": b.idx}));
        }
    });

    // recovery requests
    let pool: Vec<(gen::Blob, Vec<Vec<Scalar>>)> = (0..6)
        .map(|f| {
            let b = gen::blob_family(&mut rng, r, f);
            let v = r.coset_values(&b.coeffs);
            (b, v)
        })
        .collect();
    rep.section("recover-shape", if t { 100_000 } else { 2000 }, 0.6, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let (_, vals) = rng.pick(&pool);
        let n = rng.range(64, 128);
        let have = gen::present(rng, n).1;
        let mut idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        let mut by: Vec<Vec<u8>> = have.iter().map(|k| scalars_to_bytes(&vals[*k])).collect();
        let class = match i % 5 {
            0 => {
                let (a, e) = (if i < 1280 { (i / 5) as usize % n } else { rng.below(n) }, rng.below(64));
                let bad = bad_scalar(rng, &vals[have[a]][e]);
                by[a][32 * e..32 * e + 32].copy_from_slice(&bad);
                "recover: non-canonical element"
            }
            1 => {
                let p = rng.below(n);
                let v = idx[p];
                idx[p] = *rng.pick(&[128, 255, 256, 128 + v, 256 + v, (1 << 32) + v, (1 << 63) + v, u64::MAX]);
                "recover: index out of range"
            }
            2 => {
                let m = *rng.pick(&[0, 1, n - 1, 63]);
                if rng.chance(1, 2) {
                    idx.truncate(m);
                } else {
                    by.truncate(m);
                }
                if idx.len() == by.len() {
                    by.pop();
                }
                "recover: lengths"
            }
            3 => {
                let m = rng.below(64);
                idx.truncate(m);
                by.truncate(m);
                "recover: too few (possibly none)"
            }
            _ => {
                // huge repeated request
                let m = rng.range(129, 400);
                while idx.len() < m {
                    let a = rng.below(n);
                    idx.push(idx[a]);
                    by.push(by[a].clone());
                }
                "recover: too many"
            }
        };
        let cs: Vec<&[u8]> = by.iter().map(|x| x.as_slice()).collect();
        c.eval(class, (&idx, &by));
        let o = recover(ctx, &idx, &cs);
        if o != Out::InputError {
            c.fail(json!({"what": format!("{class} gave {} instead of an input error", o.brief()), "indices": idx, "cells": by.len()}));
        }
    });

    // byte soup: no panic, and the predicted class
    rep.section("soup", if t { 100_000 } else { 1500 }, 1.0, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = rng.below(6);
        let mut b = Batch::default();
        let len = |rng: &mut Rng| if rng.chance(9, 10) { n } else { rng.below(8) };
        for _ in 0..len(rng) {
            let g = g1(Scalar::from(rng.u64())).to_compressed();
            b.coms.push(if rng.chance(1, 3) { point_bytes(rng, &g).1 } else { g });
        }
        for _ in 0..len(rng) {
            b.idx.push(if rng.chance(1, 12) { rng.u64() } else { rng.below(128) as u64 });
        }
        for _ in 0..len(rng) {
            let mut x = vec![0u8; CELL];
            let k = rng.below(3);
            if k > 0 {
                rng.fill(&mut x);
                for ch in x.chunks_mut(32) {
                    if k == 1 || !rng.chance(1, 60) {
                        ch[0] &= 0x3f;
                    }
                }
            }
            b.cells.push(x);
        }
        for _ in 0..len(rng) {
            let g = g1(Scalar::from(rng.u64())).to_compressed();
            b.proofs.push(if rng.chance(1, 3) { point_bytes(rng, &g).1 } else { g });
        }
        let same = b.coms.len() == b.idx.len() && b.idx.len() == b.cells.len() && b.cells.len() == b.proofs.len();
        let good = same
            && b.coms.iter().chain(&b.proofs).all(valid_g1)
            && b.idx.iter().all(|k| *k < 128)
            && b.cells.iter().all(|x| x.chunks(32).all(canonical_scalar));
        let o = b.verify(ctx);
        c.eval(&format!("soup: {}", if good { "well formed" } else { "malformed" }), b.key());
        let ok = if !good {
            o == Out::InputError
        } else if n == 0 {
            o == Out::Valid
        } else {
            matches!(o, Out::Valid | Out::InvalidProof)
        };
        if !ok || panicky(&o) {
            c.fail(json!({"what": format!("a {} request gave {}", if good {"well-formed"} else {"malformed"}, o.brief()),
                "lengths": [b.coms.len(), b.idx.len(), b.cells.len(), b.proofs.len()], "indices": b.idx,
                "commitments": b.coms.iter().map(|x| hex(x)).collect::<Vec<_>>(), "proofs": b.proofs.iter().map(|x| hex(x)).collect::<Vec<_>>()}));
        }
    });
    rep.finish()
}
