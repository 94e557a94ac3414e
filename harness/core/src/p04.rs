//! P04: recovery never returns data for a request that is not (part of) a codeword.
use crate::api::*;
use crate::{gen, p01};
use blstrs::Scalar;
use ff::Field;
use h_common::refm::*;
use h_common::*;
use serde_json::json;

fn refs(cells: &[Vec<u8>]) -> Vec<&[u8]> {
    cells.iter().map(|c| c.as_slice()).collect()
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P04/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 4 }]);
    // a few polynomials with their cells, reused by the cheap sections
    let pool: Vec<(gen::Blob, Vec<Vec<Scalar>>)> = (0..24)
        .map(|f| {
            let b = gen::blob_family(&mut rng, &w.r, f % 17);
            let v = w.r.coset_values(&b.coeffs);
            (b, v)
        })
        .collect();
    let t = args.thorough;

    rep.section("corrupt", if t { 400_000 } else { 4000 }, 0.35, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let (b, vals) = rng.pick(&pool);
        let n = if i < 64 { 65 + i as usize } else { rng.range(65, 128) };
        let (pat, have) = gen::present(rng, n);
        let mut cells: Vec<Vec<Scalar>> = have.iter().map(|k| vals[*k].clone()).collect();
        // number of altered elements, at most the code's distance minus one: certainly not a codeword
        let max = (n - 64) * 64;
        let how = rng.below(7);
        let mut touched = vec![];
        let delta = |rng: &mut Rng| loop {
            let d = rng.any_scalar();
            if !bool::from(d.is_zero()) {
                return d;
            }
        };
        match how {
            0 => {
                let (a, e) = (rng.below(n), rng.below(64));
                cells[a][e] += delta(rng);
                touched.push((have[a], e));
            }
            1 => {
                let e = rng.below(64);
                let a = *rng.pick(&[0, n - 1, n / 2, n - 2]);
                cells[a][e] += Scalar::ONE;
                touched.push((have[a], e));
            }
            2 => {
                let a = rng.below(n);
                for e in 0..64 {
                    cells[a][e] += delta(rng);
                }
                touched.push((have[a], 64));
            }
            3 => {
                // up to the maximum, scattered
                let m = rng.range(2, max.min(400));
                for p in rng.subset(n * 64, m) {
                    cells[p / 64][p % 64] += delta(rng);
                }
                touched.push((m, 0));
            }
            4 => {
                // as many whole cells as possible
                let m = rng.range(1, n - 64);
                for a in rng.subset(n, m) {
                    for e in 0..64 {
                        cells[a][e] = rng.any_scalar();
                    }
                    cells[a][0] = vals[have[a]][0] + delta(rng);
                    touched.push((have[a], 64));
                }
            }
            5 => {
                // the same position in many cells by the same amount
                let m = rng.range(1, n - 64);
                let e = rng.below(64);
                let d = delta(rng);
                for a in rng.subset(n, m) {
                    cells[a][e] += d;
                    touched.push((have[a], e));
                }
            }
            _ => {
                // two elements that cancel in a sum
                let d = delta(rng);
                let a = rng.below(n);
                let e = rng.subset(64, 2);
                cells[a][e[0]] += d;
                cells[a][e[1]] -= d;
                touched.push((have[a], e[0]));
            }
        }
        let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        let by: Vec<Vec<u8>> = cells.iter().map(|v| scalars_to_bytes(v)).collect();
        c.eval(&format!("corrupt{how}/{pat}"), (&idx, &by));
        if i == 0 {
            c.sample = Some(json!({"class": b.class, "pattern": pat, "altered (cell, element)": touched}));
        }
        let o = recover(ctx, &idx, &refs(&by));
        if o != Out::InputError {
            c.fail(json!({"what": format!("inconsistent cells gave {} instead of an error", o.brief()), "class": b.class,
                "cells": n, "indices": have, "how": how, "altered": touched}));
        }
    });

    rep.section("wrong-cells", if t { 100_000 } else { 1500 }, 0.2, args.threads, |i, rng, c| {
        // genuine cells under wrong indices, or cells of another blob
        let ctx = &w.ctxs[0].1;
        let a = rng.below(pool.len());
        let b2 = rng.below(pool.len());
        let n = rng.range(65, 128);
        let (pat, have) = gen::present(rng, n);
        let mut cells: Vec<Vec<Scalar>> = have.iter().map(|k| pool[a].1[*k].clone()).collect();
        let before = cells.clone();
        let how = i % 4;
        // everything below alters at most n-64 cells
        match how {
            0 => {
                let x = rng.subset(n, 2);
                if n - 64 >= 2 {
                    cells.swap(x[0], x[1]);
                }
            }
            1 => {
                let m = rng.range(1, n - 64);
                for x in rng.subset(n, m) {
                    cells[x] = pool[b2].1[have[x]].clone();
                }
            }
            2 => {
                let x = rng.below(n);
                cells[x].reverse();
            }
            _ => {
                let x = rng.below(n);
                let s = rng.range(1, 63);
                cells[x].rotate_left(s);
            }
        }
        let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        let by: Vec<Vec<u8>> = cells.iter().map(|v| scalars_to_bytes(v)).collect();
        if cells == before {
            c.skipped = true;
            return;
        }
        c.eval(&format!("wrong-cells{how}/{pat}"), (&idx, &by));
        let o = recover(ctx, &idx, &refs(&by));
        if o != Out::InputError {
            c.fail(json!({"what": format!("misplaced cells gave {} instead of an error", o.brief()), "how": how, "indices": have}));
        }
    });

    rep.section("high-degree", if t { 100_000 } else { 1500 }, 0.3, args.threads, |i, rng, c| {
        // values of a polynomial whose only coefficients at or above 4096 are chosen ones
        let ctx = &w.ctxs[0].1;
        let n = match i % 4 {
            0 => 128,
            1 => 65,
            _ => rng.range(65, 128),
        };
        let top = 64 * n;
        let k = match i % 5 {
            0 => 4096,
            1 => top - 1,
            2 => 4097,
            _ => rng.range(4096, top - 1),
        };
        let mut coeffs = vec![Scalar::ZERO; 8192];
        let low = rng.chance(1, 2);
        if low {
            let b = &rng.pick(&pool).0;
            coeffs[..4096].copy_from_slice(&b.coeffs);
        }
        coeffs[k] = loop {
            let d = rng.any_scalar();
            if !bool::from(d.is_zero()) {
                break d;
            }
        };
        let mut second = None;
        if rng.chance(1, 4) {
            // two high coefficients that sum to zero
            let k2 = rng.range(4096, top - 1);
            if k2 != k {
                coeffs[k2] = -coeffs[k];
                second = Some(k2);
            }
        }
        let vals = w.r.coset_values(&coeffs);
        let (pat, have) = gen::present(rng, n);
        let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        let by: Vec<Vec<u8>> = have.iter().map(|k| scalars_to_bytes(&vals[*k])).collect();
        c.eval(&format!("high-degree/{pat}"), (&idx, k, second, low, n));
        if i == 0 {
            c.sample = Some(json!({"cells": n, "the polynomial has coefficient": k}));
        }
        let o = recover(ctx, &idx, &refs(&by));
        if o != Out::InputError {
            c.fail(json!({"what": format!("{n} cells of a polynomial with a non-zero coefficient at {k} gave {}", o.brief()), "second": second, "indices": have}));
        }
    });

    rep.section("malformed", if t { 60_000 } else { 1200 }, 0.4, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let (_, vals) = rng.pick(&pool);
        let kind = i % 9;
        let n = match kind {
            0 => rng.below(64),
            _ => rng.range(64, 128),
        };
        let mut have: Vec<usize> = if n >= 64 { gen::present(rng, n).1 } else { rng.subset(128, n) };
        let mut by: Vec<Vec<u8>> = have.iter().map(|k| scalars_to_bytes(&vals[*k])).collect();
        let mut idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        let class: String = match kind {
            0 => format!("too few: {n}"),
            1 => {
                let d = rng.range(1, 3);
                for _ in 0..d {
                    if rng.chance(1, 2) {
                        by.pop();
                    } else {
                        idx.pop();
                    }
                }
                if by.len() == idx.len() {
                    by.pop();
                }
                "lengths differ".into()
            }
            2 => {
                // duplicate with the same content; the number of distinct cells may be enough or not
                let a = rng.below(n);
                let p = rng.below(n + 1);
                idx.insert(p, idx[a]);
                let cell = scalars_to_bytes(&vals[have[a]]);
                by.insert(p, cell);
                "duplicate index, same cell".into()
            }
            3 => {
                let x = rng.subset(n, 2);
                idx[x[0]] = idx[x[1]];
                if rng.chance(1, 2) {
                    by[x[0]] = by[x[1]].clone();
                }
                "duplicate index".into()
            }
            4 => {
                // more than 128 entries
                while idx.len() <= 128 {
                    let a = rng.below(128);
                    idx.push(a as u64);
                    by.push(scalars_to_bytes(&vals[a]));
                }
                "more than 128".into()
            }
            5 | 6 => {
                let p = *rng.pick(&[0, n - 1, n / 2]);
                let v = idx[p];
                idx[p] = *rng.pick(&[128, 129, 191, 192, 255, 256, 128 + v, 256 + v, (1 << 32) + v, (1 << 63) + v, u64::MAX, 8191, 65536 + v]);
                "index out of range".into()
            }
            _ => {
                let (a, e) = (rng.below(n), *rng.pick(&[0, 63, 31, 62, 1]));
                let bad = bad_scalar(rng, &vals[have[a]][e]);
                by[a][32 * e..32 * e + 32].copy_from_slice(&bad);
                "non-canonical element".into()
            }
        };
        have.clear();
        c.eval(&format!("malformed/{}", class.split(':').next().unwrap()), (&idx, &by));
        let o = recover(ctx, &idx, &refs(&by));
        if o != Out::InputError {
            c.fail(json!({"what": format!("malformed request ({class}) gave {} instead of an input error", o.brief()), "indices": idx, "cells": by.len()}));
        }
    });

    rep.section("exactly-64", if t { 20_000 } else { 150 }, 1.0, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let (pat, have) = gen::present(rng, 64);
        let cells: Vec<Vec<Scalar>> = (0..64)
            .map(|_| gen::cell_values(rng).iter().map(|x| x.0).collect())
            .collect();
        let by: Vec<Vec<u8>> = cells.iter().map(|v| scalars_to_bytes(v)).collect();
        let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
        c.eval(&format!("exactly-64/{pat}"), (&idx, &by));
        match recover(ctx, &idx, &refs(&by)) {
            Out::Data(d) => {
                for (j, k) in have.iter().enumerate() {
                    if d.0[k * CELL..(k + 1) * CELL] != by[j][..] {
                        return c.fail(json!({"what": format!("supplied cell {k} was changed by recovery"), "indices": have}));
                    }
                }
                let data = match bytes_to_scalars(&d.0[..BLOB]) {
                    Some(x) => x,
                    None => return c.fail(json!({"what": "recovered cells are not canonical", "indices": have})),
                };
                let (_, ec, ep) = p01::expected(&w.r, &w.r.data_to_coeffs(&data));
                if ec != d.0 || ep != d.1 {
                    c.fail(json!({"what": "recovered cells are not a codeword with its proofs", "indices": have}));
                }
            }
            o => c.fail(json!({"what": format!("64 canonical cells gave {}", o.brief()), "indices": have})),
        }
    });
    rep.finish()
}

/// A 32-byte string at or above the group order, often congruent to the value it replaces.
pub fn bad_scalar(rng: &mut Rng, v: &Scalar) -> [u8; 32] {
    let mut r = R_BE;
    match rng.below(7) {
        0 => r,
        1 => [0xff; 32],
        2 => {
            // r + v, if it fits in 256 bits (it does: 2r < 2^256)
            let b = v.to_bytes_be();
            let mut carry = 0u16;
            for i in (0..32).rev() {
                let s = r[i] as u16 + b[i] as u16 + carry;
                r[i] = s as u8;
                carry = s >> 8;
            }
            r
        }
        3 => {
            r[31] += rng.below(200) as u8 + 1;
            r
        }
        4 => {
            // agrees with r on a prefix, larger afterwards
            let p = rng.below(31);
            if r[p] == 0xff {
                r[31] = 0xff;
                return r;
            }
            r[p] += 1;
            for x in &mut r[p + 1..] {
                *x = rng.below(256) as u8;
            }
            r
        }
        5 => {
            let mut b = [0u8; 32];
            rng.fill(&mut b);
            b[0] |= 0x80;
            b
        }
        _ => {
            let mut b = v.to_bytes_be();
            b[0] |= 0x80;
            b
        }
    }
}
