//! P03: recovery from any 64 or more genuine cells gives the predicted bytes.
use crate::api::*;
use crate::{gen, p01};
use h_common::*;
use serde_json::json;

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P03/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 6, threads: 1 }, Cfg { width: 0, threads: 4 }]);
    let n = if args.thorough { 200_000 } else { 1500 };
    rep.section("recover", n, 1.0, args.threads, |i, rng, c| {
        let (cfg, ctx) = &w.ctxs[(i % 3) as usize];
        let b = gen::blob(rng, &w.r, i);
        let (_, cells, proofs) = p01::expected(&w.r, &b.coeffs);
        // several erasure patterns per blob: first sweep all sizes, then favour the boundary
        for j in 0..2u64 {
            let size = if i < 33 {
                64 + ((2 * i + j) % 65) as usize
            } else {
                *rng.pick(&[64, 64, 64, 65, 66, 95, 96, 97, 126, 127, 128, 0]).max(&0)
            };
            let size = if size == 0 { rng.range(64, 128) } else { size };
            let (pat, have) = gen::present(rng, size);
            let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
            let cs: Vec<&[u8]> = have.iter().map(|k| &cells[k * CELL..(k + 1) * CELL]).collect();
            let info = |what: String| json!({"what": what, "class": b.class, "config": format!("{cfg:?}"), "cells": size, "pattern": pat, "indices": have});
            c.eval(&format!("size={size}"), (&idx, &b.bytes));
            c.eval(&format!("{pat}/{}", b.class), (&idx, &b.bytes, 1));
            if i < 2 && j == 0 {
                c.sample = Some(json!({"class": b.class, "pattern": pat, "indices": have}));
            }
            match recover(ctx, &idx, &cs) {
                Out::Data(d) => {
                    if d.0 != cells {
                        let k = (0..128).find(|k| d.0[k * CELL..(k + 1) * CELL] != cells[k * CELL..(k + 1) * CELL]);
                        return c.fail(info(format!("recovered cell {k:?} differs from the original")));
                    }
                    if d.1 != proofs {
                        let k = (0..128).find(|k| d.1[k * 48..(k + 1) * 48] != proofs[k * 48..(k + 1) * 48]);
                        return c.fail(info(format!("recovered proof {k:?} differs from the original")));
                    }
                }
                o => return c.fail(info(format!("genuine cells were not recovered: {}", o.brief()))),
            }
        }
        // the library agrees with itself on the same blob
        match compute(ctx, &b.bytes) {
            Out::Data(d) if d.0 == cells && d.1 == proofs => {}
            o => c.fail(json!({"what": format!("compute_cells_and_kzg_proofs differs from what recovery must return: {}", o.brief()), "class": b.class})),
        }
    });
    rep.finish()
}
