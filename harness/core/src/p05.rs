//! P05: every batch of true tuples is accepted.
use crate::api::*;
use crate::gen::{self, Batch, Tuple};
use h_common::*;
use serde_json::json;

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P05/setup", 0);
    let w = World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 0, threads: 3 }]);
    let t = args.thorough;

    rep.section("empty", 4, 0.05, args.threads, |i, _rng, c| {
        c.eval("batch of zero", i);
        let o = verify(&w.ctxs[(i % 2) as usize].1, &[], &[], &[], &[]);
        if o != Out::Valid {
            c.fail(json!({"what": format!("the empty batch gave {}", o.brief())}));
        }
    });

    // tuples of arbitrary polynomials, by scalars
    rep.section("tuples", if t { 100_000 } else { 1500 }, 0.6, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let n = if i < 40 { i as usize + 1 } else { gen::batch_size(rng, if t { 1100 } else { 520 }) };
        let ncom = match rng.below(5) {
            0 => 1,
            1 => n,
            2 => rng.range(1, n),
            _ => rng.range(1, n.min(8)),
        };
        let shape = rng.below(6);
        let same_k = rng.below(128);
        let coms: Vec<_> = (0..ncom)
            .map(|j| if j > 0 && rng.chance(1, 12) { Default::default() } else if rng.chance(1, 20) { rng.edge_scalar() } else { rng.scalar() })
            .collect();
        let mut ts: Vec<Tuple> = vec![];
        for j in 0..n {
            let com = match shape {
                0 => Some(coms[j % ncom]),
                1 => Some(coms[j * ncom / n]),
                2 => Some(coms[rng.below(ncom)]),
                3 => None,
                4 => Some(coms[ncom - 1 - (j % ncom)]),
                // opposite commitments: encodings that differ in one bit
                _ => Some(if rng.chance(1, 2) { coms[0] } else { -coms[0] }),
            };
            if j > 0 && rng.chance(1, 10) {
                let d = ts[rng.below(j)].clone();
                ts.push(d);
                continue;
            }
            let mut x = gen::true_tuple(rng, &w.r, com);
            match i % 4 {
                0 => x.k = j % 128,
                1 => x.k = same_k,
                _ => {}
            }
            x.fix_proof(&w.r);
            ts.push(x);
        }
        let b = Batch::of(&ts);
        c.eval(&format!("tuples/shape{shape}"), b.key());
        c.eval(&format!("batch size 2^{}", n.ilog2()), (b.key(), 1));
        let inf = b.coms.iter().chain(&b.proofs).filter(|x| x[0] == 0xc0).count();
        if inf > 0 {
            c.eval("with points at infinity", (b.key(), 2));
        }
        if i == 50 {
            c.sample = Some(json!({"size": n, "commitments": ncom, "shape": shape, "infinity points": inf, "indices": b.idx}));
        }
        let o = b.verify(ctx);
        if o != Out::Valid {
            c.fail(json!({"what": format!("a batch of {n} true tuples gave {}", o.brief()), "commitments": ncom, "shape": shape, "indices": b.idx}));
        }
    });

    // what the library itself produces
    let blobs: Vec<(gen::Blob, Vec<u8>, Vec<u8>, [u8; 48])> = {
        let mut v = vec![];
        for f in 0..17 {
            v.push(gen::blob_family(&mut rng, &w.r, f));
        }
        let ctx = &w.ctxs[0].1;
        refm::par_map(&v, |b| match (commit(ctx, &b.bytes), compute(ctx, &b.bytes)) {
            (Out::Com(c), Out::Data(d)) => Some((d.0.clone(), d.1.clone(), <[u8; 48]>::try_from(&c[..]).unwrap())),
            _ => None,
        })
        .into_iter()
        .zip(v)
        .filter_map(|(x, b)| x.map(|(a, p, c)| (b, a, p, c)))
        .collect()
    };
    rep.note("own blobs", blobs.len());
    if blobs.len() < 17 {
        let mut c = Case::new();
        c.fail(json!({"what": "commitment or cells could not be computed for a canonical blob"}));
        rep.absorb("own", 0, c);
        rep.finish();
    }
    rep.section("own", if t { 30_000 } else { 500 }, 1.0, args.threads, |i, rng, c| {
        let ctx = &w.ctxs[(i % 2) as usize].1;
        let mut pairs: Vec<(usize, usize)> = match i % 5 {
            // a whole blob
            0 => (0..128).map(|k| ((i as usize / 5) % 17, k)).collect(),
            // one column of all blobs
            1 => (0..17).map(|b| (b, i as usize % 128)).collect(),
            // a single cell
            2 => vec![(rng.below(17), rng.below(128))],
            _ => {
                let n = gen::batch_size(rng, 260);
                (0..n).map(|_| (rng.below(17), rng.below(128))).collect()
            }
        };
        if rng.chance(1, 2) {
            rng.shuffle(&mut pairs);
        }
        let mut b = Batch::default();
        for (x, k) in &pairs {
            let bl = &blobs[*x];
            b.coms.push(bl.3);
            b.idx.push(*k as u64);
            b.cells.push(bl.1[k * CELL..(k + 1) * CELL].to_vec());
            b.proofs.push(bl.2[k * 48..(k + 1) * 48].try_into().unwrap());
        }
        c.eval(&format!("own/{}", i % 5), b.key());
        let o = b.verify(ctx);
        if o != Out::Valid {
            let cl: Vec<_> = pairs.iter().map(|p| (&blobs[p.0].0.class, p.1)).collect();
            c.fail(json!({"what": format!("cells and proofs computed by the library gave {}", o.brief()), "blobs and indices": format!("{cl:?}")}));
        }
    });
    rep.finish()
}
