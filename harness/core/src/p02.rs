//! P02: the same requests on differently configured contexts. The outcomes of
//! the first configuration are also written out, so that the runner compares
//! them between builds with different features.
use crate::api::*;
use crate::gen::{self, Batch};
use crate::p04::bad_scalar;
use h_common::refm::*;
use h_common::*;
use serde_json::json;
use sha2::{Digest, Sha256};

enum Req {
    Commit(Vec<u8>),
    Compute(Vec<u8>),
    Recover(Vec<u64>, Vec<Vec<u8>>),
    Verify(Batch),
}

fn exec(ctx: &rust_eth_kzg::DASContext, r: &Req) -> Out {
    match r {
        Req::Commit(b) => commit(ctx, b),
        Req::Compute(b) => compute(ctx, b),
        Req::Recover(i, c) => {
            let cs: Vec<&[u8]> = c.iter().map(|x| x.as_slice()).collect();
            recover(ctx, i, &cs)
        }
        Req::Verify(b) => b.verify(ctx),
    }
}

fn digest(o: &Out) -> String {
    let mut h = Sha256::new();
    h.update(o.kind());
    match o {
        Out::Com(c) => h.update(c),
        Out::Data(d) => {
            h.update(&d.0);
            h.update(&d.1);
        }
        _ => {}
    }
    hex(&h.finalize()[..16])
}

fn requests(rng: &mut Rng, w: &World, t: bool) -> Vec<(String, Req)> {
    let mut v = vec![];
    let r = &w.r;
    let fams: Vec<usize> = if t { (0..17).chain(0..17).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 16] };
    for (j, f) in fams.iter().enumerate() {
        let b = gen::blob_family(rng, r, *f);
        if j % 2 == 0 || t {
            v.push((format!("commit {}", b.class), Req::Commit(b.bytes.clone())));
        }
        if j % 3 != 2 || t {
            v.push((format!("compute {}", b.class), Req::Compute(b.bytes.clone())));
        }
        if j % 3 == 0 || t {
            let vals = r.coset_values(&b.coeffs);
            let n = *rng.pick(&[64, 65, 100, 127, 128]);
            let have = gen::present(rng, n).1;
            let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
            let by: Vec<Vec<u8>> = have.iter().map(|k| scalars_to_bytes(&vals[*k])).collect();
            v.push((format!("recover {n} {}", b.class), Req::Recover(idx.clone(), by.clone())));
            let n = rng.range(70, 128);
            let have = gen::present(rng, n).1;
            let idx: Vec<u64> = have.iter().map(|x| *x as u64).collect();
            let mut by: Vec<Vec<u8>> = have.iter().map(|k| scalars_to_bytes(&vals[*k])).collect();
            by[0][31] ^= 1;
            v.push(("recover inconsistent".into(), Req::Recover(idx.clone(), by.clone())));
            by[n - 1][..32].copy_from_slice(&bad_scalar(rng, &vals[0][0]));
            v.push(("recover non-canonical".into(), Req::Recover(idx, by)));
        }
        if j == 4 {
            let mut bad = b.bytes.clone();
            bad[..32].copy_from_slice(&[0xff; 32]);
            v.push(("commit bad blob".into(), Req::Commit(bad.clone())));
            v.push(("compute bad blob".into(), Req::Compute(bad)));
        }
    }
    for n in [0usize, 1, 2, 3, 7, 16, 33, 64, 65, 128, 129, 200, 257, 400] {
        let ts: Vec<gen::Tuple> = (0..n).map(|_| { let some = rng.chance(1, 2); gen::true_tuple(rng, r, if some { Some(r.tau) } else { None }) }).collect();
        v.push((format!("verify true {n}"), Req::Verify(Batch::of(&ts))));
        if n == 0 {
            continue;
        }
        let p = *rng.pick(&[0, n - 1, n / 2]);
        let mut f = ts.clone();
        f[p].y[rng.below(64)].0 += rng.nonzero();
        v.push((format!("verify false {n}"), Req::Verify(Batch::of(&f))));
        let mut b = Batch::of(&ts);
        match rng.below(4) {
            0 => b.idx[p] = 128,
            1 => b.proofs[p] = off_subgroup(rng),
            2 => b.coms[p][0] &= 0x7f,
            _ => {
                b.cells.pop();
            }
        }
        v.push((format!("verify malformed {n}"), Req::Verify(b)));
    }
    v
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P02/setup", 0);
    let base_cfg = Cfg { width: 0, threads: 1 };
    let w = World::new(&mut rng, &[base_cfg]);
    let reqs = requests(&mut rng, &w, args.thorough);
    let base: Vec<Out> = par_map(&reqs, |(_, r)| exec(&w.ctxs[0].1, r));
    rep.note("digests", json!(reqs.iter().zip(&base).map(|((n, _), o)| format!("{n}: {} {}", o.kind(), digest(o))).collect::<Vec<_>>()));
    rep.note("requests", reqs.len());
    let mode = args.extra.get("mode").map(|x| x.as_str()).unwrap_or("");
    let only_digests = mode == "digests";
    {
        let mut c = Case::new();
        for ((n, _), o) in reqs.iter().zip(&base) {
            c.eval("baseline", (n, digest(o)));
        }
        c.sample = Some(json!({"request": reqs[0].0, "outcome": base[0].brief()}));
        rep.absorb("baseline", 0, c);
    }
    if only_digests {
        rep.finish();
    }
    let run_cfg = |cfg: Cfg, c: &mut Case| {
        let ctx = match lib(|| mkctx(&w.ts, cfg)) {
            Ok(x) => x,
            Err(p) => return c.fail(json!({"what": format!("a context with {cfg:?} cannot be created: {p}")})),
        };
        for ((name, r), want) in reqs.iter().zip(&base) {
            let o = exec(&ctx, r);
            c.eval(&format!("{cfg:?}"), name);
            if o != *want {
                return c.fail(json!({"what": format!("'{name}' gives {} with {cfg:?} but {} with {base_cfg:?}", o.brief(), want.brief()), "config": format!("{cfg:?}")}));
            }
        }
    };
    // small tables and thread counts at the same time on all cores
    let mut cfgs: Vec<Cfg> = vec![];
    for width in [8usize, 1, 2, 3, 4, 5, 6, 7, 9] {
        cfgs.push(Cfg { width, threads: *rng.pick(&[1, 2, 4]) });
    }
    for threads in [2usize, 3, 4, 5, 6, 7, 8, 16, 33, 0] {
        cfgs.push(Cfg { width: 0, threads });
    }
    cfgs.push(Cfg { width: 8, threads: 8 });
    cfgs.push(Cfg { width: 5, threads: 0 });
    if mode == "widths" {
        cfgs = [1, 4, 7, 8].iter().map(|w| Cfg { width: *w, threads: 1 }).collect();
    }
    rep.section("configs", cfgs.len() as u64, 1.0, args.threads.min(6), |i, _rng, c| run_cfg(cfgs[i as usize], c));
    if mode == "widths" {
        rep.finish();
    }
    // big tables one at a time
    let big: Vec<usize> = if args.thorough { vec![10, 11, 12, 13, 14] } else { vec![10, 12, 11] };
    rep.section("large-tables", big.len() as u64, 1.0, 1, |i, _rng, c| run_cfg(Cfg { width: big[i as usize], threads: 8 }, c));
    rep.finish()
}
