//! P01: commitments, cells and proofs against the definition, on setups with a
//! known secret (every byte of every output is predicted), and on the built-in
//! setup through its Lagrange points and a pairing check of every proof.
use crate::api::*;
use crate::gen;
use h_common::refm::*;
use h_common::*;
use serde_json::json;
use std::sync::OnceLock;

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P01/setup", 0);
    let wide = rng.range(3, 8);
    let worlds = vec![
        World::new(&mut rng, &[Cfg { width: 0, threads: 1 }, Cfg { width: 8, threads: 1 }]),
        World::new(&mut rng, &[Cfg { width: 0, threads: 3 }, Cfg { width: wide, threads: 1 }]),
    ];
    rep.note("setup_s", rep.elapsed());
    let n = if args.thorough { 200_000 } else { 700 };
    rep.section("known-secret", n, 0.75, args.threads, |i, rng, c| {
        let w = &worlds[(i % 2) as usize];
        let (cfg, ctx) = &w.ctxs[((i / 2) % 2) as usize];
        let b = gen::blob(rng, &w.r, i / 4);
        check(&w.r, ctx, cfg, &b, c);
        if i < 3 {
            c.sample = Some(json!({"class": b.class, "config": format!("{cfg:?}"), "first_bytes": hex(&b.bytes[..32])}));
        }
    });
    builtin::run(&mut rep, args.thorough);
    rep.finish()
}

pub fn expected(r: &Ref, coeffs: &[blstrs::Scalar]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let ct = eval(coeffs, r.tau);
    let com = g1(ct).to_compressed().to_vec();
    let vals = r.coset_values(coeffs);
    let mut cells = Vec::with_capacity(128 * CELL);
    let mut proofs = Vec::with_capacity(128 * 48);
    for (k, v) in vals.iter().enumerate() {
        cells.extend(scalars_to_bytes(v));
        proofs.extend(g1(r.proof_dlog(ct, k, v)).to_compressed());
    }
    (com, cells, proofs)
}

fn check(r: &Ref, ctx: &rust_eth_kzg::DASContext, cfg: &Cfg, b: &gen::Blob, c: &mut Case) {
    let (com, cells, proofs) = expected(r, &b.coeffs);
    let info = |what: String| json!({"what": what, "class": b.class, "config": format!("{cfg:?}")});
    let before = b.bytes.clone();
    let got = commit(ctx, &b.bytes);
    c.eval(&format!("commit/{}", b.class), &b.bytes);
    if got != Out::Com(com.clone()) {
        return c.fail(info(format!("commitment: got {}, expected {}", got.brief(), hex(&com))));
    }
    match compute(ctx, &b.bytes) {
        Out::Data(d) => {
            c.eval(&format!("cells+proofs/{}", b.class), &b.bytes);
            if d.0[..BLOB] != b.bytes[..] {
                return c.fail(info("the first 64 cells are not the blob".into()));
            }
            for k in 0..128 {
                if d.0[k * CELL..(k + 1) * CELL] != cells[k * CELL..(k + 1) * CELL] {
                    return c.fail(info(format!("cell {k} is not the polynomial's values on its coset")));
                }
                if d.1[k * 48..(k + 1) * 48] != proofs[k * 48..(k + 1) * 48] {
                    return c.fail(info(format!("proof {k} is not the opening proof of cell {k}")));
                }
            }
        }
        o => return c.fail(info(format!("compute_cells_and_kzg_proofs: {}", o.brief()))),
    }
    assert_eq!(before, b.bytes);
}

mod builtin {
    use super::*;
    use blstrs::*;
    use ff::Field;
    use group::{prime::PrimeCurveAffine, Curve, Group};
    use pairing::{MillerLoopResult, MultiMillerLoop};
    use rust_eth_kzg::TrustedSetup;

    struct Mainnet {
        lag: Vec<G1Projective>, // Lagrange points, bit-reversed (data order)
        g1m: Vec<G1Projective>,
        g2m: Vec<G2Affine>,
        ctx: rust_eth_kzg::DASContext,
        dctx: rust_eth_kzg::DASContext,
        r: Ref, // only its domain constants are used
    }
    static M: OnceLock<Mainnet> = OnceLock::new();

    fn p1(s: &str) -> G1Affine {
        let b = unhex(s);
        Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(b.as_slice().try_into().unwrap())).unwrap()
    }
    fn p2(s: &str) -> G2Affine {
        let b = unhex(s);
        Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(b.as_slice().try_into().unwrap())).unwrap()
    }
    fn load() -> Mainnet {
        let ts = TrustedSetup::default();
        let nat: Vec<G1Projective> = par_map(&ts.g1_lagrange, |s| p1(s).into());
        Mainnet {
            lag: (0..4096).map(|i| nat[brp(i, 4096)]).collect(),
            g1m: ts.g1_monomial[..64].iter().map(|s| p1(s).into()).collect(),
            g2m: ts.g2_monomial.iter().map(|s| p2(s)).collect(),
            ctx: mkctx(&ts, Cfg { width: 0, threads: 1 }),
            dctx: rust_eth_kzg::DASContext::default(),
            r: Ref::eip(Scalar::from(0x1234567u64)),
        }
    }
    fn msm(p: &[G1Projective], s: &[Scalar]) -> G1Projective {
        // plain double-and-add sum: independent of any multi-exponentiation
        let mut acc = G1Projective::identity();
        for (p, s) in p.iter().zip(s) {
            if !bool::from(s.is_zero()) {
                acc += p * s;
            }
        }
        acc
    }

    pub fn run(rep: &mut Report, thorough: bool) {
        let m = M.get_or_init(load);
        let threads = rep.args.threads;
        let n = if thorough { 2000 } else { 40 };
        rep.section("built-in-setup", n, 1.0, threads, |i, rng, c| {
            let b = gen::blob(rng, &m.r, i);
            let ctx = if i % 2 == 0 { &m.ctx } else { &m.dctx };
            let want = msm(&m.lag, &b.data).to_affine().to_compressed().to_vec();
            let got = commit(ctx, &b.bytes);
            c.eval(&format!("built-in commit/{}", b.class), &b.bytes);
            if got != Out::Com(want.clone()) {
                return c.fail(json!({"what": format!("built-in setup: commitment {} instead of {}", got.brief(), hex(&want)), "class": b.class}));
            }
            let com = G1Affine::from_compressed(want.as_slice().try_into().unwrap()).unwrap();
            let d = match compute(ctx, &b.bytes) {
                Out::Data(d) => d,
                o => return c.fail(json!({"what": format!("built-in setup: compute: {}", o.brief()), "class": b.class})),
            };
            let vals = m.r.coset_values(&b.coeffs);
            // all 128 openings combined with random weights chosen here, one pairing check
            let mut sum_pi = G1Projective::identity();
            let mut rhs = G1Projective::identity();
            let mut ipoly = vec![Scalar::ZERO; 64];
            for k in 0..128 {
                if d.0[k * CELL..(k + 1) * CELL] != scalars_to_bytes(&vals[k])[..] {
                    return c.fail(json!({"what": format!("built-in setup: cell {k} wrong"), "class": b.class}));
                }
                let pi = match Option::<G1Affine>::from(G1Affine::from_compressed(d.1[k * 48..(k + 1) * 48].try_into().unwrap())) {
                    Some(p) => p,
                    None => return c.fail(json!({"what": format!("built-in setup: proof {k} is not a subgroup point"), "class": b.class})),
                };
                let w = rng.nonzero();
                // interpolate the coset: values are bit-reversed within it
                let nat: Vec<Scalar> = (0..64).map(|j| vals[k][brp(j, 64)]).collect();
                let ic = intt(&nat, root_of_unity(64));
                let hinv = m.r.pts[k * 64].invert().unwrap();
                let mut hp = Scalar::ONE;
                for j in 0..64 {
                    ipoly[j] += w * ic[j] * hp;
                    hp *= hinv;
                }
                if !bool::from(pi.is_identity()) {
                    let p = G1Projective::from(pi) * w;
                    sum_pi += p;
                    rhs += p * m.r.s[k];
                }
                rhs += G1Projective::from(com) * w;
            }
            rhs -= msm(&m.g1m, &ipoly);
            let a = sum_pi.to_affine();
            let bb = rhs.to_affine();
            let ok = bool::from(
                Bls12::multi_miller_loop(&[
                    (&a, &G2Prepared::from(m.g2m[64])),
                    (&bb, &G2Prepared::from(-G2Affine::generator())),
                ])
                .final_exponentiation()
                .is_identity(),
            );
            c.eval(&format!("built-in 128 openings/{}", b.class), &b.bytes);
            if !ok {
                c.fail(json!({"what": "built-in setup: some proof is not the opening proof of its cell", "class": b.class}));
            }
        });
    }
}
