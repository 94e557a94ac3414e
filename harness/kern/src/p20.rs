//! P20: the multi-opening scheme for other parameters than the deployed ones.
use bls12_381::fixed_base_msm::UsePrecomp;
use bls12_381::{G1Point, Scalar};
use ff::Field;
use h_common::refm::{self, *};
use h_common::*;
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use kzg_multi_open::{recover_evaluations_in_domain_order, Prover, ProverInput, Verifier};
use serde_json::json;

struct Setup {
    r: Ref,
    ck_len: usize,
    ck: CommitKey,
    prover: Prover,
    verifier: Verifier,
    desc: String,
}

fn setup(rng: &mut Rng, n: usize, l: usize, ext: usize, extra: usize, width: usize) -> Setup {
    let r = Ref::new(n, l, ext, rng.nonzero());
    let p = powers(r.tau, (n + extra).max(l + 1));
    let g1s: Vec<G1Point> = p[..n + extra].iter().map(|s| refm::g1(*s)).collect();
    let g2s = p[..l + 1].iter().map(|s| refm::g2(*s)).collect();
    let ck = CommitKey::new(g1s.clone());
    let pre = if width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width } };
    let prover = Prover::new(ck.clone(), n, l, ext, pre);
    let vk = VerificationKey::new(g1s[..l + 1].to_vec(), g2s, l, n);
    let verifier = Verifier::new(vk, ext, ext / l);
    let desc = format!("polynomial length {n}, coset size {l}, {ext} points, {} setup points, width {width}", n + extra);
    Setup { r, ck_len: n + extra, ck, prover, verifier, desc }
}

fn coeffs(rng: &mut Rng, n: usize) -> Vec<Scalar> {
    let k = rng.below(n);
    match rng.below(8) {
        0 => vec![Scalar::ZERO; n],
        1 => { let mut v = vec![Scalar::ZERO; n]; v[n - 1] = rng.nonzero(); v }
        2 => { let mut v = vec![Scalar::ZERO; n]; v[k] = rng.nonzero(); v }
        3 => (0..n).map(|i| if i <= k { rng.scalar() } else { Scalar::ZERO }).collect(),
        4 => (0..n).map(|i| if i >= k { rng.scalar() } else { Scalar::ZERO }).collect(),
        5 => (0..n).map(|_| rng.edge_scalar()).collect(),
        _ => (0..n).map(|_| rng.scalar()).collect(),
    }
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let t = args.thorough;
    let mut params: Vec<(usize, usize, usize)> = vec![];
    for ln in 1..=(if t { 10 } else { 8 }) {
        for ll in 0..ln {
            for le in ln..=ln + 3 {
                params.push((1 << ln, 1 << ll, 1 << le));
            }
        }
    }
    rep.note("parameter triples", params.len());
    let total = params.len() as u64 * if t { 60 } else { 4 };
    rep.section("open", total, 0.6, args.threads, |i, rng, c| {
        let (n, l, ext) = params[(i as usize * 37 + i as usize / params.len()) % params.len()];
        let extra = if rng.chance(1, 4) { *rng.pick(&[1, l, l + 1, n, 3 * n]) } else { 0 };
        let width = if rng.chance(1, 2) { 0 } else { rng.range(1, 6) };
        let s = match lib(|| setup(rng, n, l, ext, extra, width)) {
            Ok(s) => s,
            Err(e) => return c.fail(json!({"what": format!("the prover or verifier cannot be made: {e}"), "parameters": [n, l, ext, extra, width]})),
        };
        let f = coeffs(rng, n);
        let ct = eval(&f, s.r.tau);
        let com = refm::g1(ct);
        let cells = s.r.coset_values(&f);
        let proofs: Vec<G1Point> = (0..s.r.cosets()).map(|k| refm::g1(s.r.proof_dlog(ct, k, &cells[k]))).collect();
        let data = s.r.coeffs_to_data(&f);
        for from_data in [false, true] {
            let input = || if from_data { ProverInput::Data(data.clone()) } else { ProverInput::PolyCoeff(f.clone()) };
            c.eval("commit", (n, l, ext, s.ck_len, width, from_data));
            match lib(|| s.prover.commit(input())) {
                Ok(x) if x == com => {}
                x => return c.fail(json!({"what": format!("the commitment is wrong ({})", x.err().unwrap_or_default()), "parameters": s.desc, "data input": from_data})),
            }
            c.eval("open", (n, l, ext, s.ck_len, width, from_data));
            match lib(|| s.prover.compute_multi_opening_proofs(input())) {
                Ok((p, e)) => {
                    if e != cells {
                        return c.fail(json!({"what": "the coset evaluations are wrong", "parameters": s.desc, "data input": from_data}));
                    }
                    if p != proofs {
                        let bad: Vec<usize> = (0..proofs.len()).filter(|k| p.get(*k) != proofs.get(*k)).collect();
                        return c.fail(json!({"what": format!("{} of {} proofs are wrong", bad.len(), proofs.len()), "parameters": s.desc, "data input": from_data, "wrong": bad}));
                    }
                }
                Err(e) => return c.fail(json!({"what": format!("opening panics: {e}"), "parameters": s.desc})),
            }
        }
        if s.prover.num_proofs() != s.r.cosets() {
            return c.fail(json!({"what": "num_proofs is wrong", "parameters": s.desc}));
        }
        // a shorter polynomial is one whose other coefficients are zero
        let k = rng.below(n + 1);
        c.eval("commit to fewer coefficients", (n, k));
        if s.ck.commit_g1(&f[..k]) != refm::g1(eval(&f[..k], s.r.tau)).into() {
            return c.fail(json!({"what": format!("the commitment to {k} coefficients is wrong"), "parameters": s.desc}));
        }
        // verification: random batch over two polynomials
        let f2 = coeffs(rng, n);
        let c2 = eval(&f2, s.r.tau);
        let cells2 = s.r.coset_values(&f2);
        let m = rng.below(12);
        let coms = vec![com, refm::g1(c2)];
        let mut which = vec![];
        let mut idx = vec![];
        let mut ev = vec![];
        let mut pr = vec![];
        for _ in 0..m {
            let k = rng.below(s.r.cosets());
            let b = rng.below(2);
            which.push(b as u64);
            idx.push(k as u64);
            let y = if b == 0 { cells[k].clone() } else { cells2[k].clone() };
            pr.push(s.r.proof_dlog(if b == 0 { ct } else { c2 }, k, &y));
            ev.push(y);
        }
        let check = |which: &[u64], idx: &[u64], ev: &[Vec<Scalar>], pr: &[Scalar]| {
            let p: Vec<G1Point> = pr.iter().map(|x| refm::g1(*x)).collect();
            lib(|| s.verifier.verify_multi_opening(&coms, which, idx, ev, &p).is_ok())
        };
        c.eval("verify true", (n, l, ext, m));
        match check(&which, &idx, &ev, &pr) {
            Ok(true) => {}
            x => return c.fail(json!({"what": format!("a true batch of {m} openings is not accepted: {x:?}"), "parameters": s.desc})),
        }
        if m > 0 {
            let truth = |which: &[u64], idx: &[u64], ev: &[Vec<Scalar>], pr: &[Scalar]| {
                (0..m).all(|j| s.r.defect(if which[j] == 0 { ct } else { c2 }, idx[j] as usize, &ev[j], pr[j]) == Scalar::ZERO)
            };
            let j = rng.below(m);
            let name = match rng.below(6) {
                0 => { let q = rng.below(l); ev[j][q] += rng.nonzero(); "value" }
                1 => { pr[j] += rng.nonzero(); "proof" }
                2 => { idx[j] = (idx[j] + 1 + rng.below(s.r.cosets()) as u64) % s.r.cosets() as u64; "index" }
                3 => { which[j] ^= 1; "commitment" }
                4 => { let k = rng.below(m); pr.swap(j, k); "proofs swapped" }
                _ => {
                    // opposite errors in two places
                    let k = rng.below(m);
                    let e = rng.nonzero();
                    pr[j] += e;
                    pr[k] -= e;
                    "proofs shifted against each other"
                }
            };
            let want = truth(&which, &idx, &ev, &pr);
            c.eval(&format!("verify altered: {name}"), (n, l, ext, m, want));
            match check(&which, &idx, &ev, &pr) {
                Ok(x) if x == want => {}
                x => return c.fail(json!({"what": format!("a batch of {m} openings with altered {name} gives {x:?} instead of {want}"), "parameters": s.desc})),
            }
        }
        if i < 2 {
            c.sample = Some(json!({"parameters": s.desc, "proofs": proofs.len()}));
        }
    });

    rep.section("reassemble", if t { 1_000_000 } else { 20_000 }, 0.8, args.threads, |i, rng, c| {
        let lext = rng.range(1, 10);
        let ext = 1usize << lext;
        let l = 1usize << rng.below(lext + 1);
        let k = ext / l; // possibly a single coset: the whole domain
        let w = root_of_unity(ext);
        let n = ext / 2;
        let f = coeffs(rng, n.max(1));
        let nat = ntt(&f, w, ext);
        let all: Vec<Scalar> = (0..ext).map(|i| nat[brp(i, ext)]).collect();
        let m = match rng.below(3) { 0 => k, 1 => 1, _ => rng.range(1, k) };
        let mut have = rng.subset(k, m);
        rng.shuffle(&mut have);
        let ev: Vec<Vec<Scalar>> = have.iter().map(|h| all[h * l..(h + 1) * l].to_vec()).collect();
        c.eval("reassemble", (ext, l, &have));
        let (idx, el) = match lib(|| recover_evaluations_in_domain_order(ext, have.clone(), ev.clone())) {
            Ok(Some(x)) => x,
            x => return c.fail(json!({"what": format!("reassembling {m} of {k} cosets of {l} gives {:?}", x.map(|o| o.is_some()))})),
        };
        if idx != have.iter().map(|h| brp(*h, k)).collect::<Vec<_>>() {
            return c.fail(json!({"what": format!("the coset positions for {m} of {k} cosets of {l} are wrong"), "cosets": have, "got": idx}));
        }
        for p in 0..ext {
            let want = if have.contains(&(brp(p, ext) / l)) { nat[p] } else { Scalar::ZERO };
            if el[p] != want {
                return c.fail(json!({"what": format!("position {p} is wrong after reassembling {m} of {k} cosets of {l}"), "cosets": have}));
            }
        }
        // requests that cannot be reassembled
        let mut e2 = ev.clone();
        let mut h2 = have.clone();
        let what = match (i % 4, m > 1) {
            (3, _) => {
                let long = ext + rng.range(1, 2 * ext);
                for e in e2.iter_mut() {
                    e.resize(long, Scalar::ONE);
                }
                "cosets longer than the domain"
            }
            (0, true) => { let q = rng.below(m); e2[q].push(Scalar::ONE); "ragged" }
            (1, _) => { let q = rng.below(m); h2[q] = k + *rng.pick(&[0usize, 1, k, 1 << 40]); "index out of range" }
            (2, _) => { h2.clear(); e2.clear(); "nothing" }
            _ => return,
        };
        c.eval(what, (ext, l, &h2));
        match lib(|| recover_evaluations_in_domain_order(ext, h2.clone(), e2)) {
            Ok(None) => {}
            x => c.fail(json!({"what": format!("reassembling with '{what}' gives {:?}", x.map(|o| o.is_some()))})),
        }
    });
    rep.finish()
}
