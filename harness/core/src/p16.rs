//! P16: trusted setups. Defective setups must be refused at load time, sound ones accepted and
//! followed point by point; the built-in one must be a powers-of-tau string.
use crate::api::*;
use crate::gen;
use blst::*;
use blstrs::*;
use ff::Field;
use group::{Curve, Group};
use h_common::refm::*;
use h_common::*;
use pairing::{MillerLoopResult, MultiMillerLoop};
use rust_eth_kzg::TrustedSetup;
use serde_json::json;

const P_BE: &str = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";

#[derive(Clone)]
struct Setup {
    g1: Vec<String>,
    lag: Vec<String>,
    g2: Vec<String>,
}

fn list(v: &[String]) -> String {
    let mut s = String::with_capacity(v.len() * 104);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(x);
        s.push('"');
    }
    s.push(']');
    s
}

impl Setup {
    fn json(&self) -> String {
        format!("{{\"g1_monomial\":{},\"g1_lagrange\":{},\"g2_monomial\":{}}}", list(&self.g1), list(&self.lag), list(&self.g2))
    }
    fn of(r: &Ref) -> Setup {
        let ts: serde_json::Value = serde_json::from_str(&r.setup_json()).unwrap();
        let v = |k: &str| ts[k].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        Setup { g1: v("g1_monomial"), lag: v("g1_lagrange"), g2: v("g2_monomial") }
    }
}

fn h1(s: Scalar) -> String {
    format!("0x{}", hex(&g1(s).to_compressed()))
}
fn h2(s: Scalar) -> String {
    format!("0x{}", hex(&g2(s).to_compressed()))
}

/// adds p to the 48-byte big-endian number (no reduction); None on overflow of `limit` in the top byte
fn plus_p(b: &[u8], limit: u16) -> Option<Vec<u8>> {
    let p = unhex(P_BE);
    let mut out = vec![0u8; 48];
    let mut carry = 0u16;
    for i in (0..48).rev() {
        let t = b[i] as u16 + p[i] as u16 + carry;
        out[i] = t as u8;
        carry = t >> 8;
    }
    if carry > 0 || out[0] as u16 >= limit {
        return None;
    }
    Some(out)
}

/// a point of the twist outside the subgroup; `torsion`: a subgroup point plus a torsion component
fn bad_g2(rng: &mut Rng, base: &str, torsion: bool) -> String {
    loop {
        let mut b = [0u8; 96];
        rng.fill(&mut b);
        b[0] = 0x80 | (b[0] & 0x2f);
        b[48] &= 0x0f;
        unsafe {
            let mut a = blst_p2_affine::default();
            if blst_p2_uncompress(&mut a, b.as_ptr()) != BLST_ERROR::BLST_SUCCESS || blst_p2_affine_in_g2(&a) {
                continue;
            }
            if !torsion {
                return format!("0x{}", hex(&b));
            }
            let mut p = blst_p2::default();
            blst_p2_from_affine(&mut p, &a);
            let mut acc = blst_p2::default();
            let r = unhex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
            for byte in r {
                for i in (0..8).rev() {
                    let t = acc;
                    blst_p2_double(&mut acc, &t);
                    if (byte >> i) & 1 == 1 {
                        let t = acc;
                        blst_p2_add_or_double(&mut acc, &t, &p);
                    }
                }
            }
            if blst_p2_is_inf(&acc) {
                continue;
            }
            let raw = unhex(&base[2..]);
            let mut ba = blst_p2_affine::default();
            assert_eq!(blst_p2_uncompress(&mut ba, raw.as_ptr()), BLST_ERROR::BLST_SUCCESS);
            let t = acc;
            blst_p2_add_or_double_affine(&mut acc, &t, &ba);
            let mut out = [0u8; 96];
            blst_p2_compress(out.as_mut_ptr(), &acc);
            return format!("0x{}", hex(&out));
        }
    }
}

/// x without a point on the curve
fn off_curve(rng: &mut Rng, g2: bool) -> String {
    loop {
        let n = if g2 { 96 } else { 48 };
        let mut b = vec![0u8; n];
        rng.fill(&mut b);
        b[0] = 0x80 | (b[0] & 0x2f);
        if g2 {
            b[48] &= 0x0f;
        }
        let e = unsafe {
            if g2 {
                blst_p2_uncompress(&mut blst_p2_affine::default(), b.as_ptr())
            } else {
                blst_p1_uncompress(&mut blst_p1_affine::default(), b.as_ptr())
            }
        };
        if e == BLST_ERROR::BLST_POINT_NOT_ON_CURVE {
            return format!("0x{}", hex(&b));
        }
    }
}

fn text_defect(rng: &mut Rng, s: &str) -> (&'static str, String) {
    let body = &s[2..];
    match rng.below(9) {
        0 => ("no prefix", body.to_string()),
        1 => ("upper-case prefix", format!("0X{body}")),
        2 => ("odd number of digits", s[..s.len() - 1].to_string()),
        3 => ("one byte short", s[..s.len() - 2].to_string()),
        4 => ("one byte long", format!("{s}00")),
        5 => ("not a digit", {
            let k = rng.below(body.len());
            let mut v = s.to_string().into_bytes();
            v[2 + k] = *rng.pick(&[b'g', b' ', b'x', b'-', b'G']);
            String::from_utf8(v).unwrap()
        }),
        6 => ("empty", String::new()),
        7 => ("prefix only", "0x".into()),
        _ => ("space before", format!(" {s}")),
    }
}

/// A defective replacement for a well-formed point string.
fn point_defect(rng: &mut Rng, s: &str, is_g2: bool) -> Option<(String, String)> {
    let mut b = unhex(&s[2..]);
    let n = if is_g2 { "g2" } else { "g1" };
    let h = |b: &[u8]| format!("0x{}", hex(b));
    let (k, v) = match rng.below(12) {
        0 | 1 => {
            if is_g2 {
                ("outside the subgroup", bad_g2(rng, s, false))
            } else {
                ("outside the subgroup", h(&off_subgroup(rng)))
            }
        }
        2 | 3 => {
            if is_g2 {
                ("torsion added", bad_g2(rng, s, true))
            } else {
                let w = rng.chance(1, 2);
                let t = torsion_point(rng, w);
                ("torsion added", h(&add_torsion(b.as_slice().try_into().unwrap(), &t)))
            }
        }
        4 => ("off the curve", off_curve(rng, is_g2)),
        5 => {
            if is_g2 {
                let lo = plus_p(&b[48..], 256)?;
                b[48..].copy_from_slice(&lo);
                ("coordinate above the modulus", h(&b))
            } else {
                let flags = b[0] & 0xe0;
                b[0] &= 0x1f;
                let mut v = plus_p(&b, 32)?;
                v[0] |= flags;
                ("coordinate above the modulus", h(&v))
            }
        }
        6 => {
            b[0] &= 0x7f;
            ("compression flag cleared", h(&b))
        }
        7 => {
            b[0] |= 0x40;
            ("infinity flag with a coordinate", h(&b))
        }
        8 => {
            let mut z = vec![0u8; b.len()];
            z[0] = 0xe0;
            ("infinity with the sign flag", h(&z))
        }
        9 => {
            let mut z = vec![0u8; b.len()];
            z[0] = 0xc0;
            let k = rng.range(1, z.len() - 1);
            z[k] = 1 << rng.below(8);
            ("infinity with a stray bit", h(&z))
        }
        _ => {
            let (k, v) = text_defect(rng, s);
            return Some((format!("{n}: {k}"), v));
        }
    };
    Some((format!("{n}: {k}"), v))
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let mut rng = Rng::new(args.seed, "P16/setup", 0);
    let r = Ref::eip(rng.nonzero());
    let base = Setup::of(&r);
    let threads = args.threads;
    let big = args.thorough;

    rep.section("defects", if big { 100_000 } else { 320 }, 0.55, threads, |i, rng, c| {
        let mut s = base.clone();
        let what;
        let mut pos = vec![];
        match i % 8 {
            0..=3 | 7 => {
                let k = match rng.below(8) {
                    0 => 0,
                    1 => *rng.pick(&[1, 63, 64, 65, 127, 128]),
                    2 => 4095,
                    3 => *rng.pick(&[2047, 2048, 4094, 4032, 66]),
                    _ => rng.below(4096),
                };
                let Some((w, v)) = point_defect(rng, &base.g1[k], false) else {
                    c.skipped = true;
                    return;
                };
                s.g1[k] = v;
                pos.push(k);
                what = w;
            }
            4 | 5 => {
                let k = match rng.below(4) {
                    0 => 0,
                    1 => 64,
                    2 => *rng.pick(&[1, 63, 32]),
                    _ => rng.below(65),
                };
                let Some((w, v)) = point_defect(rng, &base.g2[k], true) else {
                    c.skipped = true;
                    return;
                };
                s.g2[k] = v;
                pos.push(k);
                what = w;
            }
            _ => match rng.below(4) {
                0 => {
                    // two defects that cancel in any sum
                    let a = rng.below(4096);
                    let b = (a + rng.range(1, 4095)) % 4096;
                    let w3 = rng.chance(1, 2);
                    let t = torsion_point(rng, w3);
                    let mut nt = t;
                    unsafe { blst_p1_cneg(&mut nt, true) };
                    for (k, t) in [(a, t), (b, nt)] {
                        let raw: [u8; 48] = unhex(&base.g1[k][2..]).try_into().unwrap();
                        s.g1[k] = format!("0x{}", hex(&add_torsion(&raw, &t)));
                        pos.push(k);
                    }
                    what = "g1: two cancelling torsion components".to_string();
                }
                1 => {
                    let n = rng.range(0, 64);
                    s.g2.truncate(n);
                    pos.push(n);
                    what = "g2: too few points".to_string();
                }
                2 => {
                    let n = rng.range(0, 64);
                    s.g1.truncate(n);
                    pos.push(n);
                    what = "g1: fewer points than g2".to_string();
                }
                _ => {
                    // the document itself
                    let j = s.json();
                    let (w, t) = match rng.below(6) {
                        0 => ("truncated", j[..rng.range(1, j.len() - 1)].to_string()),
                        1 => ("field missing", j.replacen("g2_monomial", "g2_monomia1", 1)),
                        2 => ("field missing", j.replacen("g1_monomial", "g1", 1)),
                        3 => ("number for a point", j.replacen(&format!("\"{}\"", base.g1[1]), "1", 1)),
                        4 => ("null for a point", j.replacen(&format!("\"{}\"", base.g2[3]), "null", 1)),
                        _ => ("text after the end", j + "x"),
                    };
                    c.eval(&format!("refused/document: {w}"), (i, w));
                    if let Ok(_) = lib(|| TrustedSetup::from_json(&t)) {
                        c.fail(json!({"what": format!("from_json accepted a document: {w}")}));
                    }
                    return;
                }
            },
        }
        c.eval(&format!("refused/{what}"), (&pos, &s.g1[..], &s.g2[..]));
        if i < 3 {
            c.sample = Some(json!({"defect": what, "position": pos}));
        }
        let j = s.json();
        if let Ok(_) = lib(|| TrustedSetup::from_json(&j)) {
            c.fail(json!({"what": format!("from_json accepted a setup with a defective point ({what})"), "position": pos,
                "value": pos.first().map(|k| if what.starts_with("g1") { s.g1.get(*k).cloned() } else { s.g2.get(*k).cloned() })}));
        }
    });

    // setups that are sound but not powers of one secret: every point must be used in its place
    rep.section("followed", if big { 4000 } else { 24 }, 0.75, threads, |i, rng, c| {
        let e: Vec<Scalar> = match i % 3 {
            0 => (0..4096).map(|_| rng.nonzero()).collect(),
            1 => {
                // powers of tau with a few points exchanged
                let mut e = powers(r.tau, 4096);
                for _ in 0..rng.range(1, 4) {
                    let (a, b) = (rng.below(4096), rng.below(4096));
                    e.swap(a, b);
                }
                e
            }
            _ => powers(rng.nonzero(), 4096).into_iter().map(|x| -x).collect(),
        };
        let f: Vec<Scalar> = std::iter::once(Scalar::ONE).chain((1..65).map(|_| rng.nonzero())).collect();
        let s = Setup { g1: e.iter().map(|x| h1(*x)).collect(), lag: base.lag.clone(), g2: f.iter().map(|x| h2(*x)).collect() };
        let text = if i % 2 == 0 {
            s.json()
        } else {
            // another layout of the same document
            format!("\n{{ \"g2_monomial\" : {} ,\t\"g1_monomial\":\r\n{}, \"g1_lagrange\": {} }}\n", list(&s.g2), list(&s.g1), list(&s.lag))
        };
        let ts = match lib(|| TrustedSetup::from_json(&text)) {
            Ok(t) => t,
            Err(p) => return c.fail(json!({"what": format!("from_json refused a sound setup: {p}")})),
        };
        c.eval("accepted/sound setup", (&s.g1[..64], i));
        if ts.g1_monomial != s.g1 || ts.g1_lagrange != s.lag || ts.g2_monomial != s.g2 {
            return c.fail(json!({"what": "the parsed setup differs from the document"}));
        }
        match lib(|| TrustedSetup::from_json_unchecked(&text)) {
            Ok(t) if t == ts => {}
            _ => return c.fail(json!({"what": "from_json_unchecked does not give the same setup"})),
        }
        let width = *rng.pick(&[0, 0, 4]);
        let ctx = mkctx(&ts, Cfg { width, threads: 1 });
        for j in 0..3u64 {
            let b = gen::blob(rng, &r, 3 * i + j);
            let want = b.coeffs.iter().zip(&e).fold(Scalar::ZERO, |a, (x, y)| a + x * y);
            c.eval(&format!("commitment follows the setup/{}", i % 3), &b.bytes);
            let got = commit(&ctx, &b.bytes);
            if got != Out::Com(g1(want).to_compressed().to_vec()) {
                return c.fail(json!({"what": "the commitment does not use the given points in their order", "kind": i % 3, "class": b.class}));
            }
            // a statement that is true for exactly this key
            let k = rng.below(128);
            let y: Vec<Scalar> = gen::cell_values(rng).iter().map(|x| x.0).collect();
            let nat: Vec<Scalar> = (0..64).map(|t| y[brp(t, 64)]).collect();
            let ic = intt(&nat, root_of_unity(64));
            let hinv = r.pts[k * 64].invert().unwrap();
            let mut hp = Scalar::ONE;
            let mut it = Scalar::ZERO;
            for t in 0..64 {
                it += ic[t] * hp * e[t];
                hp *= hinv;
            }
            let cm = rng.scalar();
            let pi = (cm - it) * (f[64] - r.s[k]).invert().unwrap();
            for wrong in [false, true] {
                let pf = if wrong { pi + Scalar::ONE } else { pi };
                let got = verify(&ctx, &[g1(cm).to_compressed()], &[k as u64], &[scalars_to_bytes(&y)], &[g1(pf).to_compressed()]);
                c.eval(if wrong { "verification follows the setup/false" } else { "verification follows the setup/true" }, (k, i, j));
                if got != (if wrong { Out::InvalidProof } else { Out::Valid }) {
                    return c.fail(json!({"what": format!("verification does not use the given points: {} for a {} statement", got.brief(), if wrong {"false"} else {"true"}), "cell": k}));
                }
            }
        }
    });

    embedded(&mut rep, big);
    rep.finish()
}

fn p1(s: &str) -> Option<G1Affine> {
    Option::from(G1Affine::from_compressed(unhex(s.strip_prefix("0x")?).as_slice().try_into().ok()?))
}
fn p2(s: &str) -> Option<G2Affine> {
    Option::from(G2Affine::from_compressed(unhex(s.strip_prefix("0x")?).as_slice().try_into().ok()?))
}

fn same_pairing(a: G1Affine, b: G2Affine, x: G1Affine, y: G2Affine) -> bool {
    bool::from(Bls12::multi_miller_loop(&[(&a, &G2Prepared::from(b)), (&-x, &G2Prepared::from(y))]).final_exponentiation().is_identity())
}

fn embedded(rep: &mut Report, big: bool) {
    let mut c = Case::new();
    let ts = TrustedSetup::default();
    let bad = |c: &mut Case, s: String| c.fail(json!({"what": format!("built-in setup: {s}")}));
    let a: Vec<Option<G1Affine>> = par_map(&ts.g1_monomial, |s| p1(s));
    let l: Vec<Option<G1Affine>> = par_map(&ts.g1_lagrange, |s| p1(s));
    let b: Vec<Option<G2Affine>> = par_map(&ts.g2_monomial, |s| p2(s));
    c.eval("built-in points decoded", (a.len(), l.len(), b.len()));
    if (a.len(), l.len(), b.len()) != (4096, 4096, 65) {
        bad(&mut c, format!("has {} + {} + {} points", a.len(), l.len(), b.len()));
    }
    if let Some(k) = a.iter().position(|x| x.is_none()) {
        bad(&mut c, format!("g1_monomial[{k}] is not a subgroup point"));
    }
    if let Some(k) = l.iter().position(|x| x.is_none()) {
        bad(&mut c, format!("g1_lagrange[{k}] is not a subgroup point"));
    }
    if let Some(k) = b.iter().position(|x| x.is_none()) {
        bad(&mut c, format!("g2_monomial[{k}] is not a subgroup point"));
    }
    if c.ok() {
        let a: Vec<G1Affine> = a.into_iter().map(|x| x.unwrap()).collect();
        let l: Vec<G1Affine> = l.into_iter().map(|x| x.unwrap()).collect();
        let b: Vec<G2Affine> = b.into_iter().map(|x| x.unwrap()).collect();
        if a[0] != g1(Scalar::ONE) || b[0] != g2(Scalar::ONE) {
            bad(&mut c, "does not start with the generators".into());
        }
        if a[1] == a[0] || bool::from(group::prime::PrimeCurveAffine::is_identity(&a[1])) {
            bad(&mut c, "has a trivial secret".into());
        }
        let mut rng = Rng::new(rep.args.seed, "P16/embedded", 0);
        let rounds = if big { 16 } else { 2 };
        for round in 0..rounds {
            let rr: Vec<Scalar> = (0..4096).map(|_| rng.scalar()).collect();
            let sum = |p: &[G1Affine], s: &[Scalar]| -> G1Affine {
                let z: Vec<(G1Affine, Scalar)> = p.iter().copied().zip(s.iter().copied()).collect();
                par_map(&z, |(p, s)| G1Projective::from(*p) * s).into_iter().fold(G1Projective::identity(), |a, b| a + b).to_affine()
            };
            let hi = sum(&a[1..], &rr[..4095]);
            let lo = sum(&a[..4095], &rr[..4095]);
            c.eval("built-in G1 powers (4095 steps in one combination)", round);
            if !same_pairing(hi, b[0], lo, b[1]) {
                bad(&mut c, "the G1 points are not consecutive powers of the secret in G2".into());
            }
            let s2 = |p: &[G2Affine]| p.iter().zip(&rr).fold(G2Projective::identity(), |acc, (p, s)| acc + G2Projective::from(*p) * s).to_affine();
            c.eval("built-in G2 powers (64 steps in one combination)", round);
            if !same_pairing(a[0], s2(&b[1..]), a[1], s2(&b[..64])) {
                bad(&mut c, "the G2 points are not consecutive powers of the secret in G1".into());
            }
            // sum v_i L_i = sum coeff_i tau^i for the polynomial with values v
            let w = root_of_unity(4096);
            let co = intt(&rr, w);
            c.eval("built-in Lagrange points (4096 in one combination)", round);
            if sum(&l, &rr) != sum(&a, &co) {
                bad(&mut c, "the Lagrange points do not match the monomial ones".into());
            }
        }
        // what contexts use: the same answers whether the setup is implied or given
        let r = Ref::eip(Scalar::from(0xabcdefu64));
        let d = rust_eth_kzg::DASContext::default();
        let g = mkctx(&ts, Cfg { width: 0, threads: 1 });
        for j in 0..4u64 {
            let blob = gen::blob(&mut rng, &r, j);
            let want = blob.coeffs.iter().zip(&a).fold(G1Projective::identity(), |acc, (s, p)| acc + G1Projective::from(*p) * s).to_affine();
            for (n, ctx) in [("default", &d), ("explicit", &g)] {
                c.eval(&format!("built-in commitment/{n}"), (&blob.bytes, n));
                if commit(ctx, &blob.bytes) != Out::Com(want.to_compressed().to_vec()) {
                    bad(&mut c, format!("the {n} context does not commit with it ({})", blob.class));
                }
            }
        }
        // the file in the repository parses to it, with checks
        if let Ok(text) = std::fs::read_to_string("/repo/eip7594/data/trusted_setup_4096.json") {
            match lib(|| TrustedSetup::from_json(&text)) {
                Ok(t) if t == ts => {}
                Ok(_) => bad(&mut c, "differs from the data file".into()),
                Err(p) => bad(&mut c, format!("the data file is refused: {p}")),
            }
        }
        c.eval("built-in setup passes its own checks", 0);
    }
    rep.absorb("embedded", 0, c);
}
