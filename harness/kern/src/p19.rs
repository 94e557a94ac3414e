//! P19: unique decoding. Words are made from known polynomials; what survives
//! decides what the answer must be.
use bls12_381::Scalar;
use erasure_codes::{BlockErasureIndices, ReedSolomon};
use ff::Field;
use h_common::refm::*;
use h_common::*;
use serde_json::json;

fn poly(rng: &mut Rng, n: usize) -> Vec<Scalar> {
    match rng.below(6) {
        0 => vec![Scalar::ZERO; n],
        1 => { let mut v = vec![Scalar::ZERO; n]; v[n - 1] = rng.nonzero(); v }
        2 => { let mut v = vec![Scalar::ZERO; n]; v[rng.below(n)] = rng.any_scalar(); v }
        3 => (0..n).map(|_| rng.edge_scalar()).collect(),
        _ => (0..n).map(|_| rng.scalar()).collect(),
    }
}

fn one(rng: &mut Rng, c: &mut Case, rs: &ReedSolomon, (k, ex, bs): (usize, usize, usize), erased: &[usize], what: usize) {
    let n = k * ex;
    let blocks = n / bs;
    let room = (n - k) / blocks;
    let survivors = n - erased.len() * blocks;
    let desc = format!("poly_len {k}, expansion {ex}, block size {bs}, erased {erased:?}");
    let gone = |i: usize| erased.contains(&(i % bs));
    let w = root_of_unity(n);
    let f = poly(rng, k);
    let mut word = ntt(&f, w, n);
    let fill = rng.below(3);
    for i in 0..n {
        if gone(i) {
            match fill {
                0 => word[i] = Scalar::ZERO,
                1 => word[i] = rng.scalar(), // what stands in an erased place must not matter
                _ => {}
            }
        }
    }
    let mut er = erased.to_vec();
    rng.shuffle(&mut er);
    let place = |rng: &mut Rng| loop { let p = rng.below(n); if !gone(p) { break p } };
    let (kind, word) = match what {
        0 => ("codeword", word),
        1 => {
            // fewer wrong values than the distance of what is left
            let slack = survivors.saturating_sub(k);
            if erased.len() > room || slack == 0 {
                ("codeword", word)
            } else {
                let e = match rng.below(3) { 0 => 1, 1 => slack, _ => rng.range(1, slack) };
                let mut spots: Vec<usize> = (0..n).filter(|i| !gone(*i)).collect();
                rng.shuffle(&mut spots);
                for p in &spots[..e] {
                    word[*p] += rng.nonzero();
                }
                ("wrong", word)
            }
        }
        2 => {
            // a codeword of a longer polynomial: one coefficient too many, or the very last
            if erased.len() > room || survivors <= k {
                ("codeword", word)
            } else {
                let deg = match rng.below(3) { 0 => k, 1 => survivors - 1, _ => rng.range(k, survivors - 1) };
                let mut g = f.clone();
                g.resize(deg + 1, Scalar::ZERO);
                g[deg] = rng.nonzero();
                ("wrong", ntt(&g, w, n))
            }
        }
        _ => {
            // as many survivors as coefficients: anything is a codeword
            let mut x = word;
            if survivors == k && erased.len() <= room {
                let p = place(rng);
                x[p] += rng.nonzero();
                ("any", x)
            } else {
                ("codeword", x)
            }
        }
    };
    let r = lib(|| rs.recover_polynomial_coefficient(word.clone(), BlockErasureIndices(er.clone())));
    let kind = if erased.len() > room { "too many erasures" } else { kind };
    c.eval(kind, (k, ex, bs, erased, what, f[0].to_bytes_be()));
    match (kind, r) {
        (_, Err(p)) => c.fail(json!({"what": format!("decoding panics: {p}"), "code": desc, "word": kind})),
        ("too many erasures", Ok(Err(_))) | ("wrong", Ok(Err(_))) => {}
        ("too many erasures", Ok(Ok(_))) => c.fail(json!({"what": "decoding with too many erasures succeeds", "code": desc})),
        ("wrong", Ok(Ok(_))) => c.fail(json!({"what": "a word that is not a codeword is decoded", "code": desc})),
        ("codeword", Ok(Ok(g))) => {
            if g != f {
                c.fail(json!({"what": "decoding gives another polynomial", "code": desc}));
            }
        }
        ("any", Ok(Ok(g))) => {
            let v = ntt(&g, w, n);
            if g.len() != k || (0..n).any(|i| !gone(i) && v[i] != word[i]) {
                c.fail(json!({"what": "the decoded polynomial does not agree with the survivors", "code": desc}));
            }
        }
        (_, Ok(Err(e))) => c.fail(json!({"what": format!("decoding fails: {e:?}"), "code": desc, "word": kind})),
        _ => unreachable!(),
    }
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let t = args.thorough;

    // all erasure patterns of all small codes
    let mut small = vec![];
    for k in [1usize, 2, 4, 8, 16] {
        for ex in [1usize, 2, 4, 8] {
            for lb in 0..4 {
                let bs = 1usize << lb;
                if bs <= k * ex && k * ex <= 32 {
                    small.push((k, ex, bs));
                }
            }
        }
    }
    rep.note("small codes covered with every erasure pattern", small.len());
    rep.section("exhaustive", small.len() as u64, 0.4, args.threads, |i, rng, c| {
        let p = small[i as usize];
        let rs = ReedSolomon::new(p.0, p.1, p.2);
        for mask in 0..(1usize << p.2) {
            let erased: Vec<usize> = (0..p.2).filter(|b| mask >> b & 1 == 1).collect();
            if erased.len() == p.2 && p.2 * (p.0 * p.1 / p.2) <= p.0 {
                continue;
            }
            for what in 0..4 {
                one(rng, c, &rs, p, &erased, what);
                if !c.ok() {
                    return;
                }
            }
        }
    });

    rep.section("sampled", if t { 2_000_000 } else { 50_000 }, 0.7, args.threads, |i, rng, c| {
        let k = 1usize << rng.below(if i % 50 == 0 { 13 } else { 9 });
        let ex = *rng.pick(&[1usize, 2, 2, 2, 4, 8]);
        let n = k * ex;
        if n > 1 << 14 {
            return;
        }
        let bs = 1usize << rng.below(n.trailing_zeros() as usize + 1).min(9);
        let rs = ReedSolomon::new(k, ex, bs);
        c.eval("parameters", (k, ex, bs));
        let room = (n - k) / (n / bs);
        if rs.codeword_length() != n || rs.acceptable_num_block_erasures() != room {
            return c.fail(json!({"what": format!("code ({k}, {ex}, {bs}) reports length {} and {} erasures", rs.codeword_length(), rs.acceptable_num_block_erasures())}));
        }
        // encoding
        let len = match rng.below(3) { 0 => k, 1 => rng.below(k + 1), _ => k };
        let f = poly(rng, len.max(1));
        let w = root_of_unity(n);
        if i < 5 { c.sample = Some(json!({"polynomial length": k, "expansion": ex, "block size": bs, "coefficients given": len})); }
        c.eval("encode", (k, ex, len, i));
        match rs.encode(f.clone()) {
            Ok(v) if v == ntt(&f, w, n) => {}
            _ => return c.fail(json!({"what": format!("encoding {len} coefficients with ({k}, {ex}) is wrong")})),
        }
        let long = { let extra = 1 + rng.below(4); poly(rng, k + extra) };
        c.eval("encode too long", (k, ex, long.len()));
        if rs.encode(long).is_ok() {
            return c.fail(json!({"what": format!("a polynomial longer than {k} is encoded")}));
        }
        let m = match rng.below(4) { 0 => room, 1 => rng.below(room + 1), 2 => 0, _ => (room + 1).min(bs) };
        let erased = match rng.below(3) {
            0 => (0..m).collect::<Vec<_>>(),
            1 => (bs - m..bs).collect(),
            _ => rng.subset(bs, m),
        };
        let what = rng.below(4);
        one(rng, c, &rs, (k, ex, bs), &erased, what);
        if !c.ok() {
            return;
        }
        // an index that is no block
        if room > 0 {
            let bad = bs + *rng.pick(&[0usize, 1, bs, 1 << 20]);
            let r = lib(|| rs.recover_polynomial_coefficient(vec![Scalar::ZERO; n], BlockErasureIndices(vec![bad])));
            c.eval("index out of range", (bs, bad));
            match r {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => c.fail(json!({"what": format!("erasure index {bad} is accepted with block size {bs}")})),
                Err(p) => c.fail(json!({"what": format!("erasure index {bad} with block size {bs} panics: {p}")})),
            }
        }
    });
    rep.finish()
}
