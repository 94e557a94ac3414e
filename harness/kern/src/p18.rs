//! P18: transforms against evaluation at the powers of the root of unity,
//! polynomial operations against their defining identities.
use bls12_381::{G1Projective, Scalar};
use ff::Field;
use group::{Curve, Group};
use h_common::refm::{self, *};
use h_common::*;
use polynomial::domain::Domain;
use polynomial::poly_coeff::*;
use polynomial::CosetFFT;
use serde_json::json;

fn vec_of(rng: &mut Rng, n: usize) -> Vec<Scalar> {
    let style = rng.below(6);
    let s = rng.any_scalar();
    (0..n)
        .map(|i| match style {
            0 | 1 => rng.scalar(),
            2 => rng.edge_scalar(),
            3 => s,
            4 => if i == n / 2 || i + 1 == n { s } else { Scalar::ZERO },
            _ => if rng.chance(1, 2) { Scalar::ZERO } else { rng.scalar() },
        })
        .collect()
}

fn plain(p: &[Scalar]) -> Vec<Scalar> {
    let mut v = p.to_vec();
    while v.last() == Some(&Scalar::ZERO) {
        v.pop();
    }
    v
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let t = args.thorough;
    let max_log = if t { 14 } else { 13 };

    rep.section("domain", max_log as u64 * 12 + 40, 0.1, args.threads, |i, rng, c| {
        let n = if i < 40 { i as usize + 1 } else { let l = (i as usize - 40) % max_log; ((1usize << l) + rng.below(1 << l)).max(1) };
        let d = Domain::new(n);
        let size = n.next_power_of_two();
        c.eval("domain", n);
        let w = root_of_unity(size);
        if d.roots != powers(w, size) || d.generator != w || d.generator * d.generator_inv != Scalar::ONE
            || d.domain_size != Scalar::from(size as u64) || d.domain_size * d.domain_size_inv != Scalar::ONE
        {
            c.fail(json!({"what": format!("the domain for {n} points is wrong"), "size": d.roots.len()}));
        }
    });

    rep.section("transforms", if t { 600_000 } else { 20_000 }, 0.35, args.threads, |i, rng, c| {
        let lg = if i % 30 == 29 { rng.below(max_log + 1) } else { (i as usize) % 9 };
        let n = 1usize << lg;
        let d = Domain::new(n);
        let w = root_of_unity(n);
        let len = match rng.below(4) { 0 => n, 1 => rng.below(n + 1), 2 => n - n / 2, _ => n };
        let v = vec_of(rng, len);
        let mut padded = v.clone();
        padded.resize(n, Scalar::ZERO);
        let want = ntt(&v, w, n);
        if i < 3 { c.sample = Some(json!({"transform": "forward", "domain": n, "length": len})); }
        c.eval("forward", (n, len, i));
        if d.fft_scalars(v.clone()) != want {
            return c.fail(json!({"what": format!("the transform of {len} coefficients on {n} points is wrong")}));
        }
        c.eval("inverse", (n, i));
        if d.ifft_scalars(want.clone()) != padded {
            return c.fail(json!({"what": format!("the inverse transform on {n} points is wrong")}));
        }
        // missing values count as zero
        let short = vec_of(rng, len);
        let mut sp = short.clone();
        sp.resize(n, Scalar::ZERO);
        if d.ifft_scalars(short) != intt(&sp, w) {
            return c.fail(json!({"what": format!("the inverse transform of {len} values on {n} points is wrong")}));
        }
        let g = match rng.below(4) { 0 => Scalar::from(7u64), 1 => Scalar::ONE, 2 => root_of_unity(2 * n), _ => rng.nonzero() };
        let cos = CosetFFT::new(g);
        let mut scaled = v.clone();
        let mut p = Scalar::ONE;
        for x in scaled.iter_mut() {
            *x *= p;
            p *= g;
        }
        let cw = ntt(&scaled, w, n);
        c.eval("coset forward and inverse", (n, len, i, g.to_bytes_be()));
        if d.coset_fft_scalars(v.clone(), &cos) != cw {
            return c.fail(json!({"what": format!("the coset transform of {len} coefficients on {n} points is wrong")}));
        }
        if d.coset_ifft_scalars(cw.clone(), &cos) != padded {
            return c.fail(json!({"what": format!("the inverse coset transform on {n} points is wrong")}));
        }
        // spot check of the definition itself
        let k = rng.below(n);
        if cw[k] != eval(&v, g * w.pow_vartime([k as u64])) {
            panic!("reference transform is wrong");
        }
    });

    rep.section("group-transforms", if t { 60_000 } else { 2500 }, 0.4, args.threads, |i, rng, c| {
        let n = 1usize << if i % 20 == 19 { rng.below(if t { 11 } else { 9 }) } else { (i as usize) % 6 };
        let d = Domain::new(n);
        let w = root_of_unity(n);
        let len = if rng.chance(1, 2) { n } else { rng.below(n + 1) };
        // many points at infinity in some of the styles
        let v = vec_of(rng, len);
        let pts: Vec<G1Projective> = v.iter().map(|x| G1Projective::generator() * x).collect();
        let up = |s: &[Scalar]| -> Vec<G1Projective> { s.iter().map(|x| refm::g1(*x).into()).collect() };
        c.eval("group forward", (n, len, i));
        if d.fft_g1(pts.clone()) != up(&ntt(&v, w, n)) {
            return c.fail(json!({"what": format!("the group transform of {len} points on {n} is wrong")}));
        }
        let mut vp = v.clone();
        vp.resize(n, Scalar::ZERO);
        let want = intt(&vp, w);
        c.eval("group inverse", (n, len, i));
        if d.ifft_g1(pts.clone()) != up(&want) {
            return c.fail(json!({"what": format!("the inverse group transform of {len} points on {n} is wrong")}));
        }
        if n > 1 {
            let k = rng.below(n);
            c.eval("group inverse, first k", (n, k, i));
            if d.ifft_g1_take_n(pts.clone(), Some(k)) != up(&want[..k]) {
                c.fail(json!({"what": format!("the first {k} of the inverse group transform on {n} points are wrong")}));
            }
        }
        let _ = pts.first().map(|p| p.to_affine());
    });

    rep.section("polynomials", if t { 2_000_000 } else { 60_000 }, 1.0, args.threads, |i, rng, c| {
        let (la, lb) = match rng.below(4) { 0 => (rng.below(3), rng.below(3)), 1 => (rng.below(40), rng.below(3)), _ => (rng.below(40), rng.below(40)) };
        let (a, b) = (vec_of(rng, la), vec_of(rng, lb));
        let zip = |f: &dyn Fn(Scalar, Scalar) -> Scalar| -> Vec<Scalar> {
            (0..la.max(lb)).map(|k| f(a.get(k).copied().unwrap_or(Scalar::ZERO), b.get(k).copied().unwrap_or(Scalar::ZERO))).collect()
        };
        c.eval("add, sub, neg", (la, lb, i));
        if plain(&poly_add(a.clone(), b.clone())) != plain(&zip(&|x, y| x + y)) {
            return c.fail(json!({"what": format!("the sum of polynomials of lengths {la}, {lb} is wrong")}));
        }
        if plain(&poly_sub(a.clone(), b.clone())) != plain(&zip(&|x, y| x - y)) {
            return c.fail(json!({"what": format!("the difference of polynomials of lengths {la}, {lb} is wrong")}));
        }
        if poly_neg(a.clone()) != a.iter().map(|x| -x).collect::<Vec<_>>() {
            return c.fail(json!({"what": format!("the negation of a polynomial of length {la} is wrong")}));
        }
        let x = rng.any_scalar();
        c.eval("evaluate", (la, x.to_bytes_be()));
        let direct = a.iter().enumerate().fold(Scalar::ZERO, |s, (k, q)| s + q * x.pow_vartime([k as u64]));
        if poly_eval(&a, &x) != direct {
            return c.fail(json!({"what": format!("the value of a polynomial of length {la} is wrong")}));
        }
        if i < 3 { c.sample = Some(json!({"polynomial operands of lengths": [la, lb]})); }
        c.eval("multiply", (la, lb, i));
        match lib(|| poly_mul(a.clone(), b.clone())) {
            Err(e) => return c.fail(json!({"what": format!("multiplying polynomials of lengths {la} and {lb} panics: {e}")})),
            Ok(p) => {
                let mut want = vec![Scalar::ZERO; la + lb + 1];
                for (j, y) in a.iter().enumerate() {
                    for (k, z) in b.iter().enumerate() {
                        want[j + k] += y * z;
                    }
                }
                if plain(&p) != plain(&want) {
                    return c.fail(json!({"what": format!("the product of polynomials of lengths {la}, {lb} is wrong")}));
                }
            }
        }
        if i % 4 == 0 {
            let n = rng.below(20);
            let roots = vec_of(rng, n);
            let z = vanishing_poly(&roots);
            c.eval("vanishing polynomial", (n, i));
            let y = rng.scalar();
            let prod = roots.iter().fold(Scalar::ONE, |s, r| s * (y - r));
            if eval(&z, y) != prod || plain(&z).len() != n + 1 || roots.iter().any(|r| eval(&z, *r) != Scalar::ZERO) {
                return c.fail(json!({"what": format!("the vanishing polynomial of {n} points is wrong")}));
            }
            let m = rng.range(2, 16);
            let start = rng.scalar();
            let xs: Vec<Scalar> = match rng.below(3) {
                0 => (0..m).map(|k| Scalar::from(k as u64)).collect(), // zero among them
                1 => powers(root_of_unity(32), m),
                _ => (0..m).map(|k| start + Scalar::from(k as u64)).collect(),
            };
            let f = vec_of(rng, m);
            let pts: Vec<(Scalar, Scalar)> = xs.iter().map(|x| (*x, eval(&f, *x))).collect();
            c.eval("interpolation", (m, i));
            match lagrange_interpolate(&pts) {
                Some(g) if plain(&g) == plain(&f) => {}
                _ => c.fail(json!({"what": format!("interpolation through {m} points is wrong")})),
            }
        }
    });
    rep.finish()
}
