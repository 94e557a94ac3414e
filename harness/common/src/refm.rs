//! Reference mathematics, written from the specification (EIP-7594
//! polynomial-commitments-sampling) with only the scalar field, the group
//! operations and the pairing of blst/blstrs trusted. Setups have a known
//! secret, so commitments and proofs are single scalar multiplications.
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::Field;
use group::{prime::PrimeCurveAffine, Curve, Group};

pub const R_BE: [u8; 32] = [
    0x73, 0xED, 0xA7, 0x53, 0x29, 0x9D, 0x7D, 0x48, 0x33, 0x39, 0xD8, 0x08, 0x09, 0xA1, 0xD8, 0x05,
    0x53, 0xBD, 0xA4, 0x02, 0xFF, 0xFE, 0x5B, 0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0x00, 0x00, 0x00, 0x01,
];

pub fn brp(i: usize, n: usize) -> usize {
    let bits = n.trailing_zeros();
    if bits == 0 {
        0
    } else {
        ((i as u64).reverse_bits() >> (64 - bits)) as usize
    }
}

/// 7^((r-1)/n), the specification's n-th root of unity.
pub fn root_of_unity(n: usize) -> Scalar {
    let k = n.trailing_zeros() as usize;
    let le = (-Scalar::ONE).to_bytes_le();
    // exponent = (r-1) >> k as little-endian words
    let mut w = [0u64; 5];
    for i in 0..4 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&le[8 * i..8 * i + 8]);
        w[i] = u64::from_le_bytes(b);
    }
    let mut e = [0u64; 4];
    for i in 0..4 {
        e[i] = if k == 0 { w[i] } else { (w[i] >> k) | (w[i + 1] << (64 - k)) };
    }
    Scalar::from(7u64).pow_vartime(e)
}

pub fn powers(x: Scalar, n: usize) -> Vec<Scalar> {
    let mut v = Vec::with_capacity(n);
    let mut c = Scalar::ONE;
    for _ in 0..n {
        v.push(c);
        c *= x;
    }
    v
}

/// Values of the polynomial at successive powers of w (w of order n >= len):
/// decimation in time, recursive.
pub fn ntt(coeffs: &[Scalar], w: Scalar, n: usize) -> Vec<Scalar> {
    fn go(a: &[Scalar], stride: usize, n: usize, tw: &[Scalar], tstep: usize) -> Vec<Scalar> {
        if n == 1 {
            return vec![a.first().copied().unwrap_or(Scalar::ZERO)];
        }
        let e = go(a, stride * 2, n / 2, tw, tstep * 2);
        let odd: &[Scalar] = if a.len() > stride { &a[stride..] } else { &[] };
        let o = go(odd, stride * 2, n / 2, tw, tstep * 2);
        let mut out = vec![Scalar::ZERO; n];
        for i in 0..n / 2 {
            let t = o[i] * tw[i * tstep];
            out[i] = e[i] + t;
            out[i + n / 2] = e[i] - t;
        }
        out
    }
    assert!(coeffs.len() <= n);
    let tw = powers(w, n.max(1));
    go(coeffs, 1, n, &tw, 1)
}

pub fn intt(vals: &[Scalar], w: Scalar) -> Vec<Scalar> {
    let n = vals.len();
    let winv = w.invert().unwrap();
    let ninv = Scalar::from(n as u64).invert().unwrap();
    ntt(vals, winv, n).into_iter().map(|x| x * ninv).collect()
}

pub fn eval(coeffs: &[Scalar], x: Scalar) -> Scalar {
    let mut r = Scalar::ZERO;
    for c in coeffs.iter().rev() {
        r = r * x + c;
    }
    r
}

pub fn g1(s: Scalar) -> G1Affine {
    (G1Projective::generator() * s).to_affine()
}
pub fn g2(s: Scalar) -> G2Affine {
    (G2Projective::generator() * s).to_affine()
}
pub fn naive_msm(p: &[G1Affine], s: &[Scalar]) -> G1Projective {
    let mut acc = G1Projective::identity();
    for (p, s) in p.iter().zip(s) {
        if !bool::from(p.is_identity()) {
            acc += G1Projective::from(*p) * s;
        }
    }
    acc
}

/// A powers-of-tau setup with known secret, for polynomials of length n,
/// cosets of l points and an evaluation domain of ext points.
pub struct Ref {
    pub n: usize,
    pub l: usize,
    pub ext: usize,
    pub tau: Scalar,
    pub w_n: Scalar,
    pub w_ext: Scalar,
    /// points of the extended domain in bit-reversed order
    pub pts: Vec<Scalar>,
    /// x^l for the points of coset k
    pub s: Vec<Scalar>,
    /// interpolation weights at tau: I_k(tau) = sum_j y_j * wt[k][j]
    pub wt: Vec<Vec<Scalar>>,
    /// 1 / (tau^l - s_k)
    pub vinv: Vec<Scalar>,
}

impl Ref {
    pub fn eip(tau: Scalar) -> Ref {
        Ref::new(4096, 64, 8192, tau)
    }
    pub fn new(n: usize, l: usize, ext: usize, tau: Scalar) -> Ref {
        let w_ext = root_of_unity(ext);
        let nat = powers(w_ext, ext);
        let pts: Vec<Scalar> = (0..ext).map(|i| nat[brp(i, ext)]).collect();
        let taul = tau.pow_vartime([l as u64]);
        let linv = Scalar::from(l as u64).invert().unwrap();
        let mut s = vec![];
        let mut wt = vec![];
        let mut vinv = vec![];
        for k in 0..ext / l {
            let xs = &pts[k * l..(k + 1) * l];
            let sk = xs[0].pow_vartime([l as u64]);
            for x in xs {
                assert_eq!(x.pow_vartime([l as u64]), sk);
            }
            let v = taul - sk;
            let c = v * linv * sk.invert().unwrap();
            wt.push(xs.iter().map(|x| c * x * (tau - x).invert().unwrap()).collect());
            vinv.push(v.invert().unwrap());
            s.push(sk);
        }
        Ref { n, l, ext, tau, w_n: root_of_unity(n), w_ext, pts, s, wt, vinv }
    }
    pub fn cosets(&self) -> usize {
        self.ext / self.l
    }
    /// Coefficients of the polynomial whose values on the bit-reversed domain are `data`.
    pub fn data_to_coeffs(&self, data: &[Scalar]) -> Vec<Scalar> {
        assert_eq!(data.len(), self.n);
        let nat: Vec<Scalar> = (0..self.n).map(|i| data[brp(i, self.n)]).collect();
        intt(&nat, self.w_n)
    }
    pub fn coeffs_to_data(&self, c: &[Scalar]) -> Vec<Scalar> {
        let nat = ntt(c, self.w_n, self.n);
        (0..self.n).map(|i| nat[brp(i, self.n)]).collect()
    }
    /// All extended values in bit-reversed order, cut into cosets. The
    /// polynomial may have up to ext coefficients.
    pub fn coset_values(&self, coeffs: &[Scalar]) -> Vec<Vec<Scalar>> {
        let nat = ntt(coeffs, self.w_ext, self.ext);
        let all: Vec<Scalar> = (0..self.ext).map(|i| nat[brp(i, self.ext)]).collect();
        all.chunks(self.l).map(|c| c.to_vec()).collect()
    }
    pub fn values_at(&self, coeffs: &[Scalar], k: usize) -> Vec<Scalar> {
        self.pts[k * self.l..(k + 1) * self.l].iter().map(|x| eval(coeffs, *x)).collect()
    }
    pub fn interp_at_tau(&self, k: usize, y: &[Scalar]) -> Scalar {
        y.iter().zip(&self.wt[k]).map(|(a, b)| a * b).fold(Scalar::ZERO, |a, b| a + b)
    }
    /// Discrete logarithm of the proof for coset k of a polynomial with value
    /// `c` at tau and values y on the coset.
    pub fn proof_dlog(&self, c: Scalar, k: usize, y: &[Scalar]) -> Scalar {
        (c - self.interp_at_tau(k, y)) * self.vinv[k]
    }
    /// By how much a (commitment, coset, values, proof) statement given by
    /// discrete logarithms fails; zero iff it is true.
    pub fn defect(&self, c: Scalar, k: usize, y: &[Scalar], pi: Scalar) -> Scalar {
        let v = self.vinv[k].invert().unwrap();
        c - self.interp_at_tau(k, y) - v * pi
    }
    pub fn g1_powers(&self, count: usize) -> Vec<G1Affine> {
        let p = powers(self.tau, count);
        par_map(&p, |s| g1(*s))
    }
    pub fn g2_powers(&self, count: usize) -> Vec<G2Affine> {
        let p = powers(self.tau, count);
        par_map(&p, |s| g2(*s))
    }
    /// L_i(tau) in natural domain order
    pub fn g1_lagrange(&self) -> Vec<G1Affine> {
        let tn = self.tau.pow_vartime([self.n as u64]) - Scalar::ONE;
        let ninv = Scalar::from(self.n as u64).invert().unwrap();
        let xs = powers(self.w_n, self.n);
        par_map(&xs, |x| g1(tn * ninv * x * (self.tau - x).invert().unwrap()))
    }
    pub fn setup_json(&self) -> String {
        let q = |v: Vec<String>| {
            let mut s = String::from("[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push('"');
                s.push_str(x);
                s.push('"');
            }
            s.push(']');
            s
        };
        let h1 = |v: Vec<G1Affine>| q(v.iter().map(|p| format!("0x{}", crate::hex(&p.to_compressed()))).collect());
        let h2 = |v: Vec<G2Affine>| q(v.iter().map(|p| format!("0x{}", crate::hex(&p.to_compressed()))).collect());
        format!(
            "{{\"g1_monomial\":{},\"g1_lagrange\":{},\"g2_monomial\":{}}}",
            h1(self.g1_powers(self.n)),
            h1(self.g1_lagrange()),
            h2(self.g2_powers(self.l + 1))
        )
    }
}

pub fn par_map<T: Sync, U: Send>(v: &[T], f: impl Fn(&T) -> U + Sync) -> Vec<U> {
    let nt = 8;
    let chunk = v.len().div_ceil(nt).max(1);
    std::thread::scope(|s| {
        let hs: Vec<_> =
            v.chunks(chunk).map(|c| s.spawn(|| c.iter().map(&f).collect::<Vec<U>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

pub fn scalars_to_bytes(v: &[Scalar]) -> Vec<u8> {
    v.iter().flat_map(|s| s.to_bytes_be()).collect()
}
pub fn bytes_to_scalars(b: &[u8]) -> Option<Vec<Scalar>> {
    b.chunks_exact(32)
        .map(|c| {
            let mut a = [0u8; 32];
            a.copy_from_slice(c);
            Option::<Scalar>::from(Scalar::from_bytes_be(&a))
        })
        .collect()
}

/// Is this 32-byte big-endian string below the group order?
pub fn canonical_scalar(b: &[u8]) -> bool {
    b < &R_BE[..]
}

/// Classification of a 48-byte string by blst's low-level routines plus a
/// re-encoding comparison: true iff it is the canonical compressed encoding of
/// a subgroup point.
pub fn valid_g1(b: &[u8; 48]) -> bool {
    unsafe {
        let mut p = blst::blst_p1_affine::default();
        if b[0] & 0x80 == 0 {
            return false;
        }
        if blst::blst_p1_uncompress(&mut p, b.as_ptr()) != blst::BLST_ERROR::BLST_SUCCESS {
            return false;
        }
        let mut out = [0u8; 48];
        blst::blst_p1_affine_compress(out.as_mut_ptr(), &p);
        out == *b && (blst::blst_p1_affine_is_inf(&p) || blst::blst_p1_affine_in_g1(&p))
    }
}

/// A point on the curve but outside the subgroup (blst affine), from a seed x.
pub fn off_subgroup(rng: &mut crate::Rng) -> [u8; 48] {
    loop {
        let mut b = [0u8; 48];
        rng.fill(&mut b);
        b[0] = 0x80 | (b[0] & 0x3f);
        b[0] &= 0x9f; // keep x well below p most of the time
        if rng.chance(1, 2) {
            b[0] |= 0x20;
        }
        unsafe {
            let mut p = blst::blst_p1_affine::default();
            if blst::blst_p1_uncompress(&mut p, b.as_ptr()) == blst::BLST_ERROR::BLST_SUCCESS
                && !blst::blst_p1_affine_in_g1(&p)
            {
                return b;
            }
        }
    }
}

/// T of small order (3, 11, ... or the whole cofactor group): r * (curve point), optionally
/// multiplied down to a prime order. Returned as blst jacobian.
pub fn torsion_point(rng: &mut crate::Rng, want3: bool) -> blst::blst_p1 {
    // order 3: (0, 2)
    if want3 {
        unsafe {
            let mut a = blst::blst_p1_affine::default();
            blst::blst_fp_from_uint64(&mut a.y, [2u64, 0, 0, 0, 0, 0].as_ptr());
            if rng.chance(1, 2) {
                let y = a.y;
                blst::blst_fp_cneg(&mut a.y, &y, true);
            }
            assert!(blst::blst_p1_affine_on_curve(&a) && !blst::blst_p1_affine_in_g1(&a));
            let mut p = blst::blst_p1::default();
            blst::blst_p1_from_affine(&mut p, &a);
            return p;
        }
    }
    let mut r_le = R_BE;
    r_le.reverse();
    loop {
        let b = off_subgroup(rng);
        unsafe {
            let mut a = blst::blst_p1_affine::default();
            blst::blst_p1_uncompress(&mut a, b.as_ptr());
            let mut p = blst::blst_p1::default();
            blst::blst_p1_from_affine(&mut p, &a);
            // double-and-add: the generic blst multiplication may use the endomorphism
            let mut acc = blst::blst_p1::default();
            for i in (0..255).rev() {
                let t = acc;
                blst::blst_p1_double(&mut acc, &t);
                if (r_le[i / 8] >> (i % 8)) & 1 == 1 {
                    let t = acc;
                    blst::blst_p1_add_or_double(&mut acc, &t, &p);
                }
            }
            if !blst::blst_p1_is_inf(&acc) {
                return acc;
            }
        }
    }
}

/// compress(P + T) for a subgroup point given in compressed form.
pub fn add_torsion(p: &[u8; 48], t: &blst::blst_p1) -> [u8; 48] {
    unsafe {
        let mut a = blst::blst_p1_affine::default();
        assert_eq!(blst::blst_p1_uncompress(&mut a, p.as_ptr()), blst::BLST_ERROR::BLST_SUCCESS);
        let mut j = blst::blst_p1::default();
        blst::blst_p1_from_affine(&mut j, &a);
        let mut s = blst::blst_p1::default();
        blst::blst_p1_add_or_double(&mut s, &j, t);
        let mut out = [0u8; 48];
        blst::blst_p1_compress(out.as_mut_ptr(), &s);
        out
    }
}

/// Self-check of the reference against the plain definitions.
pub fn self_check(seed: u64) {
    let mut rng = crate::Rng::new(seed, "refm", 0);
    for n in [1usize, 2, 4, 16] {
        let w = root_of_unity(n);
        assert_eq!(w.pow_vartime([n as u64]), Scalar::ONE);
        if n > 1 {
            assert_ne!(w.pow_vartime([n as u64 / 2]), Scalar::ONE);
        }
        for len in 0..=n {
            let c: Vec<Scalar> = (0..len).map(|_| rng.scalar()).collect();
            let v = ntt(&c, w, n);
            for i in 0..n {
                assert_eq!(v[i], eval(&c, w.pow_vartime([i as u64])));
            }
            let mut back = intt(&v, w);
            back.truncate(len);
            assert_eq!(back, c);
        }
    }
    let r = Ref::new(16, 4, 32, rng.scalar());
    let c: Vec<Scalar> = (0..16).map(|_| rng.scalar()).collect();
    let data = r.coeffs_to_data(&c);
    assert_eq!(r.data_to_coeffs(&data), c);
    let cells = r.coset_values(&c);
    assert_eq!(cells.concat()[..16], data[..]);
    let ct = eval(&c, r.tau);
    for k in 0..8 {
        assert_eq!(cells[k], r.values_at(&c, k));
        // the interpolant of the coset, by definition
        let i: Scalar = {
            let xs = &r.pts[k * 4..k * 4 + 4];
            let mut t = Scalar::ZERO;
            for a in 0..4 {
                let mut n = cells[k][a];
                for b in 0..4 {
                    if a != b {
                        n *= (r.tau - xs[b]) * (xs[a] - xs[b]).invert().unwrap();
                    }
                }
                t += n;
            }
            t
        };
        assert_eq!(i, r.interp_at_tau(k, &cells[k]));
        let pi = r.proof_dlog(ct, k, &cells[k]);
        assert_eq!(r.defect(ct, k, &cells[k], pi), Scalar::ZERO);
        assert_eq!(pi * (r.tau.pow_vartime([4u64]) - r.s[k]) + i, ct);
    }
    assert!(valid_g1(&g1(Scalar::from(5u64)).to_compressed()));
    assert!(valid_g1(&G1Affine::identity().to_compressed()));
    assert!(!valid_g1(&off_subgroup(&mut rng)));
}
