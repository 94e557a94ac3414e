//! Input generators, aimed at the structures that arithmetic and indexing
//! code treats specially.
use blstrs::Scalar;
use ff::Field;
use h_common::refm::{self, Ref};
use h_common::Rng;

pub struct Blob {
    pub class: String,
    pub coeffs: Vec<Scalar>,
    pub data: Vec<Scalar>,
    pub bytes: Vec<u8>,
}

const N: usize = 4096;

pub fn edge_degree(rng: &mut Rng) -> usize {
    *rng.pick(&[
        0, 1, 2, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 1023, 1024, 2047, 2048, 2049, 3967, 3968, 4030, 4031,
        4032, 4033, 4094, 4095,
    ])
}

pub fn blob(rng: &mut Rng, r: &Ref, case: u64) -> Blob {
    let fam = if case < 34 { (case % 17) as usize } else { rng.below(17) };
    blob_family(rng, r, fam)
}

pub fn blob_family(rng: &mut Rng, r: &Ref, fam: usize) -> Blob {
    let zero = Scalar::ZERO;
    let mut from_c: Option<Vec<Scalar>> = None;
    let mut from_d: Option<Vec<Scalar>> = None;
    let class: String;
    match fam {
        0 => {
            class = "random".into();
            from_d = Some((0..N).map(|_| rng.scalar()).collect());
        }
        1 => {
            class = "zero".into();
            from_d = Some(vec![zero; N]);
        }
        2 => {
            class = "constant".into();
            let c = rng.any_scalar();
            from_d = Some(vec![c; N]);
        }
        3 => {
            let p = rng.below(N);
            class = format!("one-element@{}", p / 512);
            let mut d = vec![zero; N];
            d[p] = rng.any_scalar();
            from_d = Some(d);
        }
        4 => {
            let k = if rng.chance(1, 2) { edge_degree(rng) } else { rng.below(N) };
            class = format!("monomial@{}", k / 512);
            let mut c = vec![zero; N];
            c[k] = rng.any_scalar();
            from_c = Some(c);
        }
        5 => {
            let d = edge_degree(rng);
            class = format!("degree={d}");
            let mut c = vec![zero; N];
            for x in &mut c[..=d] {
                *x = rng.scalar();
            }
            from_c = Some(c);
        }
        6 => {
            class = "edge-data".into();
            from_d = Some((0..N).map(|_| rng.edge_scalar()).collect());
        }
        7 => {
            class = "edge-coeffs".into();
            from_c = Some((0..N).map(|_| rng.edge_scalar()).collect());
        }
        8 => {
            class = "all-minus-one".into();
            from_d = Some(vec![-Scalar::ONE; N]);
        }
        9 => {
            let k = rng.range(1, 40);
            class = "sparse-data".into();
            let mut d = vec![zero; N];
            for _ in 0..k {
                d[rng.below(N)] = rng.any_scalar();
            }
            from_d = Some(d);
        }
        10 => {
            let hi = rng.chance(1, 2);
            class = format!("half-coeffs-{}", if hi { "high" } else { "low" });
            let mut c = vec![zero; N];
            let rg = if hi { N / 2..N } else { 0..N / 2 };
            for i in rg {
                c[i] = rng.scalar();
            }
            from_c = Some(c);
        }
        11 => {
            let k = rng.below(128);
            class = "vanishes-on-a-cell".into();
            let q: Vec<Scalar> = (0..N - 64).map(|_| rng.scalar()).collect();
            let mut c = vec![zero; N];
            for (i, x) in q.iter().enumerate() {
                c[i] -= r.s[k] * x;
                c[i + 64] += *x;
            }
            from_c = Some(c);
        }
        12 => {
            class = "cell-constant".into();
            let mut c = vec![zero; N];
            for i in (0..N).step_by(64) {
                c[i] = rng.scalar();
            }
            from_c = Some(c);
        }
        13 => {
            let j = rng.below(64);
            class = "one-residue-class".into();
            let mut c = vec![zero; N];
            for i in (j..N).step_by(64) {
                c[i] = rng.any_scalar();
            }
            from_c = Some(c);
        }
        14 => {
            class = "small-values".into();
            from_d = Some((0..N).map(|_| Scalar::from(rng.below(256) as u64)).collect());
        }
        15 => {
            class = "one-cell-of-data".into();
            let k = rng.below(64);
            let mut d = vec![zero; N];
            for x in &mut d[64 * k..64 * (k + 1)] {
                *x = rng.any_scalar();
            }
            from_d = Some(d);
        }
        _ => {
            class = "sparse-coeffs".into();
            let mut c = vec![zero; N];
            for _ in 0..rng.range(1, 40) {
                c[rng.below(N)] = rng.any_scalar();
            }
            from_c = Some(c);
        }
    }
    let (coeffs, data) = match (from_c, from_d) {
        (Some(c), _) => {
            let d = r.coeffs_to_data(&c);
            (c, d)
        }
        (_, Some(d)) => (r.data_to_coeffs(&d), d),
        _ => unreachable!(),
    };
    let bytes = refm::scalars_to_bytes(&data);
    Blob { class, coeffs, data, bytes }
}

/// A (commitment, index, cell, proof) statement given by discrete logarithms.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tuple {
    pub c: Fr,
    pub k: usize,
    pub y: Vec<Fr>,
    pub pi: Fr,
}

/// Scalar with Hash
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fr(pub Scalar);
impl std::hash::Hash for Fr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.to_bytes_le().hash(h)
    }
}

impl Tuple {
    pub fn ys(&self) -> Vec<Scalar> {
        self.y.iter().map(|x| x.0).collect()
    }
    pub fn defect(&self, r: &Ref) -> Scalar {
        r.defect(self.c.0, self.k, &self.ys(), self.pi.0)
    }
    pub fn fix_proof(&mut self, r: &Ref) {
        self.pi = Fr(r.proof_dlog(self.c.0, self.k, &self.ys()));
    }
    /// Changes the proof so that the tuple fails by exactly d.
    pub fn set_defect(&mut self, r: &Ref, d: Scalar) {
        let cur = self.defect(r);
        // defect decreases by v * dpi
        self.pi = Fr(self.pi.0 + (cur - d) * r.vinv[self.k]);
        debug_assert_eq!(self.defect(r), d);
    }
}

pub fn cell_values(rng: &mut Rng) -> Vec<Fr> {
    match rng.below(8) {
        0 => vec![Fr(Scalar::ZERO); 64],
        1 => vec![Fr(rng.any_scalar()); 64],
        2 => {
            let mut v = vec![Fr(Scalar::ZERO); 64];
            v[rng.below(64)] = Fr(rng.any_scalar());
            v
        }
        3 => (0..64).map(|_| Fr(rng.edge_scalar())).collect(),
        _ => (0..64).map(|_| Fr(rng.scalar())).collect(),
    }
}

/// A true tuple: any values on a coset and any value at tau are those of some
/// polynomial of degree below 4096.
pub fn true_tuple(rng: &mut Rng, r: &Ref, c: Option<Scalar>) -> Tuple {
    let k = rng.below(128);
    let y = cell_values(rng);
    let ys: Vec<Scalar> = y.iter().map(|x| x.0).collect();
    let i = r.interp_at_tau(k, &ys);
    let c = c.unwrap_or_else(|| match rng.below(10) {
        0 => Scalar::ZERO, // commitment at infinity
        1 => i,            // proof at infinity
        2 => rng.edge_scalar(),
        _ => rng.scalar(),
    });
    Tuple { c: Fr(c), k, y, pi: Fr(r.proof_dlog(c, k, &ys)) }
}

#[derive(Clone, Default)]
pub struct Batch {
    pub coms: Vec<[u8; 48]>,
    pub idx: Vec<u64>,
    pub cells: Vec<Vec<u8>>,
    pub proofs: Vec<[u8; 48]>,
}

impl Batch {
    pub fn of(ts: &[Tuple]) -> Batch {
        let mut memo = std::collections::HashMap::new();
        let mut enc = |s: Scalar| *memo.entry(Fr(s)).or_insert_with(|| refm::g1(s).to_compressed());
        Batch {
            coms: ts.iter().map(|t| enc(t.c.0)).collect(),
            idx: ts.iter().map(|t| t.k as u64).collect(),
            cells: ts.iter().map(|t| refm::scalars_to_bytes(&t.ys())).collect(),
            proofs: ts.iter().map(|t| enc(t.pi.0)).collect(),
        }
    }
    pub fn verify(&self, ctx: &rust_eth_kzg::DASContext) -> crate::api::Out {
        crate::api::verify(ctx, &self.coms, &self.idx, &self.cells, &self.proofs)
    }
    pub fn key(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.coms, &self.idx, &self.cells, &self.proofs).hash(&mut h);
        h.finish()
    }
}

/// Sizes around the places batch code changes behaviour.
pub fn batch_size(rng: &mut Rng, max: usize) -> usize {
    let v = match rng.below(8) {
        0 => 1,
        1 => rng.range(2, 4),
        2 | 3 => rng.range(5, 40),
        4 => *rng.pick(&[8, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        5 => *rng.pick(&[96, 127, 128, 129, 130, 191, 192, 193]),
        6 => rng.range(41, 128),
        _ => *rng.pick(&[200, 255, 256, 257, 300, 383, 384, 511, 512, 513]),
    };
    v.min(max)
}

/// Erasure patterns: which cells are present, in which order.
pub fn present(rng: &mut Rng, n: usize) -> (String, Vec<usize>) {
    assert!((64..=128).contains(&n));
    let missing = 128 - n;
    let fam = rng.below(9);
    let mut gone: Vec<usize> = match fam {
        0 => (0..missing).collect(),
        1 => (128 - missing..128).collect(),
        2 => (0..missing).map(|i| 2 * i).collect(),
        3 => (0..missing).map(|i| 2 * i + 1).collect(),
        4 => (0..missing).map(|i| refm::brp(i, 128)).collect(),
        5 => (0..missing).map(|i| refm::brp(127 - i, 128)).collect(),
        6 => {
            let s = rng.below(128);
            (0..missing).map(|i| (s + i) % 128).collect()
        }
        _ => rng.subset(128, missing),
    };
    gone.sort();
    let mut have: Vec<usize> = (0..128).filter(|i| gone.binary_search(i).is_err()).collect();
    let order = match rng.below(5) {
        0 | 1 => "ascending",
        2 => {
            have.reverse();
            "descending"
        }
        3 => {
            let s = rng.below(n);
            have.rotate_left(s);
            "rotated"
        }
        _ => {
            rng.shuffle(&mut have);
            "shuffled"
        }
    };
    (format!("pattern{fam}/{order}"), have)
}
