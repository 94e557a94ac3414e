//! Requests for the four operations, valid and hostile, with the core library's answer.
use h_common::*;
use rust_eth_kzg::{DASContext, Error};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const BLOB: usize = 131072;
pub const CELL: usize = 2048;

#[derive(Clone, Debug, Hash)]
pub enum Req {
    Commit(Vec<u8>),
    Compute(Vec<u8>),
    Recover { idx: Vec<u64>, cells: Vec<Vec<u8>> },
    Verify { coms: Vec<Vec<u8>>, idx: Vec<u64>, cells: Vec<Vec<u8>>, proofs: Vec<Vec<u8>> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ans {
    Com(Vec<u8>),
    Data(Vec<u8>, Vec<u8>),
    Valid,
    Invalid,
    Error,
}

impl Ans {
    pub fn kind(&self) -> &'static str {
        match self {
            Ans::Com(_) => "commitment",
            Ans::Data(..) => "cells and proofs",
            Ans::Valid => "valid",
            Ans::Invalid => "invalid",
            Ans::Error => "error",
        }
    }
}

impl Req {
    pub fn op(&self) -> &'static str {
        match self {
            Req::Commit(_) => "commit",
            Req::Compute(_) => "compute",
            Req::Recover { .. } => "recover",
            Req::Verify { .. } => "verify",
        }
    }
    pub fn key(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    /// every item has the size its type demands
    pub fn sized(&self) -> bool {
        match self {
            Req::Commit(b) | Req::Compute(b) => b.len() == BLOB,
            Req::Recover { cells, .. } => cells.iter().all(|c| c.len() == CELL),
            Req::Verify { coms, cells, proofs, .. } => {
                coms.iter().chain(proofs).all(|c| c.len() == 48) && cells.iter().all(|c| c.len() == CELL)
            }
        }
    }
    /// What the core library does with it; None when it panics (another property's business).
    pub fn core(&self, ctx: &DASContext) -> Option<Ans> {
        if !self.sized() {
            return Some(Ans::Error);
        }
        fn e(e: Error) -> Ans {
            if e.invalid_proof() {
                Ans::Invalid
            } else {
                Ans::Error
            }
        }
        let data = |r: Result<([rust_eth_kzg::Cell; 128], [[u8; 48]; 128]), Error>| match r {
            Ok((c, p)) => Ans::Data(c.iter().flat_map(|x| x.to_vec()).collect(), p.iter().flatten().copied().collect()),
            Err(x) => e(x),
        };
        fn arr<const N: usize>(v: &[Vec<u8>]) -> Vec<&[u8; N]> {
            v.iter().map(|x| x.as_slice().try_into().unwrap()).collect()
        }
        lib(|| match self {
            Req::Commit(b) => match ctx.blob_to_kzg_commitment(b.as_slice().try_into().unwrap()) {
                Ok(c) => Ans::Com(c.to_vec()),
                Err(x) => e(x),
            },
            Req::Compute(b) => data(ctx.compute_cells_and_kzg_proofs(b.as_slice().try_into().unwrap())),
            Req::Recover { idx, cells } => data(ctx.recover_cells_and_kzg_proofs(idx.clone(), arr(cells))),
            Req::Verify { coms, idx, cells, proofs } => {
                match ctx.verify_cell_kzg_proof_batch(arr(coms), idx.clone(), arr(cells), arr(proofs)) {
                    Ok(()) => Ans::Valid,
                    Err(x) => e(x),
                }
            }
        })
        .ok()
    }
}

/// Blobs with everything the library says about them.
pub struct Pool {
    pub blobs: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, // blob, commitment, cells, proofs
}

pub fn blob(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![0u8; BLOB];
    match rng.below(7) {
        0 => {}
        1 => {
            let s = rng.any_scalar().to_bytes_be();
            for c in b.chunks_exact_mut(32) {
                c.copy_from_slice(&s);
            }
        }
        2 => {
            for _ in 0..rng.range(1, 5) {
                let k = rng.below(4096);
                b[32 * k..32 * k + 32].copy_from_slice(&rng.any_scalar().to_bytes_be());
            }
        }
        3 => {
            for c in b.chunks_exact_mut(32) {
                c.copy_from_slice(&rng.edge_scalar().to_bytes_be());
            }
        }
        _ => {
            for c in b.chunks_exact_mut(32) {
                c.copy_from_slice(&rng.scalar().to_bytes_be());
            }
        }
    }
    b
}

fn bad_scalar(rng: &mut Rng) -> [u8; 32] {
    let mut s = refm::R_BE;
    match rng.below(4) {
        0 => {}
        1 => s[31] = s[31].wrapping_add(rng.range(1, 200) as u8).max(2),
        2 => s.fill(0xff),
        _ => s[0] = s[0] + 1 + rng.below(100) as u8,
    }
    s
}

impl Pool {
    pub fn new(ctx: &DASContext, rng: &mut Rng, n: usize) -> Pool {
        let mut blobs = vec![];
        for _ in 0..n {
            let b = blob(rng);
            let Some(Ans::Com(c)) = Req::Commit(b.clone()).core(ctx) else { panic!("no commitment for a valid blob") };
            let Some(Ans::Data(ce, pr)) = Req::Compute(b.clone()).core(ctx) else { panic!("no cells for a valid blob") };
            blobs.push((b, c, ce, pr));
        }
        Pool { blobs }
    }

    fn cell(&self, b: usize, k: usize) -> Vec<u8> {
        self.blobs[b].2[k * CELL..(k + 1) * CELL].to_vec()
    }

    pub fn batch(&self, rng: &mut Rng, n: usize) -> Req {
        let (mut coms, mut idx, mut cells, mut proofs) = (vec![], vec![], vec![], vec![]);
        for _ in 0..n {
            let b = rng.below(self.blobs.len());
            let k = rng.below(128);
            coms.push(self.blobs[b].1.clone());
            idx.push(k as u64);
            cells.push(self.cell(b, k));
            proofs.push(self.blobs[b].3[k * 48..k * 48 + 48].to_vec());
        }
        Req::Verify { coms, idx, cells, proofs }
    }

    /// A request with a description; `sizes`: wrongly sized items may occur.
    pub fn request(&self, rng: &mut Rng, case: u64, sizes: bool) -> (String, Req) {
        let huge = [128u64, 129, 255, 256, 1 << 31, 1 << 32, (1 << 32) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
        let wrong = |rng: &mut Rng, v: &mut Vec<u8>| -> &'static str {
            match rng.below(6) {
                0 => { v.pop(); "one byte short" }
                1 => { v.push(0); "one byte long" }
                2 => { v.clear(); "empty" }
                3 => { let t = v.clone(); v.extend(t); "twice the size" }
                4 => { v.truncate(32); "32 bytes" }
                _ => { let n = v.len(); v.extend(vec![0u8; 65536 - n % 4096]); "very long" }
            }
        };
        let odd = sizes && rng.chance(1, 5);
        match case % 16 {
            0 | 1 | 8 | 9 => {
                let mut b = if rng.chance(1, 2) { blob(rng) } else { let i = rng.below(self.blobs.len()); self.blobs[i].0.clone() };
                let mut d = String::from("blob");
                if odd {
                    d = format!("blob {}", wrong(rng, &mut b));
                } else if case % 16 == 9 || rng.chance(1, 4) {
                    let k = *rng.pick(&[0, 1, 63, 64, 2047, 2048, 4094, 4095]);
                    let k = if rng.chance(1, 2) { k } else { rng.below(4096) };
                    b[32 * k..32 * k + 32].copy_from_slice(&bad_scalar(rng));
                    d = "blob with a non-canonical element".into();
                }
                (d, if case % 8 == 0 { Req::Commit(b) } else { Req::Compute(b) })
            }
            2..=4 | 10 | 11 => {
                let b = rng.below(self.blobs.len());
                let n = *rng.pick(&[64, 64, 65, 96, 127, 128, 64]);
                let mut have = rng.subset(128, n);
                if rng.chance(1, 3) {
                    rng.shuffle(&mut have);
                } else {
                    have.sort();
                }
                let mut idx: Vec<u64> = have.iter().map(|k| *k as u64).collect();
                let mut cells: Vec<Vec<u8>> = have.iter().map(|k| self.cell(b, *k)).collect();
                let mut d = "genuine cells".to_string();
                if odd {
                    let k = rng.below(n);
                    d = format!("a cell is {}", wrong(rng, &mut cells[k]));
                } else if case % 16 != 2 {
                    let k = rng.below(n);
                    d = match rng.below(9) {
                        0 => { let m = rng.below(64); idx.truncate(m); cells.truncate(m); "too few cells" }
                        1 => { let j = (k + 1) % n; idx[k] = idx[j]; "an index repeated" }
                        2 => { idx[k] = *rng.pick(&huge); "an index out of range" }
                        3 => { idx.pop(); "one index missing" }
                        4 => { cells.pop(); "one cell missing" }
                        5 => { let p = rng.below(64); cells[k][32 * p..32 * p + 32].copy_from_slice(&bad_scalar(rng)); "a cell with a non-canonical element" }
                        6 => { let p = rng.below(64); cells[k][32 * p + 31] ^= 1; "a corrupted cell" }
                        7 => { idx.clear(); cells.clear(); "nothing" }
                        _ => { idx.extend(0..128); cells.extend((0..128).map(|k| self.cell(b, k))); "more than 128 cells" }
                    }
                    .into();
                }
                (d, Req::Recover { idx, cells })
            }
            _ => {
                let n = match rng.below(5) { 0 => 0, 1 => 1, 2 => rng.range(100, 140), _ => rng.range(2, 20) };
                let Req::Verify { mut coms, mut idx, mut cells, mut proofs } = self.batch(rng, n) else { unreachable!() };
                let mut d = "genuine tuples".to_string();
                if n == 0 {
                    if rng.chance(1, 2) {
                        let Req::Verify { coms: c1, idx: i1, cells: ce1, proofs: p1 } = self.batch(rng, 1) else { unreachable!() };
                        match rng.below(4) { 0 => coms = c1, 1 => idx = i1, 2 => cells = ce1, _ => proofs = p1 }
                        d = "one list non-empty".into();
                    }
                } else if odd {
                    let k = rng.below(n);
                    d = match rng.below(3) {
                        0 => format!("a commitment is {}", wrong(rng, &mut coms[k])),
                        1 => format!("a cell is {}", wrong(rng, &mut cells[k])),
                        _ => format!("a proof is {}", wrong(rng, &mut proofs[k])),
                    };
                } else if case % 4 != 1 {
                    let k = if rng.chance(1, 3) { n - 1 } else { rng.below(n) };
                    d = match rng.below(12) {
                        0 => { idx[k] = (idx[k] + 1) % 128; "another index" }
                        1 => { idx[k] = *rng.pick(&huge); "an index out of range" }
                        2 => { let p = rng.below(64); cells[k][32 * p + 31] ^= 1; "a corrupted cell" }
                        3 => { proofs[k][0] ^= 0x20; "a negated proof" }
                        4 => { coms[k] = self.blobs[rng.below(self.blobs.len())].1.clone(); "another commitment" }
                        5 => { coms[k] = refm::off_subgroup(rng).to_vec(); "a commitment outside the subgroup" }
                        6 => { proofs[k] = refm::off_subgroup(rng).to_vec(); "a proof outside the subgroup" }
                        7 => { rng.fill(&mut proofs[k]); "a random proof" }
                        8 => { let p = rng.below(64); cells[k][32 * p..32 * p + 32].copy_from_slice(&bad_scalar(rng)); "a cell with a non-canonical element" }
                        9 => { match rng.below(4) { 0 => { coms.pop(); } 1 => { idx.pop(); } 2 => { cells.pop(); } _ => { proofs.pop(); } } "one item missing" }
                        10 => { let mut z = vec![0u8; 48]; z[0] = 0xc0; proofs[k] = z; "a proof at infinity" }
                        _ => { let j = rng.below(n); proofs.swap(j, k); "two proofs exchanged" }
                    }
                    .into();
                }
                (d, Req::Verify { coms, idx, cells, proofs })
            }
        }
    }
}
