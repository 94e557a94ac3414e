//! Thin view of the library API: owned arguments in, comparable outcomes out.
use h_common::*;
use rust_eth_kzg::{DASContext, Error, TrustedSetup, UsePrecomp};
use std::sync::Arc;

pub const BLOB: usize = 131072;
pub const CELL: usize = 2048;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub width: usize, // 0: no precomputation
    pub threads: usize, // 0: default, otherwise that many
}

pub fn mkctx(ts: &TrustedSetup, c: Cfg) -> DASContext {
    let p = if c.width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: c.width } };
    #[cfg(feature = "mt")]
    {
        use rust_eth_kzg::ThreadCount;
        let t = match c.threads {
            0 => ThreadCount::SensibleDefault,
            1 => ThreadCount::Single,
            n => ThreadCount::Multi(n),
        };
        DASContext::with_threads(ts, t, p)
    }
    #[cfg(not(feature = "mt"))]
    {
        DASContext::new(ts, p)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    /// commitment bytes
    Com(Vec<u8>),
    /// 128 cells flattened, 128 proofs flattened
    Data(Arc<(Vec<u8>, Vec<u8>)>),
    Valid,
    InvalidProof,
    /// the library said the input is malformed
    InputError,
    Panic(String),
}

impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Com(_) => "commitment",
            Out::Data(_) => "data",
            Out::Valid => "valid",
            Out::InvalidProof => "invalid-proof",
            Out::InputError => "input-error",
            Out::Panic(_) => "panic",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Panic(s) => format!("panic: {}", &s[..s.len().min(200)]),
            Out::Com(c) => format!("commitment {}", hex(c)),
            o => o.kind().to_string(),
        }
    }
}

fn err(e: Error) -> Out {
    if e.invalid_proof() {
        Out::InvalidProof
    } else {
        Out::InputError
    }
}

pub fn commit(ctx: &DASContext, blob: &[u8]) -> Out {
    let b: &[u8; BLOB] = blob.try_into().unwrap();
    match lib(|| ctx.blob_to_kzg_commitment(b)) {
        Ok(Ok(c)) => Out::Com(c.to_vec()),
        Ok(Err(e)) => err(e),
        Err(p) => Out::Panic(p),
    }
}

fn data(r: Result<Result<([rust_eth_kzg::Cell; 128], [[u8; 48]; 128]), Error>, String>) -> Out {
    match r {
        Ok(Ok((c, p))) => {
            let mut cs = Vec::with_capacity(128 * CELL);
            for x in c.iter() {
                cs.extend_from_slice(&x[..]);
            }
            let mut ps = Vec::with_capacity(128 * 48);
            for x in p.iter() {
                ps.extend_from_slice(&x[..]);
            }
            Out::Data(Arc::new((cs, ps)))
        }
        Ok(Err(e)) => err(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn compute(ctx: &DASContext, blob: &[u8]) -> Out {
    let b: &[u8; BLOB] = blob.try_into().unwrap();
    data(lib(|| ctx.compute_cells_and_kzg_proofs(b)))
}

pub fn recover(ctx: &DASContext, idx: &[u64], cells: &[&[u8]]) -> Out {
    let c: Vec<&[u8; CELL]> = cells.iter().map(|c| (*c).try_into().unwrap()).collect();
    data(lib(|| ctx.recover_cells_and_kzg_proofs(idx.to_vec(), c)))
}

pub fn verify(ctx: &DASContext, coms: &[[u8; 48]], idx: &[u64], cells: &[Vec<u8>], proofs: &[[u8; 48]]) -> Out {
    let cm: Vec<&[u8; 48]> = coms.iter().collect();
    let cl: Vec<&[u8; CELL]> = cells.iter().map(|c| c.as_slice().try_into().unwrap()).collect();
    let pf: Vec<&[u8; 48]> = proofs.iter().collect();
    match lib(|| ctx.verify_cell_kzg_proof_batch(cm, idx.to_vec(), cl, pf)) {
        Ok(Ok(())) => Out::Valid,
        Ok(Err(e)) => err(e),
        Err(p) => Out::Panic(p),
    }
}

/// A context with the reference for its setup.
pub struct World {
    pub r: refm::Ref,
    pub ts: TrustedSetup,
    pub ctxs: Vec<(Cfg, DASContext)>,
}

impl World {
    pub fn new(rng: &mut Rng, cfgs: &[Cfg]) -> World {
        let r = refm::Ref::eip(rng.nonzero());
        let ts = TrustedSetup::from_json(&r.setup_json());
        let ctxs = cfgs.iter().map(|c| (*c, mkctx(&ts, *c))).collect();
        World { r, ts, ctxs }
    }
}
