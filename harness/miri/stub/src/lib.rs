//! Stands in for the core library when the C functions run under Miri: it reads
//! everything it is given and answers with a pattern that depends on it.
pub mod constants {
    pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
    pub const FIELD_ELEMENTS_PER_CELL: usize = 64;
    pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;
    pub const BYTES_PER_BLOB: usize = 131072;
    pub const BYTES_PER_CELL: usize = 2048;
    pub const EXPANSION_FACTOR: usize = 2;
    pub const FIELD_ELEMENTS_PER_EXT_BLOB: usize = 8192;
    pub const CELLS_PER_EXT_BLOB: usize = 128;
    pub const NUM_PROOFS: usize = 128;
    pub const BYTES_PER_COMMITMENT: usize = 48;
    pub const RECOMMENDED_PRECOMP_WIDTH: usize = 8;
}

pub type Cell = Box<[u8; 2048]>;
pub type CellRef<'a> = &'a [u8; 2048];
pub type KZGCommitment = [u8; 48];
pub type KZGProof = [u8; 48];
pub type BlobRef<'a> = &'a [u8; 131072];
pub type Bytes48Ref<'a> = &'a [u8; 48];
pub type CellIndex = u64;

#[derive(Debug, Clone, Copy)]
pub enum ThreadCount {
    Single,
    SensibleDefault,
    Multi(usize),
}
#[derive(Debug, Clone, Copy)]
pub enum UsePrecomp {
    Yes { width: usize },
    No,
}
#[derive(Debug, Clone, Default)]
pub struct TrustedSetup;

#[derive(Debug)]
pub enum Error {
    Input(String),
    Proof,
}
impl Error {
    pub fn invalid_proof(&self) -> bool {
        matches!(self, Error::Proof)
    }
}

#[derive(Debug, Default)]
pub struct DASContext {
    own: Vec<u8>,
}

fn byte(x: &[u8]) -> u8 {
    // reads all of it
    let copy = x.to_vec();
    copy[0] ^ copy[x.len() - 1].rotate_left(1)
}
pub fn seed_of_blob(b: &[u8]) -> u8 {
    byte(b)
}
pub fn seed_of_recover(idx: &[u64], cells: &[&[u8]]) -> u8 {
    let mut s = 7u8;
    for i in idx {
        s = s.wrapping_mul(3).wrapping_add(*i as u8);
    }
    for c in cells {
        s = s.wrapping_mul(3).wrapping_add(byte(c));
    }
    s
}
pub fn cell_of(seed: u8, k: usize) -> [u8; 2048] {
    let mut c = [seed ^ k as u8; 2048];
    c[0] = seed;
    c[2047] = k as u8;
    c
}
pub fn proof_of(seed: u8, k: usize) -> [u8; 48] {
    let mut c = [seed.wrapping_sub(k as u8); 48];
    c[47] = !(k as u8);
    c
}
fn data(seed: u8) -> ([Cell; 128], [KZGProof; 128]) {
    (std::array::from_fn(|k| Box::new(cell_of(seed, k))), std::array::from_fn(|k| proof_of(seed, k)))
}
/// Blobs, cells and so on that start with this are malformed.
pub const BAD: u8 = 0xee;
/// A batch with a proof that starts with this is invalid.
pub const FALSE: u8 = 0xdd;

impl DASContext {
    pub fn with_threads(_: &TrustedSetup, t: ThreadCount, p: UsePrecomp) -> Self {
        DASContext { own: format!("{t:?}{p:?}").into_bytes() }
    }
    pub fn blob_to_kzg_commitment(&self, b: BlobRef) -> Result<KZGCommitment, Error> {
        assert!(!self.own.is_empty());
        if b[0] == BAD {
            return Err(Error::Input("a malformed blob".into()));
        }
        Ok(proof_of(seed_of_blob(b), 200))
    }
    pub fn compute_cells_and_kzg_proofs(&self, b: BlobRef) -> Result<([Cell; 128], [KZGProof; 128]), Error> {
        assert!(!self.own.is_empty());
        if b[0] == BAD {
            return Err(Error::Input("a malformed blob".into()));
        }
        Ok(data(seed_of_blob(b)))
    }
    pub fn recover_cells_and_kzg_proofs(&self, idx: Vec<CellIndex>, cells: Vec<CellRef>) -> Result<([Cell; 128], [KZGProof; 128]), Error> {
        assert!(!self.own.is_empty());
        let c: Vec<&[u8]> = cells.iter().map(|x| &x[..]).collect();
        let s = seed_of_recover(&idx, &c);
        if cells.is_empty() || idx.len() != cells.len() || cells.iter().any(|x| x[0] == BAD) {
            return Err(Error::Input("a malformed request".into()));
        }
        Ok(data(s))
    }
    pub fn verify_cell_kzg_proof_batch(&self, coms: Vec<Bytes48Ref>, idx: Vec<CellIndex>, cells: Vec<CellRef>, proofs: Vec<Bytes48Ref>) -> Result<(), Error> {
        assert!(!self.own.is_empty());
        for x in coms.iter().chain(&proofs) {
            byte(&x[..]);
        }
        for x in &cells {
            byte(&x[..]);
        }
        let n = coms.len();
        if idx.len() != n || cells.len() != n || proofs.len() != n || coms.iter().any(|x| x[0] == BAD) {
            return Err(Error::Input("a malformed request".into()));
        }
        if proofs.iter().any(|x| x[0] == FALSE) {
            return Err(Error::Proof);
        }
        Ok(())
    }
}
