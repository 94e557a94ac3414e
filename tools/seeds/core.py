HELP = r'''
#![allow(dead_code, unused_imports)]
use rust_eth_kzg::{*, constants::*};
struct R(u64);
impl R {
    fn u(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn blob(&mut self) -> Box<[u8; BYTES_PER_BLOB]> {
        let mut v = vec![0u8; BYTES_PER_BLOB];
        for c in v.chunks_exact_mut(32) { for b in c.iter_mut() { *b = self.u() as u8 } c[0] &= 0x3f; }
        v.into_boxed_slice().try_into().unwrap()
    }
}
fn ctx() -> DASContext { DASContext::default() }
fn bad(s: &str) -> ! { println!("BROKEN: {s}"); std::process::exit(1) }
'''
BLS = r'''
#![allow(dead_code, unused_imports)]
use bls12_381::{*, ff::Field, group::{Group, prime::PrimeCurveAffine, Curve}};
struct R(u64);
impl R {
    fn u(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn s(&mut self) -> Scalar { let mut a = Scalar::from(self.u()); for _ in 0..3 { a = a * Scalar::from(u64::MAX) + Scalar::from(self.u()); } a }
}
fn bad(s: &str) -> ! { println!("BROKEN: {s}"); std::process::exit(1) }
'''
SEEDS = [
dict(id="commit-trim-tail", prop="P01",
 edits=[("cryptography/kzg_multi_open/src/commit_key.rs", """        // Note: We could use g1_lincomb_unsafe""", """        // Leave out the blocks of zero coefficients at the high end, they do not contribute.
        const BLOCK: usize = 64;
        let mut poly_coeff = poly_coeff;
        while poly_coeff.len() > BLOCK {
            let (low, high) = poly_coeff.split_at(poly_coeff.len() - BLOCK);
            let zero = Scalar::from(0u64);
            if high[0] != zero || high[BLOCK - 1] != zero {
                break;
            }
            poly_coeff = low;
        }

        // Note: We could use g1_lincomb_unsafe""")],
 needs="a blob whose polynomial has a zero leading coefficient, a zero coefficient 64 places below it and a non-zero one between",
 breaks="the commitment leaves out non-zero coefficients",
 deps=["kzg", "bls"],
 main=r'''
use bls12_381::{*, ff::Field, group::Curve, group::Group};
use kzg_multi_open::commit_key::CommitKey;
fn main() {
    let tau = Scalar::from(77u64);
    let mut p = Scalar::ONE;
    let mut pts = vec![]; let mut pw = vec![];
    for _ in 0..256 { pts.push((G1Projective::generator() * p).to_affine()); pw.push(p); p *= tau; }
    let ck = CommitKey::new(pts);
    let mut c: Vec<Scalar> = (0..256).map(|i| Scalar::from(i as u64 * i as u64 + 5)).collect();
    for i in 192..256 { c[i] = Scalar::ZERO; }
    c[200] = Scalar::from(9u64);
    let want = G1Projective::generator() * c.iter().zip(&pw).fold(Scalar::ZERO, |a, (x, y)| a + x * y);
    if ck.commit_g1(&c) != want { println!("BROKEN"); std::process::exit(1) }
}
'''),
dict(id="window-count", prop="P02",
 edits=[("cryptography/bls12_381/src/fixed_base_msm_window.rs", "Scalar::NUM_BITS as usize / self.wbits + 1;", "(Scalar::NUM_BITS as usize).div_ceil(self.wbits);")],
 needs="a precomputation width that divides 255 (3, 5, 15) and a scalar whose top digit carries",
 breaks="the carry out of the last window is dropped, so precomputed and plain products differ",
 deps=["bls"],
 main=BLS + r'''
use bls12_381::fixed_base_msm::*;
fn main() {
    let mut r = R(99);
    for w in [2, 3, 4, 5, 6, 7, 8] {
        let d: Vec<Scalar> = (0..8).map(|_| r.s()).collect();
        let g: Vec<G1Point> = d.iter().map(|x| (G1Projective::generator() * x).to_affine()).collect();
        let f = FixedBaseMSM::new(g, UsePrecomp::Yes { width: w });
        for _ in 0..6 {
            let s: Vec<Scalar> = (0..8).map(|_| r.s()).collect();
            let want = G1Projective::generator() * d.iter().zip(&s).fold(Scalar::ZERO, |a, (x, y)| a + x * y);
            if f.msm(s) != want { bad(&format!("width {w}")) }
        }
    }
}
'''),
dict(id="booth-two-bytes", prop="P02",
 edits=[("cryptography/bls12_381/src/booth_encoding.rs", "    for (dst, src) in v.iter_mut().zip(el.iter().skip(skip_bytes)) {", "    let num_bytes = (window_size + 8) / 8;\n    for (dst, src) in v.iter_mut().zip(el.iter().skip(skip_bytes).take(num_bytes)) {")],
 needs="a width of at least nine or one whose window crosses two byte boundaries",
 breaks="digits that straddle one byte more than expected lose their high bits",
 deps=["bls"],
 main=BLS + r'''
use bls12_381::fixed_base_msm::*;
fn main() {
    let mut r = R(5);
    for w in 1..=12 {
        let d: Vec<Scalar> = (0..3).map(|_| r.s()).collect();
        let g: Vec<G1Point> = d.iter().map(|x| (G1Projective::generator() * x).to_affine()).collect();
        let f = FixedBaseMSM::new(g, UsePrecomp::Yes { width: w });
        for _ in 0..6 {
            let s: Vec<Scalar> = (0..3).map(|_| r.s()).collect();
            let want = G1Projective::generator() * d.iter().zip(&s).fold(Scalar::ZERO, |a, (x, y)| a + x * y);
            if f.msm(s) != want { bad(&format!("width {w}")) }
        }
    }
}
'''),
dict(id="recover-sorted-indices", prop="P03",
 edits=[("eip7594/src/recovery.rs", """    let cell_indices: Vec<usize> = cell_indices
        .into_iter()
        .map(|index| index as usize)
        .collect();

    // Computation""", """    let mut cell_indices: Vec<usize> = cell_indices
        .into_iter()
        .map(|index| index as usize)
        .collect();
    cell_indices.sort_unstable();

    // Computation""")],
 needs="a recovery request whose indices are not ascending",
 breaks="cells are put at the positions of other cells",
 main=HELP + r'''
fn main() {
    let c = ctx(); let b = R(3).blob();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    let idx: Vec<u64> = (0..100u64).map(|i| (i * 37 + 5) % 128).collect();
    let refs: Vec<CellRef> = idx.iter().map(|i| &*cells[*i as usize]).collect();
    match c.recover_cells_and_kzg_proofs(idx, refs) {
        Ok((x, p)) if x == cells && p == proofs => {}
        _ => bad("recovery from unsorted cells"),
    }
}
'''),
dict(id="recover-first-64", prop="P04",
 edits=[("eip7594/src/recovery.rs", """    // Deserialization
    //
    let coset_evaluations = deserialize_cells(cells)?;
    let cell_indices: Vec<usize> = cell_indices
        .into_iter()
""", """    // Deserialization
    //
    // Half of the cells determine the polynomial, so the others need not be used.
    let num_needed = CELLS_PER_EXT_BLOB / EXPANSION_FACTOR;
    let mut coset_evaluations = deserialize_cells(cells)?;
    coset_evaluations.truncate(num_needed);
    let cell_indices: Vec<usize> = cell_indices
        .into_iter()
        .take(num_needed)
"""), ("eip7594/src/recovery.rs", "    constants::{CELLS_PER_EXT_BLOB, FIELD_ELEMENTS_PER_EXT_BLOB},", "    constants::{CELLS_PER_EXT_BLOB, EXPANSION_FACTOR, FIELD_ELEMENTS_PER_EXT_BLOB},")],
 needs="more than 64 cells of which one past the 64th disagrees with the others",
 breaks="cells that agree with no blob are recovered instead of refused",
 main=HELP + r'''
fn main() {
    let c = ctx(); let b = R(3).blob();
    let (mut cells, _) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    cells[90][31] ^= 1;
    let idx: Vec<u64> = (0..128).collect();
    let refs: Vec<CellRef> = cells.iter().map(|x| &**x).collect();
    if c.recover_cells_and_kzg_proofs(idx, refs).is_ok() { bad("an inconsistent set of cells is recovered") }
}
'''),
dict(id="recover-no-erasure-path", prop="P04",
 edits=[("cryptography/erasure_codes/src/reed_solomon.rs", """        // Compute Z(X) which is the polynomial that vanishes on all
        // of the missing points
""", """        // Nothing is missing, so interpolation suffices.
        let nothing_missing =
            matches!(&erasure, ErasurePattern::BlockSynchronizedErasures(e) if e.0.is_empty());
        if nothing_missing {
            let mut coefficients = self.evaluation_domain.ifft_scalars(data_eval);
            coefficients.truncate(self.poly_len);
            return Ok(coefficients);
        }

        // Compute Z(X) which is the polynomial that vanishes on all
        // of the missing points
""")],
 needs="all 128 cells, inconsistent with each other",
 breaks="a full set of cells that is no codeword is recovered to something else instead of refused",
 main=HELP + r'''
fn main() {
    let c = ctx(); let b = R(4).blob();
    let (mut cells, _) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    cells[3][31] ^= 1;
    let idx: Vec<u64> = (0..128).collect();
    let refs: Vec<CellRef> = cells.iter().map(|x| &**x).collect();
    if c.recover_cells_and_kzg_proofs(idx, refs).is_ok() { bad("an inconsistent full set of cells is recovered") }
}
'''),
dict(id="rs-degree-off-by-one", prop="P19",
 edits=[("cryptography/erasure_codes/src/reed_solomon.rs", "coefficients.iter().skip(self.poly_len) {", "coefficients.iter().skip(self.poly_len + 1) {")],
 needs="a codeword of a polynomial with exactly one coefficient too many",
 breaks="a word that is no codeword is decoded",
 deps=["rs", "bls", "poly"],
 main=BLS + r'''
use erasure_codes::*;
fn main() {
    let mut r = R(7);
    let rs = ReedSolomon::new(16, 2, 8);
    let f: Vec<Scalar> = (0..17).map(|_| r.s()).collect();
    let word = polynomial::domain::Domain::new(32).fft_scalars(f);
    if rs.recover_polynomial_coefficient(word, BlockErasureIndices(vec![])).is_ok() { bad("a word that is no codeword is decoded") }
}
'''),
dict(id="commitment-index-byte", prop="P05",
 edits=[("eip7594/src/verifier.rs", "        indices.push(index as u64);", "        indices.push(index as u64);\n    }\n    // Keep the table of seen items from growing past one batch row\n    if unique_items.len() > 256 {\n        for index in &mut indices {\n            *index &= 0xff;\n        }")],
 needs="a batch over more than 256 distinct commitments",
 breaks="a true batch is refused",
 main=HELP + r'''
fn main() {
    let c = ctx();
    // constant blobs: the proof is the identity, the cell is the constant
    let mut coms = vec![]; let mut cells: Vec<Box<[u8; BYTES_PER_CELL]>> = vec![];
    for i in 0..300u32 {
        let mut blob = vec![0u8; BYTES_PER_BLOB];
        for w in blob.chunks_exact_mut(32) { w[28..].copy_from_slice(&(i + 1).to_be_bytes()) }
        let blob: Box<[u8; BYTES_PER_BLOB]> = blob.into_boxed_slice().try_into().unwrap();
        coms.push(c.blob_to_kzg_commitment(&blob).unwrap());
        cells.push(blob[..BYTES_PER_CELL].to_vec().into_boxed_slice().try_into().unwrap());
    }
    let mut inf = [0u8; 48]; inf[0] = 0xc0;
    let r = c.verify_cell_kzg_proof_batch(coms.iter().collect(), (0..300).map(|i| i % 128).collect(), cells.iter().map(|x| &**x).collect(), vec![&inf; 300]);
    if r.is_err() { bad("a true batch over 300 commitments is refused") }
}
'''),
dict(id="verify-constant-cell", prop="P06",
 edits=[("cryptography/kzg_multi_open/src/fk20/verifier.rs", """        .zip(bit_reversed_coset_indices)
            .zip(r_powers)
    {""", """        .zip(bit_reversed_coset_indices)
            .zip(r_powers)
    {
        // All values equal: the interpolation polynomial is that constant
        if bit_reversed_coset_eval.first() == bit_reversed_coset_eval.last() {
            let constant = vec![bit_reversed_coset_eval[0] * scale_factor];
            random_sum_interpolation_poly = poly_add(random_sum_interpolation_poly, constant);
            continue;
        }
""")],
 needs="a cell whose first and last values are equal but not the others",
 breaks="false cells of that shape are accepted (and true ones refused)",
 main=HELP + r'''
fn main() {
    let c = ctx();
    let mut blob = vec![0u8; BYTES_PER_BLOB];
    for w in blob.chunks_exact_mut(32) { w[31] = 7 }
    let blob: Box<[u8; BYTES_PER_BLOB]> = blob.into_boxed_slice().try_into().unwrap();
    let com = c.blob_to_kzg_commitment(&blob).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&blob).unwrap();
    let mut x = cells[5].clone();
    x[32 * 10 + 31] = 9;
    if c.verify_cell_kzg_proof_batch(vec![&com], vec![5], vec![&x], vec![&proofs[5]]).is_ok() { bad("a false cell is accepted") }
}
'''),
dict(id="challenge-without-rows", prop="P07",
 edits=[("cryptography/kzg_multi_open/src/fk20/verifier.rs", "            + row_indices.len() * size_of::<u64>()\n", ""),
        ("cryptography/kzg_multi_open/src/fk20/verifier.rs", "        hash_input.extend(row_indices[k as usize].to_be_bytes());\n", "        debug_assert!((row_indices[k as usize] as usize) < row_commitments.len());\n")],
 needs="an adversary who permutes which commitment each tuple refers to after the challenge is known",
 breaks="the batching challenge no longer depends on which commitment a cell is claimed for",
 deps=["eip7594", "kzg", "bls"],
 main=r'''
// Two requests that differ only in the commitment a tuple refers to must not share a challenge.
// With a shared challenge r, choosing C1 = C0 + D, tuple errors e0 and e1 with e0 + r e1 = 0 can be
// moved between requests: we look for the challenge through a batch forged for r.
use bls12_381::{*, ff::Field, group::{Curve, Group}};
use kzg_multi_open::{verification_key::VerificationKey, Verifier};
// n = 2, coset size 1, 4 points: a tuple is (commitment c, index k, value y, proof p) with
// c - y = p (tau - x_k); the batch checks sum r^j (c_j - y_j - p_j (tau - x_kj)) = 0.
fn g(s: Scalar) -> G1Point { (G1Projective::generator() * s).to_affine() }
fn main() {
    let tau = Scalar::from(123457u64);
    let g1s = vec![g(Scalar::ONE), g(tau)];
    let g2s = vec![G2Projective::generator().to_affine(), (G2Projective::generator() * tau).to_affine()];
    let v = Verifier::new(VerificationKey::new(g1s, g2s, 1, 2), 4, 4);
    let roots = v.coset_gens_bit_reversed.clone();
    // Commitments A, B, C; tuples claim rows (i, j, k). Values and proofs are fixed before the rows are
    // chosen, except that the weights would be known if they do not depend on the rows.
    let coms = [Scalar::from(5u64), Scalar::from(1000u64)];
    let idx = [0u64, 1, 2];
    let val: Vec<Scalar> = [11u64, 12, 13].iter().map(|x| Scalar::from(*x)).collect();
    // compute r as the library would when rows are left out of the hash
    use sha2::{Digest, Sha256};
    let cp: Vec<G1Point> = coms.iter().map(|c| g(*c)).collect();
    let challenge = |proofs: &[Scalar]| {
        let mut h = Vec::new();
        h.extend(b"RCKZGCBATCH__V1_");
        for x in [2u64, 1, 2, 3] { h.extend(x.to_be_bytes()) }
        for c in &cp { h.extend(c.to_compressed()) }
        for k in 0..3 { h.extend(idx[k].to_be_bytes()); h.extend(val[k].to_bytes_be()); h.extend(g(proofs[k]).to_compressed()) }
        reduce_bytes_to_scalar_bias(Sha256::digest(&h).into())
    };
    // proofs with many candidate rows: batch sum over rows choice b in {0,1}^3:
    // S(b) = sum r^j (c_{b_j} - y_j - p_j (tau - x_j)). Only r matters; to make S(b) = 0 for a false b we
    // need freedom after the hash, which only the rows give: 8 choices. Instead show the missing
    // dependence directly: a sequence with rows changed must change the verdict of a batch tuned to r.
    let proofs: Vec<Scalar> = vec![Scalar::from(3u64), Scalar::from(4u64), Scalar::from(5u64)];
    let r = challenge(&proofs);
    // choose tau-independent commitments so that S(0,1,0) = 0 for this r: solve for coms[1]? it is hashed,
    // so solve through the setup instead: make a verifier whose secret satisfies the equation.
    // S = s0 + r s1 + r^2 s2 with s_j = c_j - y_j - p_j (tau' - x_j): linear in tau'.
    let rows = [0u64, 1, 0];
    let pw = [Scalar::ONE, r, r * r];
    let mut a = Scalar::ZERO; let mut b = Scalar::ZERO;
    for j in 0..3 {
        a += pw[j] * (coms[rows[j] as usize] - val[j] + proofs[j] * roots[idx[j] as usize]);
        b += pw[j] * proofs[j];
    }
    let t2 = a * b.invert().unwrap();
    let v2 = Verifier::new(VerificationKey::new(vec![g(Scalar::ONE), g(t2)],
        vec![G2Projective::generator().to_affine(), (G2Projective::generator() * t2).to_affine()], 1, 2), 4, 4);
    let ev: Vec<Vec<Scalar>> = val.iter().map(|x| vec![*x]).collect();
    let pp: Vec<G1Point> = proofs.iter().map(|x| g(*x)).collect();
    if v2.verify_multi_opening(&cp, &rows, &idx, &ev, &pp).is_ok() {
        println!("BROKEN: the challenge is the same whatever commitment the tuples refer to"); std::process::exit(1)
    }
}
''', extra_deps='sha2 = "0.10"\n'),
dict(id="subgroup-of-sum", prop="P08",
 edits=[("eip7594/src/serialization.rs", """    points
        .into_iter()
        .map(|point| deserialize_compressed_g1(point))
        .collect()
}""", """    // The subgroup check is the expensive part: do it once, for the sum of the points.
    let points = points
        .into_iter()
        .map(|bytes| {
            Option::from(G1Point::from_compressed_unchecked(bytes)).ok_or(
                SerializationError::CouldNotDeserializeG1Point {
                    bytes: bytes.to_vec(),
                },
            )
        })
        .collect::<Result<Vec<G1Point>, _>>()?;
    let sum = points
        .iter()
        .fold(G1Projective::identity(), |sum, point| sum + point);
    deserialize_compressed_g1(&sum.to_compressed())?;
    Ok(points)
}"""), ("eip7594/src/serialization.rs", "use bls12_381::{G1Point, Scalar};", "use bls12_381::{group::Group, G1Point, G1Projective, Scalar};")],
 needs="two points outside the prime-order subgroup whose torsion parts cancel",
 breaks="points outside the subgroup are let in",
 deps=["eip7594", "bls"],
 main=r'''
use bls12_381::{*, group::{Curve, Group, prime::PrimeCurveAffine}};
use rust_eth_kzg::{*, constants::*};
fn main() {
    let c = DASContext::default();
    // a point of the curve outside of the subgroup
    let mut t = None;
    for i in 1..255u8 {
        let mut b = [0u8; 48]; b[0] = 0x80; b[47] = i;
        let p: Option<G1Point> = Option::from(G1Point::from_compressed_unchecked(&b));
        if let Some(p) = p { if !bool::from(p.is_torsion_free()) { t = Some(p); break } }
    }
    let t = t.unwrap();
    let blob = vec![0u8; BYTES_PER_BLOB].into_boxed_slice();
    let blob: Box<[u8; BYTES_PER_BLOB]> = blob.try_into().unwrap();
    let com = c.blob_to_kzg_commitment(&blob).unwrap();
    let cell = vec![0u8; BYTES_PER_CELL]; let cell: &[u8; BYTES_PER_CELL] = cell[..].try_into().unwrap();
    let p1 = t.to_compressed();
    let p2 = (-t).to_compressed();
    let r = c.verify_cell_kzg_proof_batch(vec![&com, &com], vec![0, 1], vec![cell, cell], vec![&p1, &p2]);
    match r {
        Err(Error::Serialization(_)) => {}
        x => { println!("BROKEN: proofs outside of the subgroup give {:?}", x.map_err(|e| e.invalid_proof())); std::process::exit(1) }
    }
}
'''),
dict(id="point-cache-without-sign", prop="P09",
 edits=[("eip7594/src/serialization.rs", "pub(crate) fn deserialize_compressed_g1(point_bytes: &[u8]) -> Result<G1Point, SerializationError> {\n", """/// The point that was deserialized last; the same commitment often follows itself.
static LAST_POINT: std::sync::Mutex<Option<([u8; 40], G1Point)>> = std::sync::Mutex::new(None);

pub(crate) fn deserialize_compressed_g1(point_bytes: &[u8]) -> Result<G1Point, SerializationError> {
    if point_bytes.len() == BYTES_PER_G1_POINT {
        let last = *LAST_POINT.lock().unwrap();
        if let Some((key, point)) = last {
            if key[..] == point_bytes[8..] {
                return Ok(point);
            }
        }
        let point = deserialize_compressed_g1_uncached(point_bytes)?;
        let key = point_bytes[8..].try_into().expect("infallible: 40 bytes");
        *LAST_POINT.lock().unwrap() = Some((key, point));
        return Ok(point);
    }
    deserialize_compressed_g1_uncached(point_bytes)
}

fn deserialize_compressed_g1_uncached(point_bytes: &[u8]) -> Result<G1Point, SerializationError> {
""")],
 needs="two encodings that differ only in their first bytes, one after the other, e.g. a point and its negation",
 breaks="the answer depends on what was asked before",
 main=HELP + r'''
fn main() {
    let c = ctx(); let b = R(3).blob();
    let com = c.blob_to_kzg_commitment(&b).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    let ask = |p: &[u8; 48]| c.verify_cell_kzg_proof_batch(vec![&com], vec![1], vec![&cells[1]], vec![p]).is_ok();
    if !ask(&proofs[1]) { bad("true proof refused") }
    let mut neg = proofs[1]; neg[0] ^= 0x20;
    if ask(&neg) { bad("negated proof accepted after the true one") }
    if !ask(&proofs[1]) { bad("true proof refused after the negated one") }
}
'''),
dict(id="scratch-check-then-act", prop="P09",
 edits=[("cryptography/kzg_multi_open/src/fk20/verifier.rs", "    let mut random_sum_interpolation_poly = Vec::new();\n", """    // The accumulator is kept between calls; a caller that finds it taken uses its own.
    static TAKEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    static KEPT: std::sync::Mutex<Vec<Scalar>> = std::sync::Mutex::new(Vec::new());
    use std::sync::atomic::Ordering::SeqCst;
    let kept = !TAKEN.load(SeqCst);
    if kept {
        TAKEN.store(true, SeqCst);
        KEPT.lock().unwrap().clear();
    }
    let mut random_sum_interpolation_poly = Vec::new();
"""), ("cryptography/kzg_multi_open/src/fk20/verifier.rs", """        random_sum_interpolation_poly =
            poly_add(random_sum_interpolation_poly, scaled_interpolation_poly);
    }

    random_sum_interpolation_poly
""", """        if kept {
            let mut sum = KEPT.lock().unwrap();
            let so_far = std::mem::take(&mut *sum);
            *sum = poly_add(so_far, scaled_interpolation_poly);
        } else {
            random_sum_interpolation_poly =
                poly_add(random_sum_interpolation_poly, scaled_interpolation_poly);
        }
    }

    if kept {
        random_sum_interpolation_poly = KEPT.lock().unwrap().clone();
        TAKEN.store(false, SeqCst);
    }
    random_sum_interpolation_poly
""")],
 needs="two verifications that both find the shared accumulator free before either has taken it",
 breaks="overlapping verifications add into one accumulator: true batches are refused",
 main=HELP + r'''
use std::sync::{Arc, Barrier};
fn main() {
    let c = Arc::new(ctx()); let b = R(3).blob();
    let com = c.blob_to_kzg_commitment(&b).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    let data = Arc::new((com, cells, proofs));
    let n = 16;
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| { let (c, d, bar) = (c.clone(), data.clone(), bar.clone());
        std::thread::spawn(move || {
            let mut ok = true;
            for k in 0..400u64 {
                if k % 10 == 0 { bar.wait(); }
                let i = (k * 7 + t as u64) % 128;
                ok &= c.verify_cell_kzg_proof_batch(vec![&d.0], vec![i], vec![&d.1[i as usize]], vec![&d.2[i as usize]]).is_ok();
            }
            ok
        }) }).collect();
    let ok = hs.into_iter().map(|h| h.join().unwrap()).fold(true, |a, b| a & b);
    if !ok { bad("a true batch was refused under concurrency") }
}
'''),
dict(id="unbounded-point-cache", prop="P10",
 edits=[("eip7594/src/serialization.rs", """    points
        .into_iter()
        .map(|point| deserialize_compressed_g1(point))
        .collect()
}""", """    // Commitments come back often, so remember the ones that were checked.
    static CHECKED: std::sync::Mutex<std::collections::BTreeMap<[u8; 48], G1Point>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    points
        .into_iter()
        .map(|bytes| {
            if let Some(point) = CHECKED.lock().unwrap().get(bytes) {
                return Ok(*point);
            }
            let point = deserialize_compressed_g1(bytes)?;
            CHECKED.lock().unwrap().insert(*bytes, point);
            Ok(point)
        })
        .collect()
}""")],
 needs="a long-running process that sees new commitments",
 breaks="every distinct point ever verified stays in memory",
 main=HELP + r'''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let c = ctx(); let b = R(3).blob();
    let com = c.blob_to_kzg_commitment(&b).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&b).unwrap();
    let ask = |i: usize| { let _ = c.verify_cell_kzg_proof_batch(vec![&com], vec![i as u64], vec![&cells[i]], vec![&proofs[i]]); };
    for i in 0..8 { ask(i) }
    let before = LIVE.load(SeqCst);
    for i in 8..128 { ask(i) }
    let grown = LIVE.load(SeqCst) - before;
    if grown > 4096 { bad(&format!("{grown} bytes kept after 120 verifications")) }
}
'''),
dict(id="setup-check-last-g2", prop="P16",
 edits=[("eip7594/src/trusted_setup.rs", """        let num_g2_points = g2_points.len();
""", """        let num_g2_points = g2_points.len().min(FIELD_ELEMENTS_PER_CELL + 1);
"""), ("eip7594/src/trusted_setup.rs", """            SubgroupCheck::Check => G2Point::from_compressed(&g2_point_bytes).unwrap(),
""", """            // The verifier only ever uses the last one that a cell needs
            SubgroupCheck::Check if g2_points.len() >= FIELD_ELEMENTS_PER_CELL => {
                G2Point::from_compressed(&g2_point_bytes).unwrap()
            }
            SubgroupCheck::Check => G2Point::from_compressed_unchecked(&g2_point_bytes).unwrap(),
""")],
 needs="a setup file with a G2 point outside the subgroup that is not the last one",
 breaks="a malformed setup is accepted by from_json",
 deps=["eip7594", "bls"], extra_deps='serde_json = "1"\n',
 main=r'''
use bls12_381::{*, group::prime::PrimeCurveAffine};
use rust_eth_kzg::TrustedSetup;
fn main() {
    let repo = include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml")).lines().find(|l| l.starts_with("rust_eth_kzg")).unwrap().split("path = \"").nth(1).unwrap().split('"').next().unwrap().to_string();
    let text = std::fs::read_to_string(format!("{repo}/data/trusted_setup_4096.json")).unwrap();
    let mut v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let mut bad = None;
    for i in 0..=255u8 {
        let mut b = [0u8; 96]; b[0] = 0x80; b[95] = i; b[40] = 3;
        let p: Option<G2Point> = Option::from(G2Point::from_compressed_unchecked(&b));
        if let Some(p) = p { if !bool::from(p.is_torsion_free()) { bad = Some(b); break } }
    }
    let hexs: String = bad.unwrap().iter().map(|b| format!("{b:02x}")).collect();
    v["g2_monomial"][7] = serde_json::Value::String(format!("0x{hexs}"));
    let s = v.to_string();
    if std::panic::catch_unwind(|| TrustedSetup::from_json(&s)).is_ok() { println!("BROKEN: accepted"); std::process::exit(1) }
}
'''),
dict(id="batch-add-drop", prop="P17",
 edits=[("cryptography/bls12_381/src/batch_addition.rs", """            for (i, inv) in (0..=points.len() - 2)
                .step_by(2)
                .zip(&denominators[denominators_offset..])
            {
                let p1 = points[i];
                let p2 = points[i + 1];
                points[i / 2] = point_add_double(p1, p2, inv);
            }

            let num_points = points.len() / 2;""", """            for (i, inv) in (0..=points.len() - 2)
                .step_by(2)
                .zip(&denominators[denominators_offset..])
            {
                let p1 = points[i];
                let p2 = points[i + 1];
                points[i / 2] = point_add_double(p1, p2, inv);
            }

            // every pair has become one point; at most 128 come in
            let num_points = (points.len() / 2).min(64);""")],
 needs="a set of more than 128 points in one batch addition",
 breaks="points past the first 128 of a set are dropped",
 deps=["bls"],
 main=BLS + r'''
use bls12_381::batch_addition::*;
fn main() {
    let mut r = R(5);
    for n in [1usize, 16, 40, 64, 100, 128, 129, 130, 200, 255, 256, 300] {
        let d: Vec<Scalar> = (0..n).map(|_| r.s()).collect();
        let g: Vec<G1Point> = d.iter().map(|x| (G1Projective::generator() * x).to_affine()).collect();
        let want = G1Projective::generator() * d.iter().fold(Scalar::ZERO, |a, x| a + x);
        if multi_batch_addition_binary_tree_stride(vec![g]) != vec![want] { bad(&format!("{n} points")) }
    }
}
'''),
dict(id="fft-zero-left", prop="P18",
 edits=[("cryptography/polynomial/src/fft.rs", """                let u = a[k + j];
                a[k + j] = u + t;
                a[k + j + m] = u - t;
                w *= w_m;""", """                let u = a[k + j];
                if u == T::zero() {
                    // nothing to combine with
                    a[k + j] = t;
                    a[k + j + m] = t;
                    w *= w_m;
                    continue;
                }
                a[k + j] = u + t;
                a[k + j + m] = u - t;
                w *= w_m;""")],
 needs="a vector with a zero entry (or zero partial sum) in the left half of a butterfly and a non-zero right half",
 breaks="the transform loses a sign",
 deps=["poly", "bls"],
 main=BLS + r'''
use polynomial::domain::Domain;
fn main() {
    let d = Domain::new(8);
    for at in 0..8 {
        let mut c = vec![Scalar::ZERO; 8]; c[at] = Scalar::from(3u64);
        let e = d.fft_scalars(c.clone());
        for i in 0..8 {
            let want = c[at] * d.roots[i].pow_vartime([at as u64]);
            if e[i] != want { bad(&format!("monomial {at}")) }
        }
    }
}
'''),
dict(id="coset-reassemble-size", prop="P20",
 edits=[("cryptography/kzg_multi_open/src/fk20/cosets.rs", """    let index_bound = domain_size / coset_len;
""", """    let index_bound = (domain_size / coset_len).next_power_of_two().max(2);
"""), ("cryptography/kzg_multi_open/src/fk20/cosets.rs", """        elements[start..end].copy_from_slice(&coset_evals);
""", """        if end > elements.len() {
            continue;
        }
        elements[start..end].copy_from_slice(&coset_evals);
""")],
 needs="a single coset that fills the whole domain, addressed with index one",
 breaks="an index out of range is accepted and the evaluations dropped",
 deps=["kzg", "bls"],
 main=r'''
use bls12_381::{Scalar, ff::Field};
use kzg_multi_open::recover_evaluations_in_domain_order;
fn main() {
    for k in [1usize, 2, 4] {
        let ev = vec![vec![Scalar::ONE; 16 / k]; 1];
        if recover_evaluations_in_domain_order(16, vec![k], ev.clone()).is_some() { println!("BROKEN: index {k} of {k}"); std::process::exit(1) }
        if recover_evaluations_in_domain_order(16, vec![k - 1], ev).is_none() { println!("BROKEN: refuses index in range"); std::process::exit(1) }
    }
}
'''),
dict(id="prover-quotient-shortcut", prop="P20",
 edits=[("cryptography/kzg_multi_open/src/fk20/h_poly.rs", """    // Reverse polynomial so highest coefficient is first.""", """    // A polynomial of at most `coset_size` coefficients is its own remainder on every coset.
    if polynomial[coset_size..].first() == polynomial[coset_size..].last()
        && polynomial[num_coefficients / 2..].iter().all(|c| *c == Scalar::ZERO)
    {
        let num_proofs = num_coefficients / coset_size;
        return vec![G1Projective::default(); num_proofs];
    }

    // Reverse polynomial so highest coefficient is first.""")],
 needs="a polynomial of less than half of the length whose coefficient number coset-size is zero",
 breaks="proofs become the identity for polynomials that are not constant on the cosets",
 main=HELP + r'''
fn main() {
    // f = 2 + x^100, given by its values: computed by the library from cells of a known polynomial is
    // not possible without a reference, so check that the proofs verify.
    let c = ctx();
    use bls12_381::{Scalar, ff::Field};
    let d = polynomial::domain::Domain::new(4096);
    let mut f = vec![Scalar::ZERO; 4096]; f[0] = Scalar::from(2u64); f[100] = Scalar::ONE;
    let e = d.fft_scalars(f);
    let mut blob = vec![0u8; BYTES_PER_BLOB];
    for i in 0..4096usize { let j = (i as u32).reverse_bits() >> 20; blob[i * 32..i * 32 + 32].copy_from_slice(&e[j as usize].to_bytes_be()) }
    let blob: Box<[u8; BYTES_PER_BLOB]> = blob.into_boxed_slice().try_into().unwrap();
    let com = c.blob_to_kzg_commitment(&blob).unwrap();
    let (cells, proofs) = c.compute_cells_and_kzg_proofs(&blob).unwrap();
    let r = c.verify_cell_kzg_proof_batch(vec![&com; 128], (0..128).collect(), cells.iter().map(|x| &**x).collect(), proofs.iter().collect());
    if r.is_err() { bad("own proofs do not verify") }
}
''', deps=["eip7594", "bls", "poly"]),
]
