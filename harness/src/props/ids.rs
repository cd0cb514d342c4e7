//! C12-C16: ids and signature hashes.
use super::nets::*;
use super::*;
use crate::model::*;
use sia::consensus::*;
use sia::encoding::SiaEncodable;
use sia::types::v1::{self, CoveredFields};
use sia::types::v2;
use sia::types::*;
use std::collections::HashMap;

const INDICES: [usize; 16] = [
    0,
    1,
    2,
    3,
    9,
    127,
    128,
    255,
    256,
    257,
    65535,
    65536,
    1 << 31,
    (1u64 << 32) as usize,
    (1u64 << 63) as usize,
    usize::MAX,
];
fn all_indices() -> Vec<usize> {
    let mut v: Vec<usize> = INDICES.to_vec();
    for i in 0..64 {
        v.push((1u64 << i) as usize);
        v.push(((1u64 << i) as usize).wrapping_sub(1));
        v.push(0x0102_0304_0506_0708u64.rotate_left(i) as usize);
    }
    v.extend(0..512);
    v.sort();
    v.dedup();
    v
}
fn spec(s: &str) -> [u8; 16] {
    *spec16(s.as_bytes()).as_bytes()
}
fn h32<T: AsRef<[u8; 32]>>(t: &T) -> [u8; 32] {
    *t.as_ref()
}
fn same(what: &str, got: [u8; 32], want: [u8; 32]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        bad(format!("{what} is {}, expected {}", hexs(&got), hexs(&want)))
    }
}

// ---------------------------------------------------------------------- C12

fn check_v1_ids(t: &v1::Transaction, idx: &[usize]) -> Result<u64, String> {
    let ns = v1_nosigs(t);
    let mut e = vec![];
    t.encode_no_sigs(&mut e).map_err(|x| format!("encode_no_sigs fails: {x:?}"))?;
    if e != ns {
        return bad(format!("encode_no_sigs gives {}, expected {}", short(&e), short(&ns)));
    }
    same("the transaction id", h32(&t.id()), blake(&[&ns]))?;
    for &i in idx {
        let ib = (i as u64).to_le_bytes();
        same(&format!("siacoin_output_id({i})"), h32(&t.siacoin_output_id(i)), blake(&[&spec("siacoin output"), &ns, &ib]))?;
        same(&format!("siafund_output_id({i})"), h32(&t.siafund_output_id(i)), blake(&[&spec("siafund output"), &ns, &ib]))?;
        same(&format!("file_contract_id({i})"), h32(&t.file_contract_id(i)), blake(&[&spec("file contract"), &ns, &ib]))?;
    }
    Ok(hash_bytes(&ns))
}
fn v1_cases() -> Vec<(usize, usize)> {
    let cap = if crate::thorough() { 4 << 20 } else { 200 << 10 };
    long_cases(v1::Transaction::g, |t| v1_nosigs(t).len() + t.signatures.len() * 100, cap)
}
fn v2_cases() -> Vec<(usize, usize)> {
    let cap = if crate::thorough() { 4 << 20 } else { 200 << 10 };
    let size = |t: &v2::Transaction| {
        let mut o = vec![];
        t.e2(&mut o);
        o.len()
    };
    long_cases(v2::Transaction::g, size, cap)
}
pub fn c12() -> Vec<Unit> {
    let long = v1_cases();
    vec![
        unit("long", 0, u64::MAX, move |c| {
            let t = long_choice(c, v1::Transaction::g, &long);
            check_v1_ids(&t, &[0, 257, 65536]).map_err(|m| format!("{m}: {}", dbg(&t)))
        }),
        unit("transactions", 3, b(300_000 * 8), |c| {
            c.base();
            let mut t = v1::Transaction::g(c);
            let h = check_v1_ids(&t, &[0, 257]).map_err(|m| format!("{m}: {}", dbg(&t)))?;
            c.sample(|| dbg(&t));
            // the same transaction with other signatures
            let before = (t.id(), t.siacoin_output_id(1), t.siafund_output_id(2), t.file_contract_id(0));
            let mut other: Vec<v1::TransactionSignature> = vec![];
            for k in 0..4 {
                match k {
                    0 => t.signatures = std::mem::take(&mut other),
                    1 => {
                        let mut k = Ctx::new(&[], false);
                        k.mode = 2;
                        k.ctr = 77;
                        t.signatures = G::g(&mut k);
                    }
                    2 => {
                        for s in t.signatures.iter_mut() {
                            s.signature.push(1);
                            s.covered_fields = CoveredFields::whole_transaction();
                        }
                    }
                    _ => t.signatures.reverse(),
                }
                if (t.id(), t.siacoin_output_id(1), t.siafund_output_id(2), t.file_contract_id(0)) != before {
                    return bad(format!("an id depends on the signatures: {}", dbg(&t)));
                }
                c.evals += 1;
            }
            Ok(h)
        }),
        unit("in place", 2, b(400_000), |c| in_place(c, V1::g, &V1_PUTS, &C12_OPS)),
        unit("indices", 0, u64::MAX, |c| {
            c.base();
            let all = all_indices();
            let t = v1::Transaction::g(c);
            let k = c.free(all.len().div_ceil(16));
            let part = &all[k * 16..all.len().min(k * 16 + 16)];
            c.evals += part.len() as u64;
            Ok(check_v1_ids(&t, part)? ^ k as u64)
        }),
    ]
}

/// Keeps every list where it is.
fn refill_v1(t: &mut v1::Transaction, v: v1::Transaction) {
    reuse(&mut t.siacoin_inputs, v.siacoin_inputs);
    reuse(&mut t.siacoin_outputs, v.siacoin_outputs);
    reuse(&mut t.file_contracts, v.file_contracts);
    reuse(&mut t.file_contract_revisions, v.file_contract_revisions);
    reuse(&mut t.storage_proofs, v.storage_proofs);
    reuse(&mut t.siafund_inputs, v.siafund_inputs);
    reuse(&mut t.siafund_outputs, v.siafund_outputs);
    reuse(&mut t.miner_fees, v.miner_fees);
    reuse(&mut t.arbitrary_data, v.arbitrary_data);
    reuse(&mut t.signatures, v.signatures);
}
fn refill_v2(t: &mut v2::Transaction, v: v2::Transaction) {
    reuse(&mut t.siacoin_inputs, v.siacoin_inputs);
    reuse(&mut t.siacoin_outputs, v.siacoin_outputs);
    reuse(&mut t.siafund_inputs, v.siafund_inputs);
    reuse(&mut t.siafund_outputs, v.siafund_outputs);
    reuse(&mut t.file_contracts, v.file_contracts);
    reuse(&mut t.file_contract_revisions, v.file_contract_revisions);
    reuse(&mut t.file_contract_resolutions, v.file_contract_resolutions);
    reuse(&mut t.attestations, v.attestations);
    reuse(&mut t.arbitrary_data, v.arbitrary_data);
    t.new_foundation_address = v.new_foundation_address;
    t.miner_fee = v.miner_fee;
}
type V1 = v1::Transaction;
const V1_PUTS: [Put<V1>; 2] = [replace, refill_v1];
const V2_PUTS: [Put<v2::Transaction>; 2] = [replace, refill_v2];
fn v1_output(t: &V1, kind: &str, i: usize) -> Result<u64, String> {
    let got = match kind {
        "siacoin output" => h32(&t.siacoin_output_id(i)),
        "siafund output" => h32(&t.siafund_output_id(i)),
        _ => h32(&t.file_contract_id(i)),
    };
    let want = blake(&[&spec(kind), &v1_nosigs(t), &(i as u64).to_le_bytes()]);
    same(&format!("the id of {kind} {i}"), got, want).map_err(|m| format!("{m}: {}", dbg(t)))?;
    Ok(hash_bytes(&want))
}
const C12_OPS: [Op<V1>; 6] = [
    ("id", |t| {
        let want = blake(&[&v1_nosigs(t)]);
        same("the transaction id", h32(&t.id()), want).map_err(|m| format!("{m}: {}", dbg(t)))?;
        Ok(hash_bytes(&want))
    }),
    ("siacoin_output_id(0)", |t| v1_output(t, "siacoin output", 0)),
    ("siacoin_output_id(1)", |t| v1_output(t, "siacoin output", 1)),
    ("siafund_output_id(0)", |t| v1_output(t, "siafund output", 0)),
    ("file_contract_id(0)", |t| v1_output(t, "file contract", 0)),
    ("encode_no_sigs", |t| {
        let ns = v1_nosigs(t);
        let mut e = vec![];
        t.encode_no_sigs(&mut e).map_err(|x| format!("encode_no_sigs fails: {x:?}"))?;
        if e != ns {
            return bad(format!("encode_no_sigs gives {}, expected {}", short(&e), short(&ns)));
        }
        Ok(hash_bytes(&e))
    }),
];

// ---------------------------------------------------------------------- C13

/// Replaces everything that is only a witness.
fn change_witnesses(t: &mut v2::Transaction, how: usize) {
    let mut k = Ctx::new(&[], false);
    k.mode = how % 3;
    k.ctr = 1000 + 50 * how as u64;
    let k = &mut k;
    for i in t.siacoin_inputs.iter_mut() {
        match how {
            0..=2 => {
                i.satisfied_policy = G::g(k);
                i.parent.state_element = G::g(k);
                i.parent.siacoin_output = G::g(k);
                i.parent.maturity_height ^= 5;
            }
            _ => i.satisfied_policy.signatures.push(G::g(k)),
        }
    }
    for i in t.siafund_inputs.iter_mut() {
        match how {
            0..=2 => {
                i.satisfied_policy = G::g(k);
                i.parent.state_element = G::g(k);
                i.parent.siafund_output = G::g(k);
                i.parent.claim_start = G::g(k);
            }
            _ => i.satisfied_policy.preimages.push(G::g(k)),
        }
    }
    for f in t.file_contracts.iter_mut() {
        f.renter_signature = G::g(k);
        f.host_signature = G::g(k);
    }
    for r in t.file_contract_revisions.iter_mut() {
        r.parent.state_element = G::g(k);
        r.parent.v2_file_contract = G::g(k);
        r.revision.renter_signature = G::g(k);
        r.revision.host_signature = G::g(k);
    }
    for r in t.file_contract_resolutions.iter_mut() {
        r.parent.state_element = G::g(k);
        r.parent.v2_file_contract = G::g(k);
        match &mut r.resolution {
            v2::ContractResolution::Renewal(n) => {
                n.renter_signature = G::g(k);
                n.host_signature = G::g(k);
                n.new_contract.renter_signature = G::g(k);
                n.new_contract.host_signature = G::g(k);
                n.final_revision.renter_signature = G::g(k);
                n.final_revision.host_signature = G::g(k);
            }
            v2::ContractResolution::StorageProof(p) => {
                p.proof_index.state_element.merkle_proof = G::g(k);
            }
            v2::ContractResolution::Expiration() => {}
        }
    }
}
pub fn c13() -> Vec<Unit> {
    let long = v2_cases();
    vec![
        unit("long", 0, u64::MAX, move |c| {
            let t = long_choice(c, v2::Transaction::g, &long);
            let want = sem_txn(&t);
            same("the transaction id", h32(&t.id()), blake(&[&want])).map_err(|m| format!("{m}: {}", dbg(&t)))?;
            Ok(hash_bytes(&want))
        }),
        unit("transactions", 3, b(500_000 * 8), |c| {
            c.base();
            let t = v2::Transaction::g(c);
            let want = sem_txn(&t);
            same("the transaction id", h32(&t.id()), blake(&[&want])).map_err(|m| format!("{m}: {}", dbg(&t)))?;
            c.sample(|| dbg(&t));
            Ok(hash_bytes(&want))
        }),
        unit("in place", 2, b(100_000), |c| {
            in_place(c, v2::Transaction::g, &V2_PUTS, &C13_OPS)
        }),
        unit("witnesses", 2, b(4_000_000), |c| {
            c.base();
            let mut t = v2::Transaction::g(c);
            let id = t.id();
            let how = c.free(4);
            change_witnesses(&mut t, how);
            c.evals += 1;
            if t.id() != id {
                return bad(format!("the id depends on witness data (change {how}): {}", dbg(&t)));
            }
            same("the id", h32(&id), blake(&[&sem_txn(&t)]))?;
            Ok(hash_bytes(id.as_ref()) ^ how as u64)
        }),
    ]
}

// ---------------------------------------------------------------------- C14

fn derivations(p: [u8; 32], idx: &[usize]) -> Vec<(String, [u8; 32], [u8; 32])> {
    let mut v: Vec<(String, [u8; 32], [u8; 32])> = vec![];
    let b = BlockID::new(p);
    let sf = SiafundOutputID::new(p);
    let t = TransactionID::new(p);
    let f = FileContractID::new(p);
    v.push(("claim_output_id".into(), h32(&sf.claim_output_id()), blake(&[&p])));
    v.push(("v2_claim_output_id".into(), h32(&sf.v2_claim_output_id()), blake(&[b"sia/id/v2siacoinclaimoutput|", &p])));
    v.push(("foundation_output_id".into(), h32(&b.foundation_output_id()), blake(&[&p, &spec("foundation")])));
    v.push(("v2_renter_output_id".into(), h32(&f.v2_renter_output_id()), blake(&[b"sia/id/v2filecontractoutput|", &p, &0u64.to_le_bytes()])));
    v.push(("v2_host_output_id".into(), h32(&f.v2_host_output_id()), blake(&[b"sia/id/v2filecontractoutput|", &p, &1u64.to_le_bytes()])));
    v.push(("v2_renewal_id".into(), h32(&f.v2_renewal_id()), blake(&[b"sia/id/v2filecontractrenewal|", &p])));
    for &i in idx {
        let ib = (i as u64).to_le_bytes();
        v.push((format!("miner_output_id({i})"), h32(&b.miner_output_id(i)), blake(&[&p, &ib])));
        v.push((format!("valid_output_id({i})"), h32(&f.valid_output_id(i)), blake(&[&spec("storage proof"), &p, &[1], &ib])));
        v.push((format!("missed_output_id({i})"), h32(&f.missed_output_id(i)), blake(&[&spec("storage proof"), &p, &[0], &ib])));
        v.push((format!("v2_siacoin_output_id({i})"), h32(&t.v2_siacoin_output_id(i)), blake(&[b"sia/id/siacoinoutput|", &p, &ib])));
        v.push((format!("v2_siafund_output_id({i})"), h32(&t.v2_siafund_output_id(i)), blake(&[b"sia/id/siafundoutput|", &p, &ib])));
        v.push((format!("v2_file_contract_id({i})"), h32(&t.v2_file_contract_id(i)), blake(&[b"sia/id/filecontract|", &p, &ib])));
        v.push((format!("v2_attestation_id({i})"), h32(&t.v2_attestation_id(i)), blake(&[b"sia/id/attestation|", &p, &ib])));
    }
    v
}
fn parents() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32]];
    for i in 0..32 {
        let mut p = [0u8; 32];
        p[i] = 1;
        v.push(p);
        p[i] = 0x80;
        v.push(p);
        let mut q = [0x5a; 32];
        q[i] ^= 0xff;
        v.push(q);
    }
    v
}
/// One parent of each kind, at one place.
#[derive(Debug)]
struct Parents {
    b: BlockID,
    sf: SiafundOutputID,
    t: TransactionID,
    f: FileContractID,
}
const KINDS: usize = 20;
fn derive(p: &Parents, raw: &[u8; 32], kind: usize) -> Result<(), String> {
    let (z, o) = (0u64.to_le_bytes(), 1u64.to_le_bytes());
    let (got, want) = match kind {
        0 => (h32(&p.sf.claim_output_id()), blake(&[raw])),
        1 => (h32(&p.sf.v2_claim_output_id()), blake(&[b"sia/id/v2siacoinclaimoutput|", raw])),
        2 => (h32(&p.b.foundation_output_id()), blake(&[raw, &spec("foundation")])),
        3 => (h32(&p.f.v2_renter_output_id()), blake(&[b"sia/id/v2filecontractoutput|", raw, &z])),
        4 => (h32(&p.f.v2_host_output_id()), blake(&[b"sia/id/v2filecontractoutput|", raw, &o])),
        5 => (h32(&p.f.v2_renewal_id()), blake(&[b"sia/id/v2filecontractrenewal|", raw])),
        k => {
            let i = (k - 6) % 2;
            let ib = (i as u64).to_le_bytes();
            match (k - 6) / 2 {
                0 => (h32(&p.b.miner_output_id(i)), blake(&[raw, &ib])),
                1 => (h32(&p.f.valid_output_id(i)), blake(&[&spec("storage proof"), raw, &[1], &ib])),
                2 => (h32(&p.f.missed_output_id(i)), blake(&[&spec("storage proof"), raw, &[0], &ib])),
                3 => (h32(&p.t.v2_siacoin_output_id(i)), blake(&[b"sia/id/siacoinoutput|", raw, &ib])),
                4 => (h32(&p.t.v2_siafund_output_id(i)), blake(&[b"sia/id/siafundoutput|", raw, &ib])),
                5 => (h32(&p.t.v2_file_contract_id(i)), blake(&[b"sia/id/filecontract|", raw, &ib])),
                _ => (h32(&p.t.v2_attestation_id(i)), blake(&[b"sia/id/attestation|", raw, &ib])),
            }
        }
    };
    same(&format!("derivation {kind} of {}", hexs(raw)), got, want)
}
fn set_parents(s: &mut Parents, p: [u8; 32]) {
    s.b = BlockID::new(p);
    s.sf = SiafundOutputID::new(p);
    s.t = TransactionID::new(p);
    s.f = FileContractID::new(p);
}
pub fn c14() -> Vec<Unit> {
    vec![
        // every sequence of derivations from parents that replace each other in one place
        unit("in place", 0, u64::MAX, |c| {
            let mut ps = vec![[0u8; 32], [0xff; 32], [0x5a; 32]];
            for i in [0, 7, 8, 16, 24, 31] {
                let mut p = [0u8; 32];
                p[i] = 1;
                ps.push(p);
            }
            let n = if crate::thorough() { 4 } else { 3 };
            let mut slot = Box::new(Parents { b: BlockID::new([0; 32]), sf: SiafundOutputID::new([0; 32]), t: TransactionID::new([0; 32]), f: FileContractID::new([0; 32]) });
            let first = (c.free(KINDS), c.free(ps.len()));
            let second = (c.free(KINDS), c.free(ps.len()));
            let rest = KINDS * ps.len();
            let mut h = 0u64;
            for tail in 0..rest.pow(n - 2) {
                let mut steps = vec![first, second];
                let mut x = tail;
                for _ in 2..n {
                    // the later parents: the first one again, the second one again, or another
                    steps.push((x % KINDS, x / KINDS % ps.len()));
                    x /= rest;
                }
                for (k, q) in &steps {
                    set_parents(&mut slot, ps[*q]);
                    derive(&slot, &ps[*q], *k).map_err(|m| format!("{m}, after the sequence {steps:?} in one place"))?;
                }
                c.evals += n as u64;
                h = h.wrapping_mul(31) ^ steps[1].1 as u64;
                if n == 3 && tail + 1 == KINDS * ps.len().min(if first.1 < 3 { 3 } else { 1 }) {
                    break;
                }
            }
            Ok(h ^ (first.0 as u64) << 40 ^ (first.1 as u64) << 30 ^ (second.0 as u64) << 20)
        }),
        unit("exact", 0, u64::MAX, |c| {
            let ps = parents();
            let p = ps[c.free(ps.len())];
            let all = all_indices();
            let k = c.free(all.len().div_ceil(64));
            let d = derivations(p, &all[k * 64..all.len().min(k * 64 + 64)]);
            c.evals += d.len() as u64;
            let mut h = 0;
            for (n, got, want) in &d {
                same(&format!("{n} of {}", hexs(&p)), *got, *want)?;
                h ^= hash_bytes(got);
            }
            c.sample(|| format!("{} derivations of {}: {} = {}", d.len(), hexs(&p), d[0].0, hexs(&d[0].1)));
            Ok(h)
        }),
        // all derivations together: no two are equal
        unit("distinct", 0, u64::MAX, |c| {
            let ps = parents();
            let mut seen: HashMap<[u8; 32], String> = HashMap::new();
            let part = c.free(4);
            let mut idx: Vec<usize> = match part {
                0 => (0..300).collect(),
                1 => (0..usize::BITS).map(|i| 1usize << i).collect(),
                2 => INDICES.to_vec(),
                _ => (0..40).map(|i| i * 256).collect(),
            };
            idx.sort();
            idx.dedup(); // where words are short
            for p in ps {
                for (n, got, _) in derivations(p, &idx) {
                    c.evals += 1;
                    let name = format!("{n} of {}", hexs(&p));
                    if let Some(o) = seen.insert(got, name.clone()) {
                        // the two fixed-index derivations are those of their index
                        return bad(format!("{o} and {name} are the same id {}", hexs(&got)));
                    }
                }
            }
            Ok(seen.len() as u64 ^ (part as u64) << 32)
        }),
    ]
}

// ---------------------------------------------------------------------- C15

/// A chain state per network and height; deviations choose them.
pub fn gen_cs(c: &mut Ctx) -> ChainState {
    let k = c.choose(FORKS.len());
    let hs = fork_heights(k);
    let i = c.choose(hs.len());
    chain_state(fork_network(k), hs[i])
}
fn free_cs(c: &mut Ctx) -> ChainState {
    let k = c.free(FORKS.len());
    let hs = fork_heights(k);
    let i = c.free(hs.len());
    chain_state(fork_network(k), hs[i])
}
fn cs_prefix(cs: &ChainState) -> Vec<u8> {
    ref_replay_prefix(&cs.network, cs.state.index.height)
}
pub fn ref_whole(t: &v1::Transaction, pre: &[u8], parent: &[u8; 32], key: u64, lock: u64) -> [u8; 32] {
    let mut o = vec![];
    (t.siacoin_inputs.len() as u64).e1(&mut o);
    for i in &t.siacoin_inputs {
        o.extend_from_slice(pre);
        i.e1(&mut o);
    }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    (t.siafund_inputs.len() as u64).e1(&mut o);
    for i in &t.siafund_inputs {
        o.extend_from_slice(pre);
        i.e1(&mut o);
    }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.extend_from_slice(parent);
    key.e1(&mut o);
    lock.e1(&mut o);
    blake(&[&o])
}
pub fn ref_partial(t: &v1::Transaction, pre: &[u8], cf: &CoveredFields) -> Option<[u8; 32]> {
    let mut o = vec![];
    macro_rules! part {
        ($f:ident, $p:expr) => {
            for &i in &cf.$f {
                let x = t.$f.get(i)?;
                o.extend_from_slice($p);
                x.e1(&mut o);
            }
        };
    }
    part!(siacoin_inputs, pre);
    part!(siacoin_outputs, &[]);
    part!(file_contracts, &[]);
    part!(file_contract_revisions, &[]);
    part!(storage_proofs, &[]);
    part!(siafund_inputs, pre);
    part!(siafund_outputs, &[]);
    part!(miner_fees, &[]);
    part!(arbitrary_data, &[]);
    part!(signatures, &[]);
    Some(blake(&[&o]))
}
fn check_partial(t: &v1::Transaction, cs: &ChainState, cf: &CoveredFields) -> Result<u64, String> {
    let want = ref_partial(t, &cs_prefix(cs), cf);
    let got = guarded(|| t.partial_sig_hash(cs, cf).ok()).map_err(|p| format!("partial_sig_hash panics: {p}: {}", dbg(cf)))?;
    match (want, got) {
        (None, None) => Ok(1),
        (Some(w), Some(g)) => {
            same("the partial signature hash", h32(&g), w).map_err(|m| format!("{m} at height {}: {} of {}", cs.state.index.height, dbg(cf), dbg(t)))?;
            Ok(hash_bytes(&w))
        }
        (None, Some(_)) => bad(format!("an index that does not exist is accepted: {}", dbg(cf))),
        (Some(_), None) => bad(format!("existing elements are refused: {}", dbg(cf))),
    }
}
/// The first and the last state of the fork network.
fn two_states() -> &'static [ChainState; 2] {
    static S: std::sync::OnceLock<[ChainState; 2]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let hs = fork_heights(0);
        [chain_state(fork_network(0), hs[0]), chain_state(fork_network(0), *hs.last().unwrap())]
    })
}
fn v1_whole<const K: usize>(t: &V1) -> Result<u64, String> {
    let cs = &two_states()[K];
    let want = ref_whole(t, &cs_prefix(cs), &[7; 32], 1, 2);
    let g = t.whole_sig_hash(cs, &Hash256::new([7; 32]), 1, 2).map_err(|e| format!("{e:?}"))?;
    same("the whole signature hash", h32(&g), want).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(t)))?;
    Ok(hash_bytes(&want))
}
fn v2_hash<T: std::fmt::Debug>(t: &T, what: &str, tag: &[u8], cs: &ChainState, body: &[u8], got: Hash256) -> Result<u64, String> {
    let want = blake(&[tag, &cs_prefix(cs), body]);
    same(what, h32(&got), want).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(t)))?;
    Ok(hash_bytes(&want))
}
fn v2_input_hash<const K: usize>(t: &v2::Transaction) -> Result<u64, String> {
    let cs = &two_states()[K];
    v2_hash(t, "the input signature hash", b"sia/sig/input|", cs, &sem_txn(t), t.input_sig_hash(cs))
}
fn v2_attestation_hash<const K: usize>(a: &v2::Attestation) -> Result<u64, String> {
    let cs = &two_states()[K];
    let mut o = vec![];
    sem_attestation(a, &mut o);
    v2_hash(a, "the attestation's signature hash", b"sia/sig/attestation|", cs, &o, a.sig_hash(cs))
}
fn v2_contract_hash<const K: usize>(f: &v2::FileContract) -> Result<u64, String> {
    let cs = &two_states()[K];
    let mut o = vec![];
    sem_fc(f, &mut o);
    v2_hash(f, "the contract's signature hash", b"sia/sig/filecontract|", cs, &o, f.sig_hash(cs))
}
fn v2_renewal_hash<const K: usize>(f: &v2::FileContractRenewal) -> Result<u64, String> {
    let cs = &two_states()[K];
    let mut o = vec![];
    sem_renewal(f, &mut o);
    v2_hash(f, "the renewal's signature hash", b"sia/sig/filecontractrenewal|", cs, &o, f.sig_hash(cs))
}
const C15_OPS: [Op<V1>; 5] = [
    ("whole_sig_hash", v1_whole::<0>),
    ("whole_sig_hash later", v1_whole::<1>),
    ("partial_sig_hash of everything", |t| {
        let all = |n: usize| (0..n).collect::<Vec<usize>>();
        let cf = CoveredFields {
            whole_transaction: false,
            siacoin_inputs: all(t.siacoin_inputs.len()),
            siacoin_outputs: all(t.siacoin_outputs.len()),
            file_contracts: all(t.file_contracts.len()),
            file_contract_revisions: all(t.file_contract_revisions.len()),
            storage_proofs: all(t.storage_proofs.len()),
            siafund_inputs: all(t.siafund_inputs.len()),
            siafund_outputs: all(t.siafund_outputs.len()),
            miner_fees: all(t.miner_fees.len()),
            arbitrary_data: all(t.arbitrary_data.len()),
            signatures: all(t.signatures.len()),
        };
        check_partial(t, &two_states()[1], &cf)
    }),
    ("partial_sig_hash of the first of each", |t| {
        let cf = CoveredFields {
            whole_transaction: false,
            siacoin_inputs: vec![0],
            siacoin_outputs: vec![0],
            signatures: vec![0],
            arbitrary_data: vec![0],
            ..Default::default()
        };
        check_partial(t, &two_states()[0], &cf)
    }),
    ("id", C12_OPS[0].1),
];
const C13_OPS: [Op<v2::Transaction>; 3] = [
    ("id", |t| {
        let want = blake(&[&sem_txn(t)]);
        same("the transaction id", h32(&t.id()), want).map_err(|m| format!("{m}: {}", dbg(t)))?;
        Ok(hash_bytes(&want))
    }),
    ("input_sig_hash", v2_input_hash::<1>),
    ("encode", |t| {
        let mut want = vec![];
        t.e2(&mut want);
        let mut e = vec![];
        t.encode(&mut e).map_err(|x| format!("encoding fails: {x:?}"))?;
        if e != want {
            return bad(format!("the encoding is {}, expected {}: {}", short(&e), short(&want), dbg(t)));
        }
        Ok(hash_bytes(&e))
    }),
];
/// A transaction with `n` different elements in each list.
fn full_v1(n: usize) -> v1::Transaction {
    let mut k = Ctx::new(&[], false);
    k.mode = 2;
    let k = &mut k;
    fn many<T: G>(k: &mut Ctx, n: usize) -> Vec<T> {
        (0..n).map(|_| T::g(k)).collect()
    }
    v1::Transaction {
        siacoin_inputs: many(k, n),
        siacoin_outputs: many(k, n),
        file_contracts: many(k, n),
        file_contract_revisions: many(k, n),
        storage_proofs: many(k, n),
        siafund_inputs: many(k, n),
        siafund_outputs: many(k, n),
        miner_fees: many(k, n),
        arbitrary_data: (0..n).map(|i| vec![i as u8 + 1; i + 1]).collect(),
        signatures: many(k, n),
    }
}
pub fn c15() -> Vec<Unit> {
    let long = v1_cases();
    vec![
        unit("long", 0, u64::MAX, move |c| {
            let t = long_choice(c, v1::Transaction::g, &long);
            let hs = fork_heights(0);
            let cs = chain_state(fork_network(0), hs[c.free(hs.len())]);
            let want = ref_whole(&t, &cs_prefix(&cs), &[7; 32], 1, 2);
            let g = t.whole_sig_hash(&cs, &Hash256::new([7; 32]), 1, 2).map_err(|e| format!("{e:?}"))?;
            same("the whole signature hash", h32(&g), want).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&t)))?;
            // everything, and each list's last element alone and after its first
            for how in 0..3 {
                let idx = |n: usize| -> Vec<usize> {
                    match (how, n) {
                        (_, 0) => vec![],
                        (0, _) => (0..n).rev().collect(),
                        (1, _) => vec![n - 1],
                        _ => vec![0, n - 1, n / 2],
                    }
                };
                let cf = CoveredFields {
                    whole_transaction: false,
                    siacoin_inputs: idx(t.siacoin_inputs.len()),
                    siacoin_outputs: idx(t.siacoin_outputs.len()),
                    file_contracts: idx(t.file_contracts.len()),
                    file_contract_revisions: idx(t.file_contract_revisions.len()),
                    storage_proofs: idx(t.storage_proofs.len()),
                    siafund_inputs: idx(t.siafund_inputs.len()),
                    siafund_outputs: idx(t.siafund_outputs.len()),
                    miner_fees: idx(t.miner_fees.len()),
                    arbitrary_data: idx(t.arbitrary_data.len()),
                    signatures: idx(t.signatures.len()),
                };
                check_partial(&t, &cs, &cf)?;
            }
            // one index beyond each list
            macro_rules! beyond {
                ($($f:ident)*) => { $( {
                    let mut cf = CoveredFields::default();
                    cf.$f = vec![t.$f.len()];
                    check_partial(&t, &cs, &cf)?;
                } )* };
            }
            beyond!(siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures);
            Ok(hash_bytes(&want))
        }),
        unit("whole", 3, b(300_000 * 8), |c| {
            c.base();
            let cs = gen_cs(c);
            let mut t = v1::Transaction::g(c);
            let parent: [u8; 32] = gen_bytes(c);
            let (ki, tl) = (u64::g(c), u64::g(c));
            let want = ref_whole(&t, &cs_prefix(&cs), &parent, ki, tl);
            let tell = |m: String, t: &v1::Transaction| format!("{m} at height {} (key {ki}, timelock {tl}): {}", cs.state.index.height, dbg(t));
            macro_rules! with {
                ($t:ty) => {{
                    let g = t.whole_sig_hash(&cs, &<$t>::new(parent), ki, tl).map_err(|e| format!("{e:?}"))?;
                    same("the whole signature hash", h32(&g), want).map_err(|m| tell(m, &t))?;
                }};
            }
            with!(Hash256);
            with!(SiacoinOutputID);
            with!(SiafundOutputID);
            with!(FileContractID);
            c.sample(|| format!("height {}: {}", cs.state.index.height, dbg(&t)));
            t.signatures = vec![];
            with!(Hash256);
            Ok(hash_bytes(&want))
        }),
        unit("in place", 2, b(400_000), |c| {
            in_place(c, V1::g, &V1_PUTS, &C15_OPS)
        }),
        // the chain advances in place
        unit("in place/heights", 0, u64::MAX, |c| {
            c.base();
            let t = V1::g(c);
            let mut cs = Box::new(free_cs(c));
            let other = free_cs(c);
            let check = |cs: &ChainState| -> Result<u64, String> {
                let want = ref_whole(&t, &cs_prefix(cs), &[7; 32], 1, 2);
                let g = t.whole_sig_hash(cs, &Hash256::new([7; 32]), 1, 2).map_err(|e| format!("{e:?}"))?;
                same("the whole signature hash", h32(&g), want).map_err(|m| format!("{m} at height {}", cs.state.index.height))?;
                let mut cf = CoveredFields::default();
                cf.siacoin_inputs = (0..t.siacoin_inputs.len()).collect();
                Ok(hash_bytes(&want) ^ check_partial(&t, cs, &cf)?)
            };
            let a = check(&cs)?;
            *cs = other;
            c.evals += 2;
            Ok(a.rotate_left(5) ^ check(&cs).map_err(|m| format!("after another chain state in the same place: {m}"))?)
        }),
        unit("whole/heights", 0, u64::MAX, |c| {
            c.base();
            let cs = free_cs(c);
            let t = v1::Transaction::g(c);
            let want = ref_whole(&t, &cs_prefix(&cs), &[7; 32], 1, 2);
            let g = t.whole_sig_hash(&cs, &Hash256::new([7; 32]), 1, 2).map_err(|e| format!("{e:?}"))?;
            same("the whole signature hash", h32(&g), want).map_err(|m| format!("{m} at height {} with forks {:?}", cs.state.index.height, (cs.network.hardfork_asic.height, cs.network.hardfork_foundation.height, cs.network.hardfork_v2.allow_height)))?;
            Ok(hash_bytes(&want))
        }),
        unit("partial", 3, b(5_000_000), |c| {
            let cs = gen_cs(c);
            let t = full_v1(3);
            let mut cf = CoveredFields::default();
            if c.free(2) == 1 {
                cf.whole_transaction = true;
            }
            const LISTS: [&[usize]; 16] = [
                &[],
                &[0],
                &[1],
                &[2],
                &[0, 1],
                &[1, 0],
                &[2, 0, 1],
                &[0, 0],
                &[0, 1, 2],
                &[0, 1, 2, 1],
                &[3],
                &[0, 3],
                &[3, 0],
                &[usize::MAX],
                &[(1u64 << 32) as usize],
                &[2, 1, 4],
            ];
            // three starting points: nothing, one of each, everything backwards
            let d = c.free(3);
            let mut pickl = |c: &mut Ctx| -> Vec<usize> {
                let base: usize = [0, 1, 6][d];
                let k = c.choose(LISTS.len());
                LISTS[(base + k) % LISTS.len()].to_vec()
            };
            cf.siacoin_inputs = pickl(c);
            cf.siacoin_outputs = pickl(c);
            cf.file_contracts = pickl(c);
            cf.file_contract_revisions = pickl(c);
            cf.storage_proofs = pickl(c);
            cf.siafund_inputs = pickl(c);
            cf.siafund_outputs = pickl(c);
            cf.miner_fees = pickl(c);
            cf.arbitrary_data = pickl(c);
            cf.signatures = pickl(c);
            c.sample(|| format!("height {}: {}", cs.state.index.height, dbg(&cf)));
            Ok(check_partial(&t, &cs, &cf)? ^ hash_bytes(dbg(&cf).as_bytes()))
        }),
        unit("partial/lengths", 2, b(2_000_000), |c| {
            // lists of every length against covered indices around the end
            let cs = free_cs(c);
            let n = c.free(5);
            let t = full_v1(n);
            let field = c.free(10);
            let idx: Vec<usize> = (0..c.free(4)).map(|_| *c.pick(&[0usize, 1, 2, 3, 4, 5, 256, usize::MAX - 1, usize::MAX])).collect();
            let mut cf = CoveredFields::default();
            *[
                &mut cf.siacoin_inputs,
                &mut cf.siacoin_outputs,
                &mut cf.file_contracts,
                &mut cf.file_contract_revisions,
                &mut cf.storage_proofs,
                &mut cf.siafund_inputs,
                &mut cf.siafund_outputs,
                &mut cf.miner_fees,
                &mut cf.arbitrary_data,
                &mut cf.signatures,
            ][field] = idx;
            check_partial(&t, &cs, &cf)
        }),
        unit("partial/transactions", 2, b(150_000 * 8), |c| {
            c.base();
            let cs = gen_cs(c);
            let t = v1::Transaction::g(c);
            let mut cf = CoveredFields::default();
            let rev = c.free(2) == 1;
            let all = |n: usize| -> Vec<usize> {
                let mut v: Vec<usize> = (0..n).collect();
                if rev {
                    v.reverse();
                }
                v
            };
            cf.siacoin_inputs = all(t.siacoin_inputs.len());
            cf.siacoin_outputs = all(t.siacoin_outputs.len());
            cf.file_contracts = all(t.file_contracts.len());
            cf.file_contract_revisions = all(t.file_contract_revisions.len());
            cf.storage_proofs = all(t.storage_proofs.len());
            cf.siafund_inputs = all(t.siafund_inputs.len());
            cf.siafund_outputs = all(t.siafund_outputs.len());
            cf.miner_fees = all(t.miner_fees.len());
            cf.arbitrary_data = all(t.arbitrary_data.len());
            cf.signatures = all(t.signatures.len());
            check_partial(&t, &cs, &cf)
        }),
    ]
}

// ---------------------------------------------------------------------- C16

pub fn c16() -> Vec<Unit> {
    let long = v2_cases();
    let long_input = unit("long/input", 0, u64::MAX, move |c| {
        let t = long_choice(c, v2::Transaction::g, &long);
        let hs = fork_heights(0);
        let cs = chain_state(fork_network(0), hs[c.free(hs.len())]);
        let mut o = b"sia/sig/input|".to_vec();
        o.extend(cs_prefix(&cs));
        o.extend(sem_txn(&t));
        same("the input signature hash", h32(&t.input_sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&t)))?;
        Ok(hash_bytes(&o))
    });
    let size = |a: &v2::Attestation| a.key.len() + a.value.len() + 100;
    let la = long_cases(v2::Attestation::g, size, 2 << 20);
    let long_att = unit("long/attestation", 0, u64::MAX, move |c| {
        let a = long_choice(c, v2::Attestation::g, &la);
        let hs = fork_heights(0);
        let cs = chain_state(fork_network(0), hs[c.free(hs.len())]);
        let mut o = b"sia/sig/attestation|".to_vec();
        o.extend(cs_prefix(&cs));
        sem_attestation(&a, &mut o);
        same("the attestation's signature hash", h32(&a.sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&a)))?;
        Ok(hash_bytes(&o))
    });
    fn cs_of(c: &mut Ctx, all: bool) -> ChainState {
        if all {
            free_cs(c)
        } else {
            gen_cs(c)
        }
    }
    let mut v = vec![long_input, long_att];
    v.push(unit("in place/input", 2, b(100_000), |c| {
        let ops: [Op<v2::Transaction>; 2] = [("input_sig_hash", v2_input_hash::<0>), ("input_sig_hash later", v2_input_hash::<1>)];
        in_place(c, v2::Transaction::g, &V2_PUTS, &ops)
    }));
    v.push(unit("in place/attestation", 2, b(50_000), |c| {
        let ops: [Op<v2::Attestation>; 2] = [("sig_hash", v2_attestation_hash::<0>), ("sig_hash later", v2_attestation_hash::<1>)];
        in_place(c, v2::Attestation::g, &[replace], &ops)
    }));
    v.push(unit("in place/contract", 2, b(600_000), |c| {
        let ops: [Op<v2::FileContract>; 2] = [("sig_hash", v2_contract_hash::<0>), ("sig_hash later", v2_contract_hash::<1>)];
        in_place(c, v2::FileContract::g, &[replace], &ops)
    }));
    v.push(unit("in place/renewal", 2, b(50_000), |c| {
        let ops: [Op<v2::FileContractRenewal>; 2] = [("sig_hash", v2_renewal_hash::<0>), ("sig_hash later", v2_renewal_hash::<1>)];
        in_place(c, v2::FileContractRenewal::g, &[replace], &ops)
    }));
    for all in [false, true] {
        let (d, n) = if all { (0, u64::MAX) } else { (4, b(5_000_000)) };
        let tag = if all { "/heights" } else { "" };
        v.push(unit(format!("attestation{tag}"), d, n, move |c| {
            c.base();
            let cs = cs_of(c, all);
            let mut a = v2::Attestation::g(c);
            let mut o = b"sia/sig/attestation|".to_vec();
            o.extend(cs_prefix(&cs));
            sem_attestation(&a, &mut o);
            same("the attestation's signature hash", h32(&a.sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&a)))?;
            c.sample(|| dbg(&a));
            a.signature = sia::signing::Signature::new([0x42; 64]);
            same("the hash under another signature", h32(&a.sig_hash(&cs)), blake(&[&o]))?;
            Ok(hash_bytes(&o))
        }));
        v.push(unit(format!("contract{tag}"), d, n, move |c| {
            c.base();
            let cs = cs_of(c, all);
            let mut f = v2::FileContract::g(c);
            let mut o = b"sia/sig/filecontract|".to_vec();
            o.extend(cs_prefix(&cs));
            sem_fc(&f, &mut o);
            same("the contract's signature hash", h32(&f.sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&f)))?;
            c.sample(|| dbg(&f));
            f.renter_signature = sia::signing::Signature::new([0x42; 64]);
            same("the hash under another renter signature", h32(&f.sig_hash(&cs)), blake(&[&o]))?;
            f.host_signature = sia::signing::Signature::new([0x43; 64]);
            same("the hash under another host signature", h32(&f.sig_hash(&cs)), blake(&[&o]))?;
            Ok(hash_bytes(&o))
        }));
        v.push(unit(format!("renewal{tag}"), d, n, move |c| {
            c.base();
            let cs = cs_of(c, all);
            let mut f = v2::FileContractRenewal::g(c);
            let mut o = b"sia/sig/filecontractrenewal|".to_vec();
            o.extend(cs_prefix(&cs));
            sem_renewal(&f, &mut o);
            same("the renewal's signature hash", h32(&f.sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&f)))?;
            c.sample(|| dbg(&f));
            for k in 0..6 {
                let s = sia::signing::Signature::new([0x42 + k; 64]);
                match k {
                    0 => f.renter_signature = s,
                    1 => f.host_signature = s,
                    2 => f.final_revision.renter_signature = s,
                    3 => f.final_revision.host_signature = s,
                    4 => f.new_contract.renter_signature = s,
                    _ => f.new_contract.host_signature = s,
                }
                same("the hash under other signatures", h32(&f.sig_hash(&cs)), blake(&[&o]))?;
            }
            Ok(hash_bytes(&o))
        }));
        let n = if all { n } else { b(300_000 * 8) };
        v.push(unit(format!("input{tag}"), d, n, move |c| {
            c.base();
            let cs = cs_of(c, all);
            let mut t = v2::Transaction::g(c);
            let mut o = b"sia/sig/input|".to_vec();
            o.extend(cs_prefix(&cs));
            o.extend(sem_txn(&t));
            same("the input signature hash", h32(&t.input_sig_hash(&cs)), blake(&[&o])).map_err(|m| format!("{m} at height {}: {}", cs.state.index.height, dbg(&t)))?;
            c.sample(|| dbg(&t));
            change_witnesses(&mut t, 1);
            same("the input signature hash under other witnesses", h32(&t.input_sig_hash(&cs)), blake(&[&o]))?;
            Ok(hash_bytes(&o))
        }));
    }
    v
}

/// Operations on fixed values, for histories of unlike operations.
#[cfg(feature = "pure")]
pub fn steps(o: &mut Vec<Step>) {
    two_states();
    let v1s: [(&str, fn() -> V1); 5] = [
        ("A", || base(1)),
        ("A signed otherwise", || {
            let mut t: V1 = base(1);
            t.signatures[0].signature.push(9);
            t
        }),
        ("A paying otherwise", || {
            let mut t: V1 = base(1);
            t.siacoin_outputs[0].value = Currency::new(12345);
            t
        }),
        ("A with another note", || {
            let mut t: V1 = base(1);
            t.arbitrary_data[0].push(0);
            t
        }),
        ("B", || base(2)),
    ];
    for (name, t) in v1s {
        for op in C12_OPS.iter().chain(&C15_OPS[..4]) {
            step(o, format!("{} of v1 transaction {name}", op.0), t, op.1);
        }
    }
    let v2s: [(&str, fn() -> v2::Transaction); 4] = [
        ("A", || base(1)),
        ("A with other witnesses", || {
            let mut t = base(1);
            change_witnesses(&mut t, 1);
            t
        }),
        ("A paying otherwise", || {
            let mut t: v2::Transaction = base(1);
            t.siacoin_outputs[0].value = Currency::new(12345);
            t
        }),
        ("B", || base(2)),
    ];
    for (name, t) in v2s {
        for op in C13_OPS.iter().chain(&[("input_sig_hash early", v2_input_hash::<0> as fn(&v2::Transaction) -> Result<u64, String>)]) {
            step(o, format!("{} of v2 transaction {name}", op.0), t, op.1);
        }
    }
    for m in [1, 2] {
        step(o, format!("sig_hash of attestation {m}"), move || base(m), v2_attestation_hash::<0>);
        step(o, format!("later sig_hash of attestation {m}"), move || base(m), v2_attestation_hash::<1>);
        step(o, format!("sig_hash of contract {m}"), move || base(m), v2_contract_hash::<0>);
        step(o, format!("later sig_hash of contract {m}"), move || base(m), v2_contract_hash::<1>);
        step(o, format!("sig_hash of renewal {m}"), move || base(m), v2_renewal_hash::<0>);
        step(o, format!("later sig_hash of renewal {m}"), move || base(m), v2_renewal_hash::<1>);
    }
    for raw in [[1u8; 32], [2; 32]] {
        for k in [0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 14, 16, 18] {
            o.push(Step {
                name: format!("derivation {k} of {}", raw[0]),
                run: Box::new(move |pl| {
                    let p = Parents { b: BlockID::new(raw), sf: SiafundOutputID::new(raw), t: TransactionID::new(raw), f: FileContractID::new(raw) };
                    pl.with(p, |p| derive(p, &raw, k).map(|_| k as u64))
                }),
            });
        }
    }
}
pub const PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        level: MC,
        profiles: C,
        units: c12,
        rule: "every transaction with at most `deviation_bound` deviations from three base values: real ids against BLAKE2b of the reference encoding without signatures; ids before and after replacing the signatures; all output indices up to a bound and 64-bit boundary indices, pairwise distinct",
        assumptions: &[],
    },
    Prop {
        id: "C13",
        level: MC,
        profiles: C,
        units: c13,
        rule: "every v2 transaction within the deviation bound against BLAKE2b of the reference semantic encoding; each witness mutation keeps the id, each effect mutation changes it",
        assumptions: &[],
    },
    Prop {
        id: "C14",
        level: MC,
        profiles: C,
        units: c14,
        rule: "every derivation kind x parent byte pattern x boundary index x validity against BLAKE2b of the protocol's distinguishers; all derived ids pairwise distinct",
        assumptions: &[],
    },
    Prop {
        id: "C15",
        level: MC,
        profiles: C,
        units: c15,
        rule: "every v1 transaction and covered-field selection within the deviation bound x every height around the forks, against the reference hash; out-of-range indices of each kind",
        assumptions: &[],
    },
    Prop {
        id: "C16",
        level: MC,
        profiles: C,
        units: c16,
        rule: "every signable v2 object within the deviation bound x every height around the forks, against the reference hash; signature and witness mutations keep the hash; kinds are pairwise distinct",
        assumptions: &[],
    },
];
