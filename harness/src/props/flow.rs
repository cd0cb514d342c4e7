//! C33: signed transactions, from keys to a spend, through every representation and after every tampering.
use super::ids::{ref_partial, ref_whole};
use super::*;
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use sia::consensus::ChainState;
use sia::encoding::{SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types::v1::{CoveredFields, TransactionSignature, UnlockConditions, UnlockKey};
use sia::types::v2::{ContractResolution, SatisfiedPolicy, SpendPolicy};
use sia::types::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::Read;

type Sig = ([u8; 32], [u8; 32], [u8; 64]);
/// What a wallet remembers of a transaction: who owns what it spends, and what was signed.
#[derive(Default)]
struct Book {
    owners: HashMap<[u8; 32], [u8; 32]>,
    signed: HashSet<Sig>,
    outputs: Vec<[u8; 32]>,
    /// signatures that verified before, if they need not be verified for every change of other parts
    seen: Option<RefCell<HashSet<Sig>>>,
}
fn wallet(i: u64) -> PrivateKey {
    Seed::new([7; 16]).private_key(i)
}
fn public(k: &PrivateKey) -> [u8; 32] {
    k.public_key().as_ref().try_into().unwrap()
}
fn h32<T: AsRef<[u8; 32]>>(t: &T) -> [u8; 32] {
    *t.as_ref()
}
fn expect(what: String, got: [u8; 32], want: [u8; 32]) -> Result<(), String> {
    if got != want {
        return bad(format!("{what} is {}, expected {}", hexs(&got), hexs(&want)));
    }
    Ok(())
}
/// Points of small order are nobody's public keys; trivial signatures verify under them.
fn small_order(k: &[u8; 32]) -> bool {
    const ORDER_8: [&str; 2] = ["26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"];
    let mut y = *k;
    y[31] &= 0x7f;
    // 0, 1, p - 1, p and p + 1
    let near = (y[0] <= 1 && y[1..] == [0; 31]) || ((0xec..=0xee).contains(&y[0]) && y[1..31] == [0xff; 30] && y[31] == 0x7f);
    near || ORDER_8.contains(&hexs(&y).as_str())
}
/// A claim that `key` signed `hash`: true exactly if it did.
fn claim(b: &Book, what: &str, key: &[u8], hash: [u8; 32], sig: &[u8]) -> Result<bool, String> {
    let (Ok(k), Ok(s)) = (<[u8; 32]>::try_from(key), <[u8; 64]>::try_from(sig)) else {
        return Ok(false);
    };
    if small_order(&k) {
        return Ok(false);
    }
    if b.seen.as_ref().is_some_and(|x| x.borrow().contains(&(k, hash, s))) {
        return Ok(true);
    }
    let got = guarded(|| PublicKey::new(k).verify(&Hash256::new(hash), &Signature::new(s))).map_err(|p| format!("{what}: verifying panics: {p}"))?;
    let want = b.signed.contains(&(k, hash, s));
    if let (Some(seen), true) = (&b.seen, got) {
        seen.borrow_mut().insert((k, hash, s));
    }
    if got != want {
        return bad(format!("{what}: the signature {} of {} by {} {}", hexs(&s), hexs(&hash), hexs(&k), if got { "verifies although it was never made" } else { "does not verify" }));
    }
    Ok(got)
}
trait Flow: PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static {
    /// `long`: a list and the length to which it is extended.
    fn make(variant: usize, cs: &ChainState, long: (usize, usize)) -> (Self, Book);
    const LISTS: usize;
    /// Everything a validator asks of it, each answer against the reference; the number of good claims.
    fn judge(&self, cs: &ChainState, b: &Book) -> Result<usize, String>;
    fn enc(&self) -> Result<Vec<u8>, String>;
    fn dec(b: &mut dyn Read) -> Result<Self, String>;
    fn renc(&self) -> Vec<u8>;
    /// A copy made by the reference codec.
    fn copy(&self) -> Self;
    fn wrapped(&self, how: usize) -> Result<Self, String>;
}
const VARIANTS: usize = 6;
fn extend<X>(v: &mut Vec<X>, n: usize, mut f: impl FnMut(usize) -> X) {
    while v.len() < n {
        v.push(f(v.len()));
    }
}
fn nth(i: usize) -> [u8; 32] {
    blake(&[b"entry", &(i as u64).to_le_bytes()])
}
fn nth_hash(i: usize) -> Hash256 {
    Hash256::new(nth(i))
}
struct Drip<'a>(&'a [u8]);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.read(&mut b[..n])
    }
}
const OPS: [&str; 8] = ["binary", "binary, in small pieces", "JSON text", "indented JSON text", "a JSON document", "CBOR", "inside other data, binary", "inside other data, JSON"];
fn convert<T: Flow>(t: &T, op: usize) -> Result<T, String> {
    let e = |x: String| format!("through {}: {x}", OPS[op]);
    match op {
        0 => {
            let b = t.enc()?;
            T::dec(&mut &b[..]).map_err(e)
        }
        1 => {
            let b = t.enc()?;
            T::dec(&mut Drip(&b)).map_err(e)
        }
        2 => serde_json::to_string(t).and_then(|s| serde_json::from_str(&s)).map_err(|x| e(x.to_string())),
        3 => serde_json::to_vec_pretty(t).and_then(|s| serde_json::from_reader(&s[..])).map_err(|x| e(x.to_string())),
        4 => serde_json::to_value(t).and_then(serde_json::from_value).map_err(|x| e(x.to_string())),
        5 => {
            let mut o = vec![];
            ciborium::into_writer(t, &mut o).map_err(|x| e(x.to_string()))?;
            ciborium::from_reader(&o[..]).map_err(|x| e(x.to_string()))
        }
        6 => t.wrapped(0).map_err(e),
        _ => t.wrapped(1).map_err(e),
    }
}

// ---------------------------------------------------------------------- v1

fn uc_of(keys: &[&PrivateKey], required: u64, timelock: u64) -> UnlockConditions {
    if let (&[k], 1, 0) = (keys, required, timelock) {
        return UnlockConditions::standard_unlock_conditions(k.public_key());
    }
    UnlockConditions { timelock, public_keys: keys.iter().map(|k| UnlockKey::from(k.public_key())).collect(), signatures_required: required }
}
fn cs_prefix(cs: &ChainState) -> Vec<u8> {
    ref_replay_prefix(&cs.network, cs.state.index.height)
}
fn v1_hash(t: &v1::Transaction, cs: &ChainState, s: &TransactionSignature) -> Result<Option<[u8; 32]>, String> {
    let (got, want) = if s.covered_fields.whole_transaction {
        (
            guarded(|| t.whole_sig_hash(cs, &s.parent_id, s.public_key_index, s.timelock)).map(|r| r.ok().map(|h| h32(&h))),
            Some(ref_whole(t, &cs_prefix(cs), s.parent_id.as_ref(), s.public_key_index, s.timelock)),
        )
    } else {
        (guarded(|| t.partial_sig_hash(cs, &s.covered_fields)).map(|r| r.ok().map(|h| h32(&h))), ref_partial(t, &cs_prefix(cs), &s.covered_fields))
    };
    let got = got.map_err(|p| format!("the hash signed by {} panics: {p}", dbg(s)))?;
    if got != want {
        return bad(format!("the hash signed by {} is {:?}, expected {:?}", dbg(s), got.map(|h| hexs(&h)), want.map(|h| hexs(&h))));
    }
    Ok(got)
}
impl Flow for v1::Transaction {
    const LISTS: usize = 13;
    fn make(variant: usize, cs: &ChainState, long: (usize, usize)) -> (Self, Book) {
        let keys: Vec<PrivateKey> = (0..5).map(wallet).collect();
        let mut b = Book::default();
        // the outputs of an earlier transaction are spent
        let mut earlier: v1::Transaction = base(1);
        let owners = [uc_of(&[&keys[0]], 1, 0), uc_of(&[&keys[1], &keys[2], &keys[3]], 2, 4), uc_of(&[&keys[4]], 1, 1)];
        earlier.siacoin_outputs = owners.iter().enumerate().map(|(i, u)| SiacoinOutput { value: Currency::new(1000 + i as u128), address: u.address() }).collect();
        let parent = |i: usize| earlier.siacoin_output_id(i);
        let mut t: v1::Transaction = base(if variant % 2 == 0 { 1 } else { 2 });
        t.siacoin_inputs = (0..2).map(|i| v1::SiacoinInput { parent_id: parent(i), unlock_conditions: owners[i].clone() }).collect();
        t.siafund_inputs = vec![v1::SiafundInput { parent_id: earlier.siafund_output_id(0), unlock_conditions: owners[2].clone(), claim_address: Address::new([9; 32]) }];
        t.signatures = vec![];
        if variant >= 4 {
            // unusual, but meaningful
            let u = &mut t.siacoin_inputs[1].unlock_conditions;
            u.public_keys[1] = UnlockKey { algorithm: sia::types::Specifier::from(["Entropy", "ED25519"][variant % 2]), key: [vec![1, 2], vec![]][variant % 2].clone() };
            u.signatures_required = 9;
            t.miner_fees = vec![Currency::new(0), Currency::new(5), Currency::new(0)];
            t.arbitrary_data = vec![vec![], b"x".to_vec(), vec![]];
            t.siacoin_outputs.push(SiacoinOutput { value: Currency::new(0), address: Address::new([0; 32]) });
            t.siacoin_outputs.push(SiacoinOutput { value: Currency::new(u128::MAX), address: Address::new([0; 32]) });
        }
        let (list, n) = long;
        let output = |i: usize| SiacoinOutput { value: Currency::new(i as u128), address: Address::new([i as u8; 32]) };
        match list {
            _ if n == 0 => {}
            0 => extend(&mut t.siacoin_outputs, n, output),
            1 => extend(&mut t.file_contracts, n, |i| v1::FileContract { file_size: i as u64, ..base(1) }),
            2 => extend(&mut t.file_contract_revisions, n, |i| v1::FileContractRevision { file_size: i as u64, ..base(1) }),
            3 => extend(&mut t.storage_proofs, n, |i| v1::StorageProof { proof: (0..i % 3).map(nth_hash).collect(), ..base(1) }),
            4 => extend(&mut t.siafund_outputs, n, |i| SiafundOutput { value: i as u64, address: Address::new([i as u8; 32]) }),
            5 => extend(&mut t.miner_fees, n, |i| Currency::new(i as u128)),
            6 => extend(&mut t.arbitrary_data, n, |i| i.to_string().into_bytes()),
            7 => extend(&mut t.siacoin_inputs, n, |i| v1::SiacoinInput { parent_id: SiacoinOutputID::from(nth(i)), unlock_conditions: owners[i % 3].clone() }),
            8 => extend(&mut t.siafund_inputs, n, |i| v1::SiafundInput { parent_id: SiafundOutputID::from(nth(i)), unlock_conditions: owners[i % 3].clone(), claim_address: Address::new([i as u8; 32]) }),
            9 => extend(&mut t.signatures, n, |i| TransactionSignature { parent_id: nth_hash(i), ..base(1) }),
            // keys and proofs of a single input or proof
            10 => extend(&mut t.siacoin_inputs[1].unlock_conditions.public_keys, n, |i| UnlockKey { algorithm: sia::types::Specifier::from("ed25519"), key: nth(i).to_vec() }),
            11 => extend(&mut t.storage_proofs[0].proof, n, nth_hash),
            _ => extend(&mut t.file_contracts[0].valid_proof_outputs, n, output),
        }
        for i in &t.siacoin_inputs {
            b.owners.insert(h32(&i.parent_id), uc_address(&i.unlock_conditions));
        }
        for i in &t.siafund_inputs {
            b.owners.insert(h32(&i.parent_id), uc_address(&i.unlock_conditions));
        }
        let partial = CoveredFields {
            whole_transaction: false,
            siacoin_inputs: vec![1, 0],
            siacoin_outputs: (0..t.siacoin_outputs.len()).collect(),
            siafund_inputs: vec![0],
            miner_fees: (0..t.miner_fees.len()).collect(),
            arbitrary_data: vec![0],
            ..Default::default()
        };
        let partial = if variant < 4 {
            partial
        } else {
            // everything, in descending order, some of it twice
            let all = |n: usize| (0..n).rev().chain(0..n.min(1)).collect::<Vec<_>>();
            CoveredFields {
                whole_transaction: false,
                siacoin_inputs: all(t.siacoin_inputs.len()),
                siacoin_outputs: all(t.siacoin_outputs.len()),
                file_contracts: all(t.file_contracts.len()),
                file_contract_revisions: all(t.file_contract_revisions.len()),
                storage_proofs: all(t.storage_proofs.len()),
                siafund_inputs: all(t.siafund_inputs.len()),
                siafund_outputs: all(t.siafund_outputs.len()),
                miner_fees: all(t.miner_fees.len()),
                arbitrary_data: all(t.arbitrary_data.len()),
                signatures: vec![],
            }
        };
        let ids = [h32(&t.siacoin_inputs[0].parent_id), h32(&t.siacoin_inputs[1].parent_id), h32(&t.siafund_inputs[0].parent_id)];
        // (input, key of its conditions, signing key, whole)
        let plan: [(usize, u64, usize); 4] = [(0, 0, 0), (1, 0, 1), (1, 2, 3), (2, 0, 4)];
        for (n, (input, index, key)) in plan.into_iter().enumerate() {
            let whole = match variant / 2 {
                0 => true,
                _ => n % 2 == 1,
            };
            let mut covered = if whole { CoveredFields::whole_transaction() } else { partial.clone() };
            if !whole && n == 2 {
                covered.signatures = match variant {
                    _ if long.1 > 0 => (0..t.signatures.len()).collect(),
                    0..4 => vec![0, 1],
                    _ => vec![1, 0, 1],
                };
            }
            let mut s = TransactionSignature { parent_id: Hash256::new(ids[input]), public_key_index: index, timelock: n as u64, covered_fields: covered, signature: vec![] };
            let hash = if s.covered_fields.whole_transaction {
                ref_whole(&t, &cs_prefix(cs), s.parent_id.as_ref(), s.public_key_index, s.timelock)
            } else {
                ref_partial(&t, &cs_prefix(cs), &s.covered_fields).unwrap()
            };
            let sig = keys[key].sign_hash(&Hash256::new(hash));
            b.signed.insert((public(&keys[key]), hash, sig.data().try_into().unwrap()));
            s.signature = sig.data().to_vec();
            t.signatures.push(s);
        }
        b.outputs = (0..t.siacoin_outputs.len()).map(|i| h32(&t.siacoin_output_id(i))).collect();
        (t, b)
    }
    fn judge(&self, cs: &ChainState, b: &Book) -> Result<usize, String> {
        let mut good = 0;
        let mut conditions: HashMap<[u8; 32], &UnlockConditions> = HashMap::new();
        let inputs = self.siacoin_inputs.iter().map(|i| (h32(&i.parent_id), &i.unlock_conditions)).chain(self.siafund_inputs.iter().map(|i| (h32(&i.parent_id), &i.unlock_conditions)));
        for (id, u) in inputs {
            let want = uc_address(u);
            expect(format!("the address of {}", dbg(u)), addr_bytes(&u.address()), want)?;
            // is it the owner?
            good += (b.owners.get(&id) == Some(&want)) as usize;
            conditions.insert(id, u);
        }
        for (n, s) in self.signatures.iter().enumerate() {
            let Some(hash) = v1_hash(self, cs, s)? else { continue };
            let Some(u) = conditions.get(&h32(&s.parent_id)) else { continue };
            let Some(k) = usize::try_from(s.public_key_index).ok().and_then(|i| u.public_keys.get(i)) else { continue };
            if *k.algorithm.as_bytes() == *b"ed25519\0\0\0\0\0\0\0\0\0" {
                good += claim(b, &format!("signature {n}"), &k.key, hash, &s.signature)? as usize;
            }
        }
        let id = blake(&[&v1_nosigs(self)]);
        expect("the id".into(), h32(&self.id()), id)?;
        for i in 0..self.siacoin_outputs.len().min(3) {
            let mut kind = [0u8; 16];
            kind[..14].copy_from_slice(b"siacoin output");
            let want = blake(&[&kind, &v1_nosigs(self), &(i as u64).to_le_bytes()]);
            expect(format!("the id of output {i}"), h32(&self.siacoin_output_id(i)), want)?;
            good += (b.outputs.get(i) == Some(&want)) as usize;
        }
        Ok(good)
    }
    fn enc(&self) -> Result<Vec<u8>, String> {
        let mut o = vec![];
        self.encode_v1(&mut o).map_err(|e| format!("{e:?}"))?;
        Ok(o)
    }
    fn dec(mut b: &mut dyn Read) -> Result<Self, String> {
        Self::decode_v1(&mut b).map_err(|e| format!("{e:?}"))
    }
    fn renc(&self) -> Vec<u8> {
        let mut o = vec![];
        self.e1(&mut o);
        o
    }
    fn copy(&self) -> Self {
        Self::d1(&mut Cur::new(&self.renc())).unwrap()
    }
    fn wrapped(&self, how: usize) -> Result<Self, String> {
        let mut block: Block = base(1);
        block.transactions = vec![base(1), self.copy(), base(0)];
        let mut back: Block = match how {
            0 => {
                let mut o = vec![];
                block.encode_v1(&mut o).map_err(|e| format!("{e:?}"))?;
                Block::decode_v1(&mut &o[..]).map_err(|e| format!("{e:?}"))?
            }
            _ => serde_json::to_string(&block).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string())?,
        };
        if back.transactions.len() != 3 {
            return bad(format!("a block of 3 transactions has {}", back.transactions.len()));
        }
        Ok(back.transactions.swap_remove(1))
    }
}

// ---------------------------------------------------------------------- v2

fn policy_keys(p: &SpendPolicy, o: &mut Vec<Vec<u8>>) {
    #[allow(deprecated)]
    match p {
        SpendPolicy::PublicKey(k) => o.push(k.as_ref().to_vec()),
        SpendPolicy::Threshold(_, of) => of.iter().for_each(|p| policy_keys(p, o)),
        SpendPolicy::UnlockConditions(u) => u.public_keys.iter().filter(|k| *k.algorithm.as_bytes() == *b"ed25519\0\0\0\0\0\0\0\0\0").for_each(|k| o.push(k.key.clone())),
        _ => {}
    }
}
fn tagged(cs: &ChainState, tag: &str, body: &[u8]) -> [u8; 32] {
    blake(&[tag.as_bytes(), &cs_prefix(cs), body])
}
fn fc_hash(f: &v2::FileContract, cs: &ChainState) -> [u8; 32] {
    let mut o = vec![];
    sem_fc(f, &mut o);
    tagged(cs, "sia/sig/filecontract|", &o)
}
fn renewal_hash(r: &v2::FileContractRenewal, cs: &ChainState) -> [u8; 32] {
    let mut o = vec![];
    sem_renewal(r, &mut o);
    tagged(cs, "sia/sig/filecontractrenewal|", &o)
}
fn attestation_hash(a: &v2::Attestation, cs: &ChainState) -> [u8; 32] {
    let mut o = vec![];
    sem_attestation(a, &mut o);
    tagged(cs, "sia/sig/attestation|", &o)
}
impl Flow for v2::Transaction {
    const LISTS: usize = 16;
    fn make(variant: usize, cs: &ChainState, long: (usize, usize)) -> (Self, Book) {
        let keys: Vec<PrivateKey> = (0..8).map(wallet).collect();
        let mut b = Book::default();
        let mut t: v2::Transaction = base(if variant % 2 == 0 { 1 } else { 2 });
        let pk = |i: usize| SpendPolicy::PublicKey(keys[i].public_key());
        #[allow(deprecated)]
        let policies: [(SpendPolicy, Vec<usize>); 3] = if variant / 2 == 0 {
            [
                (pk(0), vec![0]),
                (SpendPolicy::Threshold(2, vec![pk(1), SpendPolicy::Opaque(pk(2).address()), SpendPolicy::Hash(Hash256::new([4; 32])), SpendPolicy::Above(3)]), vec![1]),
                (SpendPolicy::UnlockConditions(uc_of(&[&keys[3]], 1, 0)), vec![3]),
            ]
        } else {
            [
                (SpendPolicy::Threshold(1, vec![SpendPolicy::Threshold(2, vec![pk(0), pk(1)]), SpendPolicy::Threshold(0, vec![])]), vec![1, 0]),
                (SpendPolicy::UnlockConditions(uc_of(&[&keys[1], &keys[2]], 2, 9)), vec![2, 1]),
                (SpendPolicy::Threshold(2, vec![SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap()), pk(3)]), vec![3]),
            ]
        };
        #[allow(deprecated)]
        let policies = if variant < 4 {
            policies
        } else {
            // unusual, but meaningful
            let empty = || SpendPolicy::Threshold(1, vec![]);
            let mut odd = uc_of(&[&keys[1], &keys[1], &keys[2]], 200, u64::MAX);
            odd.public_keys[0].algorithm = sia::types::Specifier::from("Entropy");
            [
                (SpendPolicy::Threshold(255, vec![pk(0), pk(0), empty(), SpendPolicy::Above(u64::MAX), empty()]), vec![0, 0]),
                (SpendPolicy::UnlockConditions(odd), vec![2, 1]),
                (SpendPolicy::Threshold(0, vec![SpendPolicy::After(time::OffsetDateTime::from_unix_timestamp(-1).unwrap()), SpendPolicy::Opaque(Address::new([0; 32])), pk(3)]), vec![3]),
            ]
        };
        let earlier: v2::Transaction = base(1);
        let parent = earlier.id();
        t.siacoin_inputs = (0..2)
            .map(|i| {
                let mut x = base::<v2::Transaction>(if variant % 2 == 0 { 1 } else { 2 }).siacoin_inputs.swap_remove(0);
                x.parent.maturity_height += i as u64;
                x.parent.id = parent.v2_siacoin_output_id(i);
                x.parent.siacoin_output.address = policies[i].0.address();
                x.satisfied_policy = SatisfiedPolicy { policy: policies[i].0.clone(), signatures: vec![], preimages: if i == 1 { vec![Hash256::new([5; 32])] } else { vec![] } };
                b.owners.insert(h32(&x.parent.id), policy_address(&policies[i].0));
                x
            })
            .collect();
        if variant >= 4 {
            t.new_foundation_address = [Some(Address::new([0; 32])), None][variant % 2].clone();
            t.siacoin_outputs.push(SiacoinOutput { value: Currency::new(0), address: Address::new([0; 32]) });
            t.siafund_outputs.push(SiafundOutput { value: 0, address: Address::new([0; 32]) });
            t.miner_fee = Currency::new([0, 1 << 70][variant % 2]);
            t.arbitrary_data = vec![vec![], vec![0; 300]].swap_remove(variant % 2);
            for a in &mut t.attestations {
                a.key = [" \tKey ", ""][variant % 2].into();
                a.value = vec![];
            }
            for f in &mut t.file_contracts {
                f.missed_host_value = Currency::new(u128::MAX);
                f.filesize = f.capacity.wrapping_add(1);
            }
            for x in &mut t.siacoin_inputs {
                x.parent.state_element.merkle_proof = vec![];
                x.parent.state_element.leaf_index = u64::MAX;
            }
        }
        t.siafund_inputs.truncate(1);
        let sfi = &mut t.siafund_inputs[0];
        sfi.parent.id = parent.v2_siafund_output_id(0);
        sfi.parent.siafund_output.address = policies[2].0.address();
        sfi.satisfied_policy = SatisfiedPolicy { policy: policies[2].0.clone(), signatures: vec![], preimages: vec![] };
        b.owners.insert(h32(&sfi.parent.id), policy_address(&policies[2].0));
        let (list, n) = long;
        let output = |i: usize| SiacoinOutput { value: Currency::new(i as u128), address: Address::new([i as u8; 32]) };
        match list {
            _ if n == 0 => {}
            0 => extend(&mut t.siacoin_outputs, n, output),
            1 => extend(&mut t.siafund_outputs, n, |i| SiafundOutput { value: i as u64, address: Address::new([i as u8; 32]) }),
            2 => extend(&mut t.file_contracts, n, |i| v2::FileContract { filesize: i as u64, ..base(1) }),
            3 => extend(&mut t.file_contract_revisions, n, |_| base(1)),
            4 => extend(&mut t.attestations, n, |i| v2::Attestation { key: i.to_string(), ..base(1) }),
            5 => extend(&mut t.arbitrary_data, n, |i| i as u8),
            6 => extend(&mut t.siacoin_inputs, n, |i| {
                let mut x: v2::SiacoinInput = base(1);
                x.parent.id = SiacoinOutputID::from(nth(i));
                x
            }),
            7 => extend(&mut t.siafund_inputs, n, |i| {
                let mut x: v2::SiafundInput = base(1);
                x.parent.id = SiafundOutputID::from(nth(i));
                x
            }),
            // the parts of a single input
            8 => extend(&mut t.siacoin_inputs[1].satisfied_policy.preimages, n, nth_hash),
            9 => extend(&mut t.siacoin_inputs[0].parent.state_element.merkle_proof, n, nth_hash),
            10 => extend(&mut t.siafund_inputs[0].parent.state_element.merkle_proof, n, nth_hash),
            11 => extend(&mut t.attestations[0].value, n, |i| i as u8),
            12 => t.attestations[0].key = "k".repeat(n),
            _ => {
                // policies: children, keys, nested thresholds
                let x = &mut t.siacoin_inputs[1];
                x.satisfied_policy.policy = match list {
                    13 => SpendPolicy::Threshold(1, (0..n.min(255)).map(|i| if i % 2 == 0 { pk(i % 8) } else { SpendPolicy::Opaque(Address::new([i as u8; 32])) }).collect()),
                    #[allow(deprecated)]
                    14 => SpendPolicy::UnlockConditions(UnlockConditions { timelock: 7, public_keys: (0..n).map(|i| UnlockKey::from(keys[i % 8].public_key())).collect(), signatures_required: 2 }),
                    _ => (0..n.min(24)).fold(pk(1), |p, i| SpendPolicy::Threshold(1, if i % 2 == 0 { vec![p] } else { vec![SpendPolicy::Above(i as u64), p] })),
                };
                x.parent.siacoin_output.address = Address::new(policy_address(&x.satisfied_policy.policy));
                b.owners.insert(h32(&x.parent.id), policy_address(&x.satisfied_policy.policy));
            }
        }
        let mut note = |k: usize, h: [u8; 32]| -> Signature {
            let s = keys[k].sign_hash(&Hash256::new(h));
            b.signed.insert((public(&keys[k]), h, s.data().try_into().unwrap()));
            s
        };
        let mut both = |f: &mut v2::FileContract| {
            f.renter_public_key = keys[4].public_key();
            f.host_public_key = keys[5].public_key();
            let h = fc_hash(f, cs);
            f.renter_signature = note(4, h);
            f.host_signature = note(5, h);
        };
        t.file_contracts.iter_mut().for_each(&mut both);
        for r in &mut t.file_contract_revisions {
            both(&mut r.parent.v2_file_contract);
            if variant >= 4 {
                // it changes nothing
                r.revision = v2::FileContract::d2(&mut Cur::new(&{
                    let mut o = vec![];
                    r.parent.v2_file_contract.e2(&mut o);
                    o
                }))
                .unwrap();
            }
            both(&mut r.revision);
        }
        for r in &mut t.file_contract_resolutions {
            both(&mut r.parent.v2_file_contract);
        }
        // each kind of resolution
        let mut parent = || -> v2::FileContractElement {
            let mut x: v2::FileContractElement = base(1);
            both(&mut x.v2_file_contract);
            x
        };
        let parents = [parent(), parent(), parent()];
        let mut renewal: v2::FileContractRenewal = base(1);
        both(&mut renewal.final_revision);
        both(&mut renewal.new_contract);
        let h = renewal_hash(&renewal, cs);
        renewal.renter_signature = note(4, h);
        renewal.host_signature = note(5, h);
        let [p0, p1, p2] = parents;
        t.file_contract_resolutions = vec![
            v2::FileContractResolution { resolution: ContractResolution::Renewal(renewal), parent: p0 },
            v2::FileContractResolution { resolution: ContractResolution::StorageProof(base(1)), parent: p1 },
            v2::FileContractResolution { resolution: ContractResolution::Expiration(), parent: p2 },
        ];
        for (i, a) in t.attestations.iter_mut().enumerate() {
            a.public_key = keys[6 + i % 2].public_key();
            let h = attestation_hash(a, cs);
            a.signature = note(6 + i % 2, h);
        }
        // the inputs are signed last
        let h = tagged(cs, "sia/sig/input|", &sem_txn(&t));
        for i in 0..2 {
            t.siacoin_inputs[i].satisfied_policy.signatures = policies[i].1.iter().map(|k| note(*k, h)).collect();
        }
        t.siafund_inputs[0].satisfied_policy.signatures = policies[2].1.iter().map(|k| note(*k, h)).collect();
        let id = t.id();
        b.outputs = (0..t.siacoin_outputs.len()).map(|i| h32(&id.v2_siacoin_output_id(i))).collect();
        (t, b)
    }
    fn judge(&self, cs: &ChainState, b: &Book) -> Result<usize, String> {
        let mut good = 0;
        let sem = sem_txn(self);
        let hash = tagged(cs, "sia/sig/input|", &sem);
        expect("the hash signed for inputs".into(), h32(&self.input_sig_hash(cs)), hash)?;
        let inputs = self
            .siacoin_inputs
            .iter()
            .map(|i| (h32(&i.parent.id), &i.parent.siacoin_output.address, &i.satisfied_policy))
            .chain(self.siafund_inputs.iter().map(|i| (h32(&i.parent.id), &i.parent.siafund_output.address, &i.satisfied_policy)));
        for (n, (id, address, sp)) in inputs.enumerate() {
            let want = policy_address(&sp.policy);
            let got = guarded(|| sp.policy.address()).map_err(|p| format!("the address of {} panics: {p}", dbg(&sp.policy)))?;
            expect(format!("the address of {}", dbg(&sp.policy)), addr_bytes(&got), want)?;
            if (got == *address) != (addr_bytes(address) == want) {
                return bad(format!("comparing {got:?} with {address:?} is wrong"));
            }
            good += (got == *address && b.owners.get(&id) == Some(&want)) as usize;
            let mut keys = vec![];
            policy_keys(&sp.policy, &mut keys);
            for (i, s) in sp.signatures.iter().enumerate() {
                for k in &keys {
                    good += claim(b, &format!("signature {i} of input {n}"), k, hash, s.data())? as usize;
                }
            }
        }
        let mut contract = |f: &v2::FileContract, what: &str| -> Result<(), String> {
            let h = fc_hash(f, cs);
            expect(format!("the hash signed for {what}"), h32(&f.sig_hash(cs)), h)?;
            good += claim(b, &format!("the renter's signature of {what}"), f.renter_public_key.as_ref(), h, f.renter_signature.data())? as usize;
            good += claim(b, &format!("the host's signature of {what}"), f.host_public_key.as_ref(), h, f.host_signature.data())? as usize;
            Ok(())
        };
        for f in &self.file_contracts {
            contract(f, "a contract")?;
        }
        for r in &self.file_contract_revisions {
            contract(&r.parent.v2_file_contract, "a revised contract")?;
            contract(&r.revision, "a revision")?;
        }
        let mut renewals = vec![];
        for r in &self.file_contract_resolutions {
            contract(&r.parent.v2_file_contract, "a resolved contract")?;
            if let ContractResolution::Renewal(x) = &r.resolution {
                contract(&x.final_revision, "a final revision")?;
                contract(&x.new_contract, "a renewed contract")?;
                renewals.push((&r.parent.v2_file_contract, x));
            }
        }
        for (f, r) in renewals {
            let h = renewal_hash(r, cs);
            expect("the hash signed for a renewal".into(), h32(&r.sig_hash(cs)), h)?;
            good += claim(b, "the renter's signature of a renewal", f.renter_public_key.as_ref(), h, r.renter_signature.data())? as usize;
            good += claim(b, "the host's signature of a renewal", f.host_public_key.as_ref(), h, r.host_signature.data())? as usize;
        }
        for a in &self.attestations {
            let h = attestation_hash(a, cs);
            expect("the hash signed for an attestation".into(), h32(&a.sig_hash(cs)), h)?;
            good += claim(b, "an attestation", a.public_key.as_ref(), h, a.signature.data())? as usize;
        }
        let id = blake(&[&sem]);
        expect("the id".into(), h32(&self.id()), id)?;
        for i in 0..self.siacoin_outputs.len().min(3) {
            let want = blake(&[b"sia/id/siacoinoutput|", &id, &(i as u64).to_le_bytes()]);
            expect(format!("the id of output {i}"), h32(&self.id().v2_siacoin_output_id(i)), want)?;
            good += (b.outputs.get(i) == Some(&want)) as usize;
        }
        Ok(good)
    }
    fn enc(&self) -> Result<Vec<u8>, String> {
        let mut o = vec![];
        self.encode(&mut o).map_err(|e| format!("{e:?}"))?;
        Ok(o)
    }
    fn dec(mut b: &mut dyn Read) -> Result<Self, String> {
        Self::decode(&mut b).map_err(|e| format!("{e:?}"))
    }
    fn renc(&self) -> Vec<u8> {
        let mut o = vec![];
        self.e2(&mut o);
        o
    }
    fn copy(&self) -> Self {
        Self::d2(&mut Cur::new(&self.renc())).unwrap()
    }
    fn wrapped(&self, how: usize) -> Result<Self, String> {
        let list = vec![base(1), self.copy(), base(0)];
        let mut back: Vec<v2::Transaction> = match how {
            0 => {
                let mut o = vec![];
                list.encode(&mut o).map_err(|e| format!("{e:?}"))?;
                SiaDecodable::decode(&mut &o[..]).map_err(|e| format!("{e:?}"))?
            }
            _ => serde_json::to_string(&list).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string())?,
        };
        if back.len() != 3 {
            return bad(format!("a list of 3 transactions has {}", back.len()));
        }
        Ok(back.swap_remove(1))
    }
}

// ---------------------------------------------------------------------- exploration

struct Case<T> {
    t: T,
    book: Book,
    cs: ChainState,
    good: usize,
    bytes: Vec<u8>,
    doc: Value,
}
fn case<T: Flow>(variant: usize) -> Result<Case<T>, String> {
    long_case(variant, (0, 0))
}
fn long_case<T: Flow>(variant: usize, long: (usize, usize)) -> Result<Case<T>, String> {
    let cs = chain_state(nets::fork_network(0), [25, 150][variant % 2]);
    let (t, book) = T::make(variant, &cs, long);
    let good = t.judge(&cs, &book)?;
    let bytes = t.renc();
    if t.enc()? != bytes {
        return bad(format!("the encoding of {} is wrong", dbg(&t)));
    }
    let doc = serde_json::to_value(&t).map_err(|e| e.to_string())?;
    Ok(Case { t, book, cs, good, bytes, doc })
}
/// A tampered transaction, if it still is one.
fn tampered<T: Flow>(c: &mut Ctx, x: &Case<T>, got: Option<T>, how: impl Fn() -> String) -> Result<(), String> {
    c.evals += 1;
    let Some(g) = got else { return Ok(()) };
    let good = g.judge(&x.cs, &x.book).map_err(|m| format!("{m}, in the transaction with {}", how()))?;
    let same = g == x.t;
    if same != (g.renc() == x.bytes) {
        return bad(format!("comparing the transaction with the one with {} is wrong", how()));
    }
    if same && good != x.good {
        return bad(format!("with {}: {good} of {} claims hold", how(), x.good));
    }
    Ok(())
}
fn leaves(v: &Value, at: &mut String, o: &mut Vec<String>, lists: &mut Vec<String>) {
    match v {
        Value::Array(a) => {
            lists.push(at.clone());
            for (i, x) in a.iter().enumerate() {
                let n = at.len();
                at.push_str(&format!("/{i}"));
                leaves(x, at, o, lists);
                at.truncate(n);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                let n = at.len();
                at.push_str(&format!("/{k}"));
                leaves(x, at, o, lists);
                at.truncate(n);
            }
        }
        _ => o.push(at.clone()),
    }
}
fn units<T: Flow>(name: &'static str) -> Vec<Unit> {
    let depth = if crate::thorough() { 5 } else { 3 };
    let parts = 16;
    vec![
        // every sequence of conversions
        unit(format!("conversions/{name}"), 0, u64::MAX, move |c| {
            let x = case::<T>(c.free(VARIANTS))?;
            let mut t = x.t.copy();
            let mut h = 1;
            for _ in 0..depth {
                let op = c.free(OPS.len());
                t = convert(&t, op)?;
                let e = t.enc()?;
                if e != x.bytes || t != x.t {
                    return bad(format!("through {} the transaction becomes {}, it was {}", OPS[op], dbg(&t), dbg(&x.t)));
                }
                let good = t.judge(&x.cs, &x.book)?;
                if good != x.good {
                    return bad(format!("through {}: {good} of {} claims hold", OPS[op], x.good));
                }
                c.evals += 1;
                h = h * 8 + op as u64;
            }
            Ok(h ^ hash_bytes(&x.bytes))
        }),
        // every byte of the encoding changed
        unit(format!("changed bytes/{name}"), 0, u64::MAX, move |c| {
            let mut x = case::<T>(c.free(VARIANTS))?;
            x.book.seen = Some(Default::default());
            let part = c.free(parts);
            let masks: &[u8] = if crate::thorough() { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 128] };
            for i in (part..x.bytes.len()).step_by(parts) {
                for m in masks {
                    let mut b = x.bytes.clone();
                    b[i] ^= m;
                    let got = guarded(|| T::dec(&mut &b[..]).ok()).map_err(|p| format!("decoding {} panics: {p}", short(&b)))?;
                    tampered(c, &x, got, || format!("byte {i} of its encoding changed by {m:#x}"))?;
                }
            }
            c.sample(|| format!("{} bytes of {}", x.bytes.len(), dbg(&x.t)));
            Ok((part as u64) << 32 ^ hash_bytes(&x.bytes))
        }),
        // every character of the JSON text changed
        unit(format!("changed text/{name}"), 0, u64::MAX, move |c| {
            let mut x = case::<T>(if crate::thorough() { c.free(VARIANTS) } else { c.free(2) * 3 })?;
            x.book.seen = Some(Default::default());
            let part = c.free(parts * 2);
            let text = serde_json::to_vec(&x.t).map_err(|e| e.to_string())?;
            let with: &[u8] = if crate::thorough() { b"0123456789abcdefABCDEF+/=-.:\"[{" } else { b"0a" };
            for i in (part..text.len()).step_by(parts * 2) {
                for r in with {
                    let mut b = text.clone();
                    if b[i] == *r {
                        continue;
                    }
                    b[i] = *r;
                    let got = guarded(|| serde_json::from_slice::<T>(&b).ok()).map_err(|p| format!("parsing {} panics: {p}", String::from_utf8_lossy(&b)))?;
                    tampered(c, &x, got, || format!("character {i} of its JSON replaced by {:?}", *r as char))?;
                }
            }
            Ok((part as u64) << 32 ^ hash_bytes(&text))
        }),
        // parts of the document exchanged, removed, repeated
        unit(format!("changed parts/{name}"), 0, u64::MAX, move |c| {
            let mut x = case::<T>(c.free(VARIANTS))?;
            x.book.seen = Some(Default::default());
            let part = c.free(parts);
            let (mut ls, mut lists) = (vec![], vec![]);
            leaves(&x.doc, &mut String::new(), &mut ls, &mut lists);
            let mut k = 0;
            let mut go = |c: &mut Ctx, k: usize, d: &dyn Fn(&mut Value), how: &dyn Fn() -> String| -> Result<(), String> {
                if k % parts != part {
                    return Ok(());
                }
                let mut v = x.doc.clone();
                d(&mut v);
                if v == x.doc {
                    return Ok(());
                }
                let got = guarded(|| serde_json::from_value::<T>(v.clone()).ok()).map_err(|p| format!("parsing {v} panics: {p}"))?;
                tampered(c, &x, got, how)
            };
            for l in &lists {
                let n = x.doc.pointer(l).unwrap().as_array().unwrap().len();
                for i in 0..n {
                    let list = |v: &mut Value, f: &dyn Fn(&mut Vec<Value>)| f(v.pointer_mut(l).unwrap().as_array_mut().unwrap());
                    go(c, k, &|v| list(v, &|a| drop(a.remove(i))), &|| format!("element {i} of {l} removed"))?;
                    go(c, k + 1, &|v| list(v, &|a| a.insert(i, a[i].clone())), &|| format!("element {i} of {l} repeated"))?;
                    k += 2;
                    for j in i + 1..n {
                        go(c, k, &|v| list(v, &|a| a.swap(i, j)), &|| format!("elements {i} and {j} of {l} exchanged"))?;
                        k += 1;
                    }
                }
            }
            // leaves of the same form exchanged
            for (i, p) in ls.iter().enumerate() {
                let a = x.doc.pointer(p).unwrap();
                for q in &ls[i + 1..] {
                    let b = x.doc.pointer(q).unwrap();
                    let alike = match (a, b) {
                        (Value::String(a), Value::String(b)) => a.len() == b.len() || (a.len() < 12 && b.len() < 12),
                        (Value::Number(_), Value::Number(_)) => crate::thorough() || p.rsplit('/').next() == q.rsplit('/').next(),
                        _ => false,
                    };
                    if alike && a != b {
                        go(
                            c,
                            k,
                            &|v| {
                                *v.pointer_mut(p).unwrap() = b.clone();
                                *v.pointer_mut(q).unwrap() = a.clone();
                            },
                            &|| format!("{p} and {q} exchanged"),
                        )?;
                        k += 1;
                    }
                }
            }
            c.sample(|| format!("{k} changes of {} leaves and {} lists", ls.len(), lists.len()));
            Ok((part as u64) << 32 ^ hash_bytes(&x.bytes))
        }),
        // many outputs, contracts, signatures, keys
        unit(format!("long lists/{name}"), 0, u64::MAX, move |c| {
            let (list, part) = (c.free(T::LISTS), c.free(8));
            let counts: Vec<usize> = if crate::thorough() { (1..=520).chain([1023, 1024, 1025, 4097]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300]).collect() };
            let mut h = 0u64;
            for n in counts.iter().skip(part).step_by(8) {
                let mut x = long_case::<T>(4 + n % 2, (list, *n)).map_err(|m| format!("with list {list} of length {n}: {m}"))?;
                x.book.seen = Some(Default::default());
                let mut t = x.t.copy();
                for op in 0..OPS.len() {
                    t = convert(&t, op)?;
                    if t.enc()? != x.bytes || t != x.t {
                        return bad(format!("through {} the transaction with list {list} of length {n} becomes {}", OPS[op], dbg(&t)));
                    }
                }
                let good = t.judge(&x.cs, &x.book)?;
                if good != x.good {
                    return bad(format!("with list {list} of length {n}: {good} of {} claims hold", x.good));
                }
                c.evals += OPS.len() as u64 + 1;
                h = hash_bytes(&x.bytes) ^ h.rotate_left(5);
            }
            Ok(h)
        }),
        // signed at one height, judged at another
        unit(format!("phases/{name}"), 0, u64::MAX, move |c| {
            let n = c.free(nets::FORKS.len());
            let hs = nets::fork_heights(n);
            let (a, b) = (hs[c.free(hs.len())], hs[c.free(hs.len())]);
            let variant = c.free(2) * 2;
            let at = |h: u64| chain_state(nets::fork_network(n), h);
            let (t, book) = T::make(variant, &at(a), (0, 0));
            let (here, there) = (t.judge(&at(a), &book)?, t.judge(&at(b), &book)?);
            c.evals += 2;
            let same = cs_prefix(&at(a)) == cs_prefix(&at(b));
            if same != (here == there) {
                return bad(format!("signed at height {a}, {there} of {here} claims hold at height {b} of network {n}: {}", dbg(&t)));
            }
            Ok(hash_bytes(format!("{n} {a} {b} {variant} {here} {there}").as_bytes()))
        }),
    ]
}
fn c33() -> Vec<Unit> {
    let mut v = units::<v1::Transaction>("v1");
    v.extend(units::<v2::Transaction>("v2"));
    v
}
pub const PROPS: &[Prop] = &[Prop {
    id: "C33",
    level: MC,
    profiles: C,
    units: c33,
    rule: "transactions with every kind of input, contract, renewal and attestation, signed with derived keys, through every sequence of conversions up to a depth (binary, JSON, CBOR, copies, blocks and lists); every byte of the encoding and every character of the JSON text changed, every list element removed, repeated or exchanged and every pair of like leaves exchanged; signed at one height around the forks and judged at another; every list (of outputs, contracts, inputs, signatures, keys, proofs, sub-policies) extended to hundreds of entries; in each resulting transaction every id, address and signed hash against the reference, and every signature verified exactly if that key signed that hash",
    assumptions: &["no two of the signatures made, and no signature and hash that differ from them, collide"],
}];
