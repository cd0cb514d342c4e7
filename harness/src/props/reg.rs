//! Registry of all types with a binary encoding or a JSON form.
use crate::model::*;
use sia::encoding::{Result as ER, SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::marker::PhantomData;

/// One type with one binary codec, and its reference codec.
pub trait Wire: 'static {
    type V: G + PartialEq + Debug + 'static;
    const CODEC: &'static str;
    fn enc<W: Write>(v: &Self::V, w: &mut W) -> ER<()>;
    fn dec<R: Read>(r: &mut R) -> ER<Self::V>;
    fn dec_list<R: Read>(r: &mut R) -> ER<Vec<Self::V>>;
    fn renc(v: &Self::V) -> Vec<u8>;
    fn rdec(c: &mut Cur) -> DR<Self::V>;
}
pub struct W1<T>(PhantomData<T>);
pub struct W2<T>(PhantomData<T>);
impl<T: G + PartialEq + Debug + E1 + D1 + V1SiaEncodable + V1SiaDecodable + 'static> Wire for W1<T> {
    type V = T;
    const CODEC: &'static str = "v1";
    fn enc<W: Write>(v: &T, w: &mut W) -> ER<()> {
        v.encode_v1(w)
    }
    fn dec<R: Read>(r: &mut R) -> ER<T> {
        T::decode_v1(r)
    }
    fn dec_list<R: Read>(r: &mut R) -> ER<Vec<T>> {
        Vec::<T>::decode_v1(r)
    }
    fn renc(v: &T) -> Vec<u8> {
        let mut o = vec![];
        v.e1(&mut o);
        o
    }
    fn rdec(c: &mut Cur) -> DR<T> {
        T::d1(c)
    }
}
impl<T: G + PartialEq + Debug + E2 + D2 + SiaEncodable + SiaDecodable + 'static> Wire for W2<T> {
    type V = T;
    const CODEC: &'static str = "v2";
    fn enc<W: Write>(v: &T, w: &mut W) -> ER<()> {
        v.encode(w)
    }
    fn dec<R: Read>(r: &mut R) -> ER<T> {
        T::decode(r)
    }
    fn dec_list<R: Read>(r: &mut R) -> ER<Vec<T>> {
        Vec::<T>::decode(r)
    }
    fn renc(v: &T) -> Vec<u8> {
        let mut o = vec![];
        v.e2(&mut o);
        o
    }
    fn rdec(c: &mut Cur) -> DR<T> {
        T::d2(c)
    }
}

/// How big a type's space is: decides budgets.
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Prim,
    Small,
    Big,
}

/// Calls `$f::<Wire>(name, size)` for every type and codec and collects the units.
#[macro_export]
macro_rules! all_wires {
    ($f:ident) => {{
        #[allow(unused_imports)]
        use $crate::props::reg::{Size::*, *};
        let mut v: Vec<$crate::engine::Unit> = vec![];
        macro_rules! w1 { ($t:ty, $n:literal, $s:expr) => { v.extend($f::<W1<$t>>(concat!("v1/", $n), $s)); } }
        macro_rules! w2 { ($t:ty, $n:literal, $s:expr) => { v.extend($f::<W2<$t>>(concat!("v2/", $n), $s)); } }
        macro_rules! both { ($t:ty, $n:literal, $s:expr) => { w1!($t, $n, $s); w2!($t, $n, $s); } }
        use sia::types::{v1, v2};
        use time::{Duration, OffsetDateTime};
        both!(u8, "u8", Prim);
        both!(bool, "bool", Prim);
        both!(u16, "u16", Prim);
        both!(u32, "u32", Prim);
        both!(u64, "u64", Prim);
        both!(usize, "usize", Prim);
        both!(i16, "i16", Prim);
        both!(i32, "i32", Prim);
        both!(i64, "i64", Prim);
        both!(String, "String", Prim);
        both!([u8; 4], "[u8;4]", Prim);
        both!([u8; 64], "[u8;64]", Prim);
        both!(Vec<u8>, "Vec<u8>", Small);
        both!(Vec<u64>, "Vec<u64>", Small);
        both!(Vec<bool>, "Vec<bool>", Small);
        both!(Vec<String>, "Vec<String>", Small);
        both!(Vec<Vec<u64>>, "Vec<Vec<u64>>", Small);
        both!(Vec<Option<Hash256>>, "Vec<Option<Hash256>>", Small);
        both!(Option<u64>, "Option<u64>", Prim);
        both!(Option<Vec<u16>>, "Option<Vec<u16>>", Small);
        both!(Option<Option<bool>>, "Option<Option<bool>>", Prim);
        both!(Hash256, "Hash256", Prim);
        both!(SiacoinOutputID, "SiacoinOutputID", Prim);
        both!(SiafundOutputID, "SiafundOutputID", Prim);
        both!(AttestationID, "AttestationID", Prim);
        both!(BlockID, "BlockID", Prim);
        both!(TransactionID, "TransactionID", Prim);
        both!(FileContractID, "FileContractID", Prim);
        both!(Address, "Address", Prim);
        both!(Leaf, "Leaf", Prim);
        both!(Specifier, "Specifier", Prim);
        both!(Work, "Work", Prim);
        both!(Currency, "Currency", Prim);
        both!(Vec<Currency>, "Vec<Currency>", Small);
        both!(SiacoinOutput, "SiacoinOutput", Small);
        both!(SiafundOutput, "SiafundOutput", Small);
        both!(v1::UnlockKey, "UnlockKey", Small);
        both!(v1::UnlockConditions, "UnlockConditions", Small);
        w1!(Block, "Block", Big);
        w1!(v1::SiacoinInput, "SiacoinInput", Small);
        w1!(v1::SiafundInput, "SiafundInput", Small);
        w1!(v1::FileContract, "FileContract", Small);
        w1!(v1::FileContractRevision, "FileContractRevision", Small);
        w1!(v1::StorageProof, "StorageProof", Small);
        w1!(v1::CoveredFields, "CoveredFields", Small);
        w1!(v1::TransactionSignature, "TransactionSignature", Small);
        w1!(v1::Transaction, "Transaction", Big);
        w2!(OffsetDateTime, "OffsetDateTime", Prim);
        w2!(Duration, "Duration", Prim);
        w2!(PublicKey, "PublicKey", Prim);
        w2!(Signature, "Signature", Prim);
        w2!(ChainIndex, "ChainIndex", Small);
        w2!(StateElement, "StateElement", Small);
        w2!(v2::SpendPolicy, "SpendPolicy", Big);
        w2!(v2::SatisfiedPolicy, "SatisfiedPolicy", Big);
        w2!(v2::Attestation, "Attestation", Small);
        w2!(v2::FileContract, "FileContract", Small);
        w2!(v2::SiacoinElement, "SiacoinElement", Small);
        w2!(v2::SiafundElement, "SiafundElement", Small);
        w2!(v2::FileContractElement, "FileContractElement", Small);
        w2!(v2::ChainIndexElement, "ChainIndexElement", Small);
        w2!(v2::SiacoinInput, "SiacoinInput", Big);
        w2!(v2::SiafundInput, "SiafundInput", Big);
        w2!(v2::FileContractRevision, "FileContractRevision", Small);
        w2!(v2::FileContractRenewal, "FileContractRenewal", Small);
        w2!(v2::StorageProof, "StorageProof", Small);
        w2!(v2::FileContractResolution, "FileContractResolution", Big);
        w2!(v2::Transaction, "Transaction", Big);
        w2!(ElementAccumulator, "ElementAccumulator", Small);
        w2!(State, "State", Big);
        v
    }};
}
