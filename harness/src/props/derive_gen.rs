// Generated by tools/gen_shapes.py.
#![allow(non_camel_case_types, non_snake_case, private_interfaces)]
use super::*;

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct UnitShape;
impl Obj for UnitShape {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        let _ = o; let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_UnitShape(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(UnitShape) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct NamedEmpty {  }
impl Obj for NamedEmpty {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        let _ = o; let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_NamedEmpty(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(NamedEmpty {  }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct TupleEmpty();
impl Obj for TupleEmpty {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        let _ = o; let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_TupleEmpty(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(TupleEmpty()) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_b { pub zeta: u8 }
impl Obj for N_b {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_b(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_b { zeta: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_b(pub u8);
impl Obj for T_b {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_b(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_b(<u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_q { pub zeta: u64 }
impl Obj for N_q {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_q(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_q { zeta: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_q(pub u64);
impl Obj for T_q {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_q(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_q(<u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_v { pub zeta: Vec<u8> }
impl Obj for N_v {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_v(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_v { zeta: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_v(pub Vec<u8>);
impl Obj for T_v {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_v(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_v(<Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_c { pub zeta: Currency }
impl Obj for N_c {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_c(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_c { zeta: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_c(pub Currency);
impl Obj for T_c {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_c(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_c(<Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_o { pub zeta: Option<u64> }
impl Obj for N_o {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_o(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_o { zeta: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_o(pub Option<u64>);
impl Obj for T_o {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_o(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_o(<Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bb { pub zeta: u8, pub mid: u8 }
impl Obj for N_bb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bb { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bb(u8, pub u8);
impl Obj for T_bb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bb(<u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bq { pub zeta: u8, pub mid: u64 }
impl Obj for N_bq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bq { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bq(u8, pub u64);
impl Obj for T_bq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bq(<u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bv { pub zeta: u8, pub mid: Vec<u8> }
impl Obj for N_bv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bv { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bv(u8, pub Vec<u8>);
impl Obj for T_bv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bv(<u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bc { pub zeta: u8, pub mid: Currency }
impl Obj for N_bc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bc { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bc(u8, pub Currency);
impl Obj for T_bc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bc(<u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bo { pub zeta: u8, pub mid: Option<u64> }
impl Obj for N_bo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bo { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bo(u8, pub Option<u64>);
impl Obj for T_bo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bo(<u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qb { pub zeta: u64, pub mid: u8 }
impl Obj for N_qb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qb { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qb(u64, pub u8);
impl Obj for T_qb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qb(<u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qq { pub zeta: u64, pub mid: u64 }
impl Obj for N_qq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qq { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qq(u64, pub u64);
impl Obj for T_qq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qq(<u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qv { pub zeta: u64, pub mid: Vec<u8> }
impl Obj for N_qv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qv { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qv(u64, pub Vec<u8>);
impl Obj for T_qv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qv(<u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qc { pub zeta: u64, pub mid: Currency }
impl Obj for N_qc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qc { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qc(u64, pub Currency);
impl Obj for T_qc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qc(<u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qo { pub zeta: u64, pub mid: Option<u64> }
impl Obj for N_qo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qo { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qo(u64, pub Option<u64>);
impl Obj for T_qo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qo(<u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vb { pub zeta: Vec<u8>, pub mid: u8 }
impl Obj for N_vb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vb { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vb(Vec<u8>, pub u8);
impl Obj for T_vb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vb(<Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vq { pub zeta: Vec<u8>, pub mid: u64 }
impl Obj for N_vq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vq { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vq(Vec<u8>, pub u64);
impl Obj for T_vq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vq(<Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vv { pub zeta: Vec<u8>, pub mid: Vec<u8> }
impl Obj for N_vv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vv { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vv(Vec<u8>, pub Vec<u8>);
impl Obj for T_vv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vv(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vc { pub zeta: Vec<u8>, pub mid: Currency }
impl Obj for N_vc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vc { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vc(Vec<u8>, pub Currency);
impl Obj for T_vc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vc(<Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vo { pub zeta: Vec<u8>, pub mid: Option<u64> }
impl Obj for N_vo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vo { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vo(Vec<u8>, pub Option<u64>);
impl Obj for T_vo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vo(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cb { pub zeta: Currency, pub mid: u8 }
impl Obj for N_cb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cb { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cb(Currency, pub u8);
impl Obj for T_cb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cb(<Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cq { pub zeta: Currency, pub mid: u64 }
impl Obj for N_cq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cq { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cq(Currency, pub u64);
impl Obj for T_cq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cq(<Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cv { pub zeta: Currency, pub mid: Vec<u8> }
impl Obj for N_cv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cv { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cv(Currency, pub Vec<u8>);
impl Obj for T_cv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cv(<Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cc { pub zeta: Currency, pub mid: Currency }
impl Obj for N_cc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cc { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cc(Currency, pub Currency);
impl Obj for T_cc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cc(<Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_co { pub zeta: Currency, pub mid: Option<u64> }
impl Obj for N_co {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_co(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_co { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_co(Currency, pub Option<u64>);
impl Obj for T_co {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_co(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_co(<Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ob { pub zeta: Option<u64>, pub mid: u8 }
impl Obj for N_ob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ob { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ob(Option<u64>, pub u8);
impl Obj for T_ob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ob(<Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oq { pub zeta: Option<u64>, pub mid: u64 }
impl Obj for N_oq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oq { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oq(Option<u64>, pub u64);
impl Obj for T_oq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oq(<Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ov { pub zeta: Option<u64>, pub mid: Vec<u8> }
impl Obj for N_ov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ov { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ov(Option<u64>, pub Vec<u8>);
impl Obj for T_ov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ov(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oc { pub zeta: Option<u64>, pub mid: Currency }
impl Obj for N_oc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oc { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oc(Option<u64>, pub Currency);
impl Obj for T_oc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oc(<Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oo { pub zeta: Option<u64>, pub mid: Option<u64> }
impl Obj for N_oo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oo { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oo(Option<u64>, pub Option<u64>);
impl Obj for T_oo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oo(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bbb { pub zeta: u8, pub mid: u8, pub alpha: u8 }
impl Obj for N_bbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bbb { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bbb(pub u8, u8, pub u8);
impl Obj for T_bbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bbb(<u8 as G>::g(c), <u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bbq { pub zeta: u8, pub mid: u8, pub alpha: u64 }
impl Obj for N_bbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bbq { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bbq(pub u8, u8, pub u64);
impl Obj for T_bbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bbq(<u8 as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bbv { pub zeta: u8, pub mid: u8, pub alpha: Vec<u8> }
impl Obj for N_bbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bbv { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bbv(pub u8, u8, pub Vec<u8>);
impl Obj for T_bbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bbv(<u8 as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bbc { pub zeta: u8, pub mid: u8, pub alpha: Currency }
impl Obj for N_bbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bbc { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bbc(pub u8, u8, pub Currency);
impl Obj for T_bbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bbc(<u8 as G>::g(c), <u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bbo { pub zeta: u8, pub mid: u8, pub alpha: Option<u64> }
impl Obj for N_bbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bbo { zeta: <u8 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bbo(pub u8, u8, pub Option<u64>);
impl Obj for T_bbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bbo(<u8 as G>::g(c), <u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bqb { pub zeta: u8, pub mid: u64, pub alpha: u8 }
impl Obj for N_bqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bqb { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bqb(pub u8, u64, pub u8);
impl Obj for T_bqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bqb(<u8 as G>::g(c), <u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bqq { pub zeta: u8, pub mid: u64, pub alpha: u64 }
impl Obj for N_bqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bqq { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bqq(pub u8, u64, pub u64);
impl Obj for T_bqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bqq(<u8 as G>::g(c), <u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bqv { pub zeta: u8, pub mid: u64, pub alpha: Vec<u8> }
impl Obj for N_bqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bqv { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bqv(pub u8, u64, pub Vec<u8>);
impl Obj for T_bqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bqv(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bqc { pub zeta: u8, pub mid: u64, pub alpha: Currency }
impl Obj for N_bqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bqc { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bqc(pub u8, u64, pub Currency);
impl Obj for T_bqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bqc(<u8 as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bqo { pub zeta: u8, pub mid: u64, pub alpha: Option<u64> }
impl Obj for N_bqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bqo { zeta: <u8 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bqo(pub u8, u64, pub Option<u64>);
impl Obj for T_bqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bqo(<u8 as G>::g(c), <u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bvb { pub zeta: u8, pub mid: Vec<u8>, pub alpha: u8 }
impl Obj for N_bvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bvb { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bvb(pub u8, Vec<u8>, pub u8);
impl Obj for T_bvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bvb(<u8 as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bvq { pub zeta: u8, pub mid: Vec<u8>, pub alpha: u64 }
impl Obj for N_bvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bvq { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bvq(pub u8, Vec<u8>, pub u64);
impl Obj for T_bvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bvq(<u8 as G>::g(c), <Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bvv { pub zeta: u8, pub mid: Vec<u8>, pub alpha: Vec<u8> }
impl Obj for N_bvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bvv { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bvv(pub u8, Vec<u8>, pub Vec<u8>);
impl Obj for T_bvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bvv(<u8 as G>::g(c), <Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bvc { pub zeta: u8, pub mid: Vec<u8>, pub alpha: Currency }
impl Obj for N_bvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bvc { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bvc(pub u8, Vec<u8>, pub Currency);
impl Obj for T_bvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bvc(<u8 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bvo { pub zeta: u8, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for N_bvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bvo { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bvo(pub u8, Vec<u8>, pub Option<u64>);
impl Obj for T_bvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bvo(<u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bcb { pub zeta: u8, pub mid: Currency, pub alpha: u8 }
impl Obj for N_bcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bcb { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bcb(pub u8, Currency, pub u8);
impl Obj for T_bcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bcb(<u8 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bcq { pub zeta: u8, pub mid: Currency, pub alpha: u64 }
impl Obj for N_bcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bcq { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bcq(pub u8, Currency, pub u64);
impl Obj for T_bcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bcq(<u8 as G>::g(c), <Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bcv { pub zeta: u8, pub mid: Currency, pub alpha: Vec<u8> }
impl Obj for N_bcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bcv { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bcv(pub u8, Currency, pub Vec<u8>);
impl Obj for T_bcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bcv(<u8 as G>::g(c), <Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bcc { pub zeta: u8, pub mid: Currency, pub alpha: Currency }
impl Obj for N_bcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bcc { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bcc(pub u8, Currency, pub Currency);
impl Obj for T_bcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bcc(<u8 as G>::g(c), <Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bco { pub zeta: u8, pub mid: Currency, pub alpha: Option<u64> }
impl Obj for N_bco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bco { zeta: <u8 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bco(pub u8, Currency, pub Option<u64>);
impl Obj for T_bco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bco(<u8 as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bob { pub zeta: u8, pub mid: Option<u64>, pub alpha: u8 }
impl Obj for N_bob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bob { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bob(pub u8, Option<u64>, pub u8);
impl Obj for T_bob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bob(<u8 as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_boq { pub zeta: u8, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for N_boq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_boq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_boq { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_boq(pub u8, Option<u64>, pub u64);
impl Obj for T_boq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_boq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_boq(<u8 as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_bov { pub zeta: u8, pub mid: Option<u64>, pub alpha: Vec<u8> }
impl Obj for N_bov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_bov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_bov { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_bov(pub u8, Option<u64>, pub Vec<u8>);
impl Obj for T_bov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_bov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_bov(<u8 as G>::g(c), <Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_boc { pub zeta: u8, pub mid: Option<u64>, pub alpha: Currency }
impl Obj for N_boc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_boc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_boc { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_boc(pub u8, Option<u64>, pub Currency);
impl Obj for T_boc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_boc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_boc(<u8 as G>::g(c), <Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_boo { pub zeta: u8, pub mid: Option<u64>, pub alpha: Option<u64> }
impl Obj for N_boo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_boo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_boo { zeta: <u8 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_boo(pub u8, Option<u64>, pub Option<u64>);
impl Obj for T_boo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_boo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_boo(<u8 as G>::g(c), <Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qbb { pub zeta: u64, pub mid: u8, pub alpha: u8 }
impl Obj for N_qbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qbb { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qbb(pub u64, u8, pub u8);
impl Obj for T_qbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qbb(<u64 as G>::g(c), <u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qbq { pub zeta: u64, pub mid: u8, pub alpha: u64 }
impl Obj for N_qbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qbq { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qbq(pub u64, u8, pub u64);
impl Obj for T_qbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qbq(<u64 as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qbv { pub zeta: u64, pub mid: u8, pub alpha: Vec<u8> }
impl Obj for N_qbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qbv { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qbv(pub u64, u8, pub Vec<u8>);
impl Obj for T_qbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qbv(<u64 as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qbc { pub zeta: u64, pub mid: u8, pub alpha: Currency }
impl Obj for N_qbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qbc { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qbc(pub u64, u8, pub Currency);
impl Obj for T_qbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qbc(<u64 as G>::g(c), <u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qbo { pub zeta: u64, pub mid: u8, pub alpha: Option<u64> }
impl Obj for N_qbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qbo { zeta: <u64 as G>::g(c), mid: <u8 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qbo(pub u64, u8, pub Option<u64>);
impl Obj for T_qbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qbo(<u64 as G>::g(c), <u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qqb { pub zeta: u64, pub mid: u64, pub alpha: u8 }
impl Obj for N_qqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qqb { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qqb(pub u64, u64, pub u8);
impl Obj for T_qqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qqb(<u64 as G>::g(c), <u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qqq { pub zeta: u64, pub mid: u64, pub alpha: u64 }
impl Obj for N_qqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qqq { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qqq(pub u64, u64, pub u64);
impl Obj for T_qqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qqq(<u64 as G>::g(c), <u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qqv { pub zeta: u64, pub mid: u64, pub alpha: Vec<u8> }
impl Obj for N_qqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qqv { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qqv(pub u64, u64, pub Vec<u8>);
impl Obj for T_qqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qqv(<u64 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qqc { pub zeta: u64, pub mid: u64, pub alpha: Currency }
impl Obj for N_qqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qqc { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qqc(pub u64, u64, pub Currency);
impl Obj for T_qqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qqc(<u64 as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qqo { pub zeta: u64, pub mid: u64, pub alpha: Option<u64> }
impl Obj for N_qqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qqo { zeta: <u64 as G>::g(c), mid: <u64 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qqo(pub u64, u64, pub Option<u64>);
impl Obj for T_qqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qqo(<u64 as G>::g(c), <u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qvb { pub zeta: u64, pub mid: Vec<u8>, pub alpha: u8 }
impl Obj for N_qvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qvb { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qvb(pub u64, Vec<u8>, pub u8);
impl Obj for T_qvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qvb(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qvq { pub zeta: u64, pub mid: Vec<u8>, pub alpha: u64 }
impl Obj for N_qvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qvq { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qvq(pub u64, Vec<u8>, pub u64);
impl Obj for T_qvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qvq(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qvv { pub zeta: u64, pub mid: Vec<u8>, pub alpha: Vec<u8> }
impl Obj for N_qvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qvv { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qvv(pub u64, Vec<u8>, pub Vec<u8>);
impl Obj for T_qvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qvv(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qvc { pub zeta: u64, pub mid: Vec<u8>, pub alpha: Currency }
impl Obj for N_qvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qvc { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qvc(pub u64, Vec<u8>, pub Currency);
impl Obj for T_qvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qvc(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qvo { pub zeta: u64, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for N_qvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qvo { zeta: <u64 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qvo(pub u64, Vec<u8>, pub Option<u64>);
impl Obj for T_qvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qvo(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qcb { pub zeta: u64, pub mid: Currency, pub alpha: u8 }
impl Obj for N_qcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qcb { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qcb(pub u64, Currency, pub u8);
impl Obj for T_qcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qcb(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qcq { pub zeta: u64, pub mid: Currency, pub alpha: u64 }
impl Obj for N_qcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qcq { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qcq(pub u64, Currency, pub u64);
impl Obj for T_qcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qcq(<u64 as G>::g(c), <Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qcv { pub zeta: u64, pub mid: Currency, pub alpha: Vec<u8> }
impl Obj for N_qcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qcv { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qcv(pub u64, Currency, pub Vec<u8>);
impl Obj for T_qcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qcv(<u64 as G>::g(c), <Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qcc { pub zeta: u64, pub mid: Currency, pub alpha: Currency }
impl Obj for N_qcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qcc { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qcc(pub u64, Currency, pub Currency);
impl Obj for T_qcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qcc(<u64 as G>::g(c), <Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qco { pub zeta: u64, pub mid: Currency, pub alpha: Option<u64> }
impl Obj for N_qco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qco { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qco(pub u64, Currency, pub Option<u64>);
impl Obj for T_qco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qco(<u64 as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qob { pub zeta: u64, pub mid: Option<u64>, pub alpha: u8 }
impl Obj for N_qob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qob { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qob(pub u64, Option<u64>, pub u8);
impl Obj for T_qob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qob(<u64 as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qoq { pub zeta: u64, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for N_qoq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qoq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qoq { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qoq(pub u64, Option<u64>, pub u64);
impl Obj for T_qoq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qoq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qoq(<u64 as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qov { pub zeta: u64, pub mid: Option<u64>, pub alpha: Vec<u8> }
impl Obj for N_qov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qov { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qov(pub u64, Option<u64>, pub Vec<u8>);
impl Obj for T_qov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qov(<u64 as G>::g(c), <Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qoc { pub zeta: u64, pub mid: Option<u64>, pub alpha: Currency }
impl Obj for N_qoc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qoc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qoc { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qoc(pub u64, Option<u64>, pub Currency);
impl Obj for T_qoc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qoc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qoc(<u64 as G>::g(c), <Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_qoo { pub zeta: u64, pub mid: Option<u64>, pub alpha: Option<u64> }
impl Obj for N_qoo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_qoo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_qoo { zeta: <u64 as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_qoo(pub u64, Option<u64>, pub Option<u64>);
impl Obj for T_qoo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_qoo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_qoo(<u64 as G>::g(c), <Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vbb { pub zeta: Vec<u8>, pub mid: u8, pub alpha: u8 }
impl Obj for N_vbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vbb { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vbb(pub Vec<u8>, u8, pub u8);
impl Obj for T_vbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vbb(<Vec<u8> as G>::g(c), <u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vbq { pub zeta: Vec<u8>, pub mid: u8, pub alpha: u64 }
impl Obj for N_vbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vbq { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vbq(pub Vec<u8>, u8, pub u64);
impl Obj for T_vbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vbq(<Vec<u8> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vbv { pub zeta: Vec<u8>, pub mid: u8, pub alpha: Vec<u8> }
impl Obj for N_vbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vbv { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vbv(pub Vec<u8>, u8, pub Vec<u8>);
impl Obj for T_vbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vbv(<Vec<u8> as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vbc { pub zeta: Vec<u8>, pub mid: u8, pub alpha: Currency }
impl Obj for N_vbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vbc { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vbc(pub Vec<u8>, u8, pub Currency);
impl Obj for T_vbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vbc(<Vec<u8> as G>::g(c), <u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vbo { pub zeta: Vec<u8>, pub mid: u8, pub alpha: Option<u64> }
impl Obj for N_vbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vbo { zeta: <Vec<u8> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vbo(pub Vec<u8>, u8, pub Option<u64>);
impl Obj for T_vbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vbo(<Vec<u8> as G>::g(c), <u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vqb { pub zeta: Vec<u8>, pub mid: u64, pub alpha: u8 }
impl Obj for N_vqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vqb { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vqb(pub Vec<u8>, u64, pub u8);
impl Obj for T_vqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vqb(<Vec<u8> as G>::g(c), <u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vqq { pub zeta: Vec<u8>, pub mid: u64, pub alpha: u64 }
impl Obj for N_vqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vqq { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vqq(pub Vec<u8>, u64, pub u64);
impl Obj for T_vqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vqq(<Vec<u8> as G>::g(c), <u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vqv { pub zeta: Vec<u8>, pub mid: u64, pub alpha: Vec<u8> }
impl Obj for N_vqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vqv { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vqv(pub Vec<u8>, u64, pub Vec<u8>);
impl Obj for T_vqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vqv(<Vec<u8> as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vqc { pub zeta: Vec<u8>, pub mid: u64, pub alpha: Currency }
impl Obj for N_vqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vqc { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vqc(pub Vec<u8>, u64, pub Currency);
impl Obj for T_vqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vqc(<Vec<u8> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vqo { pub zeta: Vec<u8>, pub mid: u64, pub alpha: Option<u64> }
impl Obj for N_vqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vqo { zeta: <Vec<u8> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vqo(pub Vec<u8>, u64, pub Option<u64>);
impl Obj for T_vqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vqo(<Vec<u8> as G>::g(c), <u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vvb { pub zeta: Vec<u8>, pub mid: Vec<u8>, pub alpha: u8 }
impl Obj for N_vvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vvb { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vvb(pub Vec<u8>, Vec<u8>, pub u8);
impl Obj for T_vvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vvb(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vvq { pub zeta: Vec<u8>, pub mid: Vec<u8>, pub alpha: u64 }
impl Obj for N_vvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vvq { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vvq(pub Vec<u8>, Vec<u8>, pub u64);
impl Obj for T_vvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vvq(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vvv { pub zeta: Vec<u8>, pub mid: Vec<u8>, pub alpha: Vec<u8> }
impl Obj for N_vvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vvv { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vvv(pub Vec<u8>, Vec<u8>, pub Vec<u8>);
impl Obj for T_vvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vvv(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vvc { pub zeta: Vec<u8>, pub mid: Vec<u8>, pub alpha: Currency }
impl Obj for N_vvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vvc { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vvc(pub Vec<u8>, Vec<u8>, pub Currency);
impl Obj for T_vvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vvc(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vvo { pub zeta: Vec<u8>, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for N_vvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vvo { zeta: <Vec<u8> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vvo(pub Vec<u8>, Vec<u8>, pub Option<u64>);
impl Obj for T_vvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vvo(<Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vcb { pub zeta: Vec<u8>, pub mid: Currency, pub alpha: u8 }
impl Obj for N_vcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vcb { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vcb(pub Vec<u8>, Currency, pub u8);
impl Obj for T_vcb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vcb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vcb(<Vec<u8> as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vcq { pub zeta: Vec<u8>, pub mid: Currency, pub alpha: u64 }
impl Obj for N_vcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vcq { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vcq(pub Vec<u8>, Currency, pub u64);
impl Obj for T_vcq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vcq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vcq(<Vec<u8> as G>::g(c), <Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vcv { pub zeta: Vec<u8>, pub mid: Currency, pub alpha: Vec<u8> }
impl Obj for N_vcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vcv { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vcv(pub Vec<u8>, Currency, pub Vec<u8>);
impl Obj for T_vcv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vcv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vcv(<Vec<u8> as G>::g(c), <Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vcc { pub zeta: Vec<u8>, pub mid: Currency, pub alpha: Currency }
impl Obj for N_vcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vcc { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vcc(pub Vec<u8>, Currency, pub Currency);
impl Obj for T_vcc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vcc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vcc(<Vec<u8> as G>::g(c), <Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vco { pub zeta: Vec<u8>, pub mid: Currency, pub alpha: Option<u64> }
impl Obj for N_vco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vco { zeta: <Vec<u8> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vco(pub Vec<u8>, Currency, pub Option<u64>);
impl Obj for T_vco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vco(<Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vob { pub zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: u8 }
impl Obj for N_vob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vob { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vob(pub Vec<u8>, Option<u64>, pub u8);
impl Obj for T_vob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vob(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_voq { pub zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for N_voq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_voq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_voq { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_voq(pub Vec<u8>, Option<u64>, pub u64);
impl Obj for T_voq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_voq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_voq(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_vov { pub zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: Vec<u8> }
impl Obj for N_vov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_vov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_vov { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_vov(pub Vec<u8>, Option<u64>, pub Vec<u8>);
impl Obj for T_vov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_vov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_vov(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_voc { pub zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: Currency }
impl Obj for N_voc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_voc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_voc { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_voc(pub Vec<u8>, Option<u64>, pub Currency);
impl Obj for T_voc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_voc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_voc(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_voo { pub zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: Option<u64> }
impl Obj for N_voo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_voo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_voo { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_voo(pub Vec<u8>, Option<u64>, pub Option<u64>);
impl Obj for T_voo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_voo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_voo(<Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cbb { pub zeta: Currency, pub mid: u8, pub alpha: u8 }
impl Obj for N_cbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cbb { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cbb(pub Currency, u8, pub u8);
impl Obj for T_cbb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cbb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cbb(<Currency as G>::g(c), <u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cbq { pub zeta: Currency, pub mid: u8, pub alpha: u64 }
impl Obj for N_cbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cbq { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cbq(pub Currency, u8, pub u64);
impl Obj for T_cbq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cbq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cbq(<Currency as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cbv { pub zeta: Currency, pub mid: u8, pub alpha: Vec<u8> }
impl Obj for N_cbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cbv { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cbv(pub Currency, u8, pub Vec<u8>);
impl Obj for T_cbv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cbv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cbv(<Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cbc { pub zeta: Currency, pub mid: u8, pub alpha: Currency }
impl Obj for N_cbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cbc { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cbc(pub Currency, u8, pub Currency);
impl Obj for T_cbc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cbc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cbc(<Currency as G>::g(c), <u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cbo { pub zeta: Currency, pub mid: u8, pub alpha: Option<u64> }
impl Obj for N_cbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cbo { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cbo(pub Currency, u8, pub Option<u64>);
impl Obj for T_cbo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cbo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cbo(<Currency as G>::g(c), <u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cqb { pub zeta: Currency, pub mid: u64, pub alpha: u8 }
impl Obj for N_cqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cqb { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cqb(pub Currency, u64, pub u8);
impl Obj for T_cqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cqb(<Currency as G>::g(c), <u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cqq { pub zeta: Currency, pub mid: u64, pub alpha: u64 }
impl Obj for N_cqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cqq { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cqq(pub Currency, u64, pub u64);
impl Obj for T_cqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cqq(<Currency as G>::g(c), <u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cqv { pub zeta: Currency, pub mid: u64, pub alpha: Vec<u8> }
impl Obj for N_cqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cqv { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cqv(pub Currency, u64, pub Vec<u8>);
impl Obj for T_cqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cqv(<Currency as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cqc { pub zeta: Currency, pub mid: u64, pub alpha: Currency }
impl Obj for N_cqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cqc { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cqc(pub Currency, u64, pub Currency);
impl Obj for T_cqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cqc(<Currency as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cqo { pub zeta: Currency, pub mid: u64, pub alpha: Option<u64> }
impl Obj for N_cqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cqo { zeta: <Currency as G>::g(c), mid: <u64 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cqo(pub Currency, u64, pub Option<u64>);
impl Obj for T_cqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cqo(<Currency as G>::g(c), <u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cvb { pub zeta: Currency, pub mid: Vec<u8>, pub alpha: u8 }
impl Obj for N_cvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cvb { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cvb(pub Currency, Vec<u8>, pub u8);
impl Obj for T_cvb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cvb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cvb(<Currency as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cvq { pub zeta: Currency, pub mid: Vec<u8>, pub alpha: u64 }
impl Obj for N_cvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cvq { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cvq(pub Currency, Vec<u8>, pub u64);
impl Obj for T_cvq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cvq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cvq(<Currency as G>::g(c), <Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cvv { pub zeta: Currency, pub mid: Vec<u8>, pub alpha: Vec<u8> }
impl Obj for N_cvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cvv { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cvv(pub Currency, Vec<u8>, pub Vec<u8>);
impl Obj for T_cvv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cvv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cvv(<Currency as G>::g(c), <Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cvc { pub zeta: Currency, pub mid: Vec<u8>, pub alpha: Currency }
impl Obj for N_cvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cvc { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cvc(pub Currency, Vec<u8>, pub Currency);
impl Obj for T_cvc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cvc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cvc(<Currency as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cvo { pub zeta: Currency, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for N_cvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cvo { zeta: <Currency as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cvo(pub Currency, Vec<u8>, pub Option<u64>);
impl Obj for T_cvo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cvo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cvo(<Currency as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ccb { pub zeta: Currency, pub mid: Currency, pub alpha: u8 }
impl Obj for N_ccb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ccb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ccb { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ccb(pub Currency, Currency, pub u8);
impl Obj for T_ccb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ccb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ccb(<Currency as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ccq { pub zeta: Currency, pub mid: Currency, pub alpha: u64 }
impl Obj for N_ccq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ccq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ccq { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ccq(pub Currency, Currency, pub u64);
impl Obj for T_ccq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ccq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ccq(<Currency as G>::g(c), <Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ccv { pub zeta: Currency, pub mid: Currency, pub alpha: Vec<u8> }
impl Obj for N_ccv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ccv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ccv { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ccv(pub Currency, Currency, pub Vec<u8>);
impl Obj for T_ccv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ccv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ccv(<Currency as G>::g(c), <Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ccc { pub zeta: Currency, pub mid: Currency, pub alpha: Currency }
impl Obj for N_ccc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ccc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ccc { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ccc(pub Currency, Currency, pub Currency);
impl Obj for T_ccc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ccc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ccc(<Currency as G>::g(c), <Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cco { pub zeta: Currency, pub mid: Currency, pub alpha: Option<u64> }
impl Obj for N_cco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cco { zeta: <Currency as G>::g(c), mid: <Currency as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cco(pub Currency, Currency, pub Option<u64>);
impl Obj for T_cco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cco(<Currency as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cob { pub zeta: Currency, pub mid: Option<u64>, pub alpha: u8 }
impl Obj for N_cob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cob { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cob(pub Currency, Option<u64>, pub u8);
impl Obj for T_cob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cob(<Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_coq { pub zeta: Currency, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for N_coq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_coq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_coq { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_coq(pub Currency, Option<u64>, pub u64);
impl Obj for T_coq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_coq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_coq(<Currency as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_cov { pub zeta: Currency, pub mid: Option<u64>, pub alpha: Vec<u8> }
impl Obj for N_cov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_cov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_cov { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_cov(pub Currency, Option<u64>, pub Vec<u8>);
impl Obj for T_cov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_cov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_cov(<Currency as G>::g(c), <Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_coc { pub zeta: Currency, pub mid: Option<u64>, pub alpha: Currency }
impl Obj for N_coc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_coc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_coc { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_coc(pub Currency, Option<u64>, pub Currency);
impl Obj for T_coc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_coc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_coc(<Currency as G>::g(c), <Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_coo { pub zeta: Currency, pub mid: Option<u64>, pub alpha: Option<u64> }
impl Obj for N_coo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_coo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_coo { zeta: <Currency as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_coo(pub Currency, Option<u64>, pub Option<u64>);
impl Obj for T_coo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_coo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_coo(<Currency as G>::g(c), <Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_obb { pub zeta: Option<u64>, pub mid: u8, pub alpha: u8 }
impl Obj for N_obb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_obb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_obb { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_obb(pub Option<u64>, u8, pub u8);
impl Obj for T_obb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_obb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_obb(<Option<u64> as G>::g(c), <u8 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_obq { pub zeta: Option<u64>, pub mid: u8, pub alpha: u64 }
impl Obj for N_obq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_obq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_obq { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_obq(pub Option<u64>, u8, pub u64);
impl Obj for T_obq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_obq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_obq(<Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_obv { pub zeta: Option<u64>, pub mid: u8, pub alpha: Vec<u8> }
impl Obj for N_obv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_obv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_obv { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_obv(pub Option<u64>, u8, pub Vec<u8>);
impl Obj for T_obv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_obv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_obv(<Option<u64> as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_obc { pub zeta: Option<u64>, pub mid: u8, pub alpha: Currency }
impl Obj for N_obc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_obc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_obc { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_obc(pub Option<u64>, u8, pub Currency);
impl Obj for T_obc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_obc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_obc(<Option<u64> as G>::g(c), <u8 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_obo { pub zeta: Option<u64>, pub mid: u8, pub alpha: Option<u64> }
impl Obj for N_obo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_obo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_obo { zeta: <Option<u64> as G>::g(c), mid: <u8 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_obo(pub Option<u64>, u8, pub Option<u64>);
impl Obj for T_obo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_obo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_obo(<Option<u64> as G>::g(c), <u8 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oqb { pub zeta: Option<u64>, pub mid: u64, pub alpha: u8 }
impl Obj for N_oqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oqb { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oqb(pub Option<u64>, u64, pub u8);
impl Obj for T_oqb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oqb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oqb(<Option<u64> as G>::g(c), <u64 as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oqq { pub zeta: Option<u64>, pub mid: u64, pub alpha: u64 }
impl Obj for N_oqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oqq { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oqq(pub Option<u64>, u64, pub u64);
impl Obj for T_oqq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oqq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oqq(<Option<u64> as G>::g(c), <u64 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oqv { pub zeta: Option<u64>, pub mid: u64, pub alpha: Vec<u8> }
impl Obj for N_oqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oqv { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oqv(pub Option<u64>, u64, pub Vec<u8>);
impl Obj for T_oqv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oqv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oqv(<Option<u64> as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oqc { pub zeta: Option<u64>, pub mid: u64, pub alpha: Currency }
impl Obj for N_oqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oqc { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oqc(pub Option<u64>, u64, pub Currency);
impl Obj for T_oqc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oqc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oqc(<Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oqo { pub zeta: Option<u64>, pub mid: u64, pub alpha: Option<u64> }
impl Obj for N_oqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oqo { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oqo(pub Option<u64>, u64, pub Option<u64>);
impl Obj for T_oqo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oqo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oqo(<Option<u64> as G>::g(c), <u64 as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ovb { pub zeta: Option<u64>, pub mid: Vec<u8>, pub alpha: u8 }
impl Obj for N_ovb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ovb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ovb { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ovb(pub Option<u64>, Vec<u8>, pub u8);
impl Obj for T_ovb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ovb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ovb(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ovq { pub zeta: Option<u64>, pub mid: Vec<u8>, pub alpha: u64 }
impl Obj for N_ovq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ovq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ovq { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ovq(pub Option<u64>, Vec<u8>, pub u64);
impl Obj for T_ovq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ovq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ovq(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ovv { pub zeta: Option<u64>, pub mid: Vec<u8>, pub alpha: Vec<u8> }
impl Obj for N_ovv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ovv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ovv { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ovv(pub Option<u64>, Vec<u8>, pub Vec<u8>);
impl Obj for T_ovv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ovv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ovv(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ovc { pub zeta: Option<u64>, pub mid: Vec<u8>, pub alpha: Currency }
impl Obj for N_ovc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ovc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ovc { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ovc(pub Option<u64>, Vec<u8>, pub Currency);
impl Obj for T_ovc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ovc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ovc(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ovo { pub zeta: Option<u64>, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for N_ovo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ovo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ovo { zeta: <Option<u64> as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ovo(pub Option<u64>, Vec<u8>, pub Option<u64>);
impl Obj for T_ovo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ovo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ovo(<Option<u64> as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ocb { pub zeta: Option<u64>, pub mid: Currency, pub alpha: u8 }
impl Obj for N_ocb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ocb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ocb { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ocb(pub Option<u64>, Currency, pub u8);
impl Obj for T_ocb {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ocb(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ocb(<Option<u64> as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ocq { pub zeta: Option<u64>, pub mid: Currency, pub alpha: u64 }
impl Obj for N_ocq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ocq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ocq { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ocq(pub Option<u64>, Currency, pub u64);
impl Obj for T_ocq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ocq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ocq(<Option<u64> as G>::g(c), <Currency as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ocv { pub zeta: Option<u64>, pub mid: Currency, pub alpha: Vec<u8> }
impl Obj for N_ocv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ocv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ocv { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ocv(pub Option<u64>, Currency, pub Vec<u8>);
impl Obj for T_ocv {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ocv(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ocv(<Option<u64> as G>::g(c), <Currency as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_occ { pub zeta: Option<u64>, pub mid: Currency, pub alpha: Currency }
impl Obj for N_occ {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_occ(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_occ { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_occ(pub Option<u64>, Currency, pub Currency);
impl Obj for T_occ {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_occ(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_occ(<Option<u64> as G>::g(c), <Currency as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oco { pub zeta: Option<u64>, pub mid: Currency, pub alpha: Option<u64> }
impl Obj for N_oco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oco { zeta: <Option<u64> as G>::g(c), mid: <Currency as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oco(pub Option<u64>, Currency, pub Option<u64>);
impl Obj for T_oco {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oco(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oco(<Option<u64> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oob { pub zeta: Option<u64>, pub mid: Option<u64>, pub alpha: u8 }
impl Obj for N_oob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oob { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oob(pub Option<u64>, Option<u64>, pub u8);
impl Obj for T_oob {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oob(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oob(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ooq { pub zeta: Option<u64>, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for N_ooq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ooq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ooq { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ooq(pub Option<u64>, Option<u64>, pub u64);
impl Obj for T_ooq {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ooq(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ooq(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_oov { pub zeta: Option<u64>, pub mid: Option<u64>, pub alpha: Vec<u8> }
impl Obj for N_oov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_oov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_oov { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_oov(pub Option<u64>, Option<u64>, pub Vec<u8>);
impl Obj for T_oov {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_oov(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_oov(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ooc { pub zeta: Option<u64>, pub mid: Option<u64>, pub alpha: Currency }
impl Obj for N_ooc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ooc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ooc { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ooc(pub Option<u64>, Option<u64>, pub Currency);
impl Obj for T_ooc {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ooc(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ooc(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct N_ooo { pub zeta: Option<u64>, pub mid: Option<u64>, pub alpha: Option<u64> }
impl Obj for N_ooo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_N_ooo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(N_ooo { zeta: <Option<u64> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct T_ooo(pub Option<u64>, Option<u64>, pub Option<u64>);
impl Obj for T_ooo {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_T_ooo(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(T_ooo(<Option<u64> as G>::g(c), <Option<u64> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_x0 { zeta: u8 }
impl Obj for V_x0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_x0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_x0 { zeta: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_x1 { zeta: u64 }
impl Obj for V_x1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_x1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_x1 { zeta: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_x2 { zeta: Vec<u8> }
impl Obj for V_x2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_x2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_x2 { zeta: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_x3 { zeta: Currency }
impl Obj for V_x3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_x3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_x3 { zeta: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_x4 { zeta: Option<u64> }
impl Obj for V_x4 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_x4(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_x4 { zeta: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xx0 { zeta: u8, mid: Vec<u8> }
impl Obj for V_xx0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xx0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xx0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xx1 { zeta: u64, mid: Currency }
impl Obj for V_xx1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xx1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xx1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xx2 { zeta: Vec<u8>, mid: Option<u64> }
impl Obj for V_xx2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xx2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xx2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xx3 { zeta: Currency, mid: u8 }
impl Obj for V_xx3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xx3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xx3 { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xx4 { zeta: Option<u64>, mid: u64 }
impl Obj for V_xx4 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xx4(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xx4 { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xp0 { zeta: u8, pub mid: Vec<u8> }
impl Obj for V_xp0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xp0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xp0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xp1 { zeta: u64, pub mid: Currency }
impl Obj for V_xp1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xp1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xp1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xp2 { zeta: Vec<u8>, pub mid: Option<u64> }
impl Obj for V_xp2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xp2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xp2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xp3 { zeta: Currency, pub mid: u8 }
impl Obj for V_xp3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xp3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xp3 { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xp4 { zeta: Option<u64>, pub mid: u64 }
impl Obj for V_xp4 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xp4(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xp4 { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_px0 { pub zeta: u8, mid: Vec<u8> }
impl Obj for V_px0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_px0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_px0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_px1 { pub zeta: u64, mid: Currency }
impl Obj for V_px1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_px1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_px1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_px2 { pub zeta: Vec<u8>, mid: Option<u64> }
impl Obj for V_px2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_px2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_px2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_px3 { pub zeta: Currency, mid: u8 }
impl Obj for V_px3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_px3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_px3 { zeta: <Currency as G>::g(c), mid: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_px4 { pub zeta: Option<u64>, mid: u64 }
impl Obj for V_px4 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_px4(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_px4 { zeta: <Option<u64> as G>::g(c), mid: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxx0 { zeta: u8, mid: Vec<u8>, alpha: Option<u64> }
impl Obj for V_xxx0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxx0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxx0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxx1 { zeta: u64, mid: Currency, alpha: u8 }
impl Obj for V_xxx1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxx1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxx1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxx2 { zeta: Vec<u8>, mid: Option<u64>, alpha: u64 }
impl Obj for V_xxx2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); let _ = p;
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxx2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxx2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxp0 { zeta: u8, mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for V_xxp0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxp0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxp0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxp1 { zeta: u64, mid: Currency, pub alpha: u8 }
impl Obj for V_xxp1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxp1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxp1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xxp2 { zeta: Vec<u8>, mid: Option<u64>, pub alpha: u64 }
impl Obj for V_xxp2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xxp2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xxp2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpx0 { zeta: u8, pub mid: Vec<u8>, alpha: Option<u64> }
impl Obj for V_xpx0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpx0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpx0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpx1 { zeta: u64, pub mid: Currency, alpha: u8 }
impl Obj for V_xpx1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpx1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpx1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpx2 { zeta: Vec<u8>, pub mid: Option<u64>, alpha: u64 }
impl Obj for V_xpx2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpx2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpx2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpp0 { zeta: u8, pub mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for V_xpp0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpp0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpp0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpp1 { zeta: u64, pub mid: Currency, pub alpha: u8 }
impl Obj for V_xpp1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpp1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpp1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_xpp2 { zeta: Vec<u8>, pub mid: Option<u64>, pub alpha: u64 }
impl Obj for V_xpp2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.mid.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_xpp2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_xpp2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxx0 { pub zeta: u8, mid: Vec<u8>, alpha: Option<u64> }
impl Obj for V_pxx0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxx0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxx0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxx1 { pub zeta: u64, mid: Currency, alpha: u8 }
impl Obj for V_pxx1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxx1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxx1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxx2 { pub zeta: Vec<u8>, mid: Option<u64>, alpha: u64 }
impl Obj for V_pxx2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxx2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxx2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxp0 { pub zeta: u8, mid: Vec<u8>, pub alpha: Option<u64> }
impl Obj for V_pxp0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxp0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxp0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxp1 { pub zeta: u64, mid: Currency, pub alpha: u8 }
impl Obj for V_pxp1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxp1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxp1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_pxp2 { pub zeta: Vec<u8>, mid: Option<u64>, pub alpha: u64 }
impl Obj for V_pxp2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.alpha.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_pxp2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_pxp2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_ppx0 { pub zeta: u8, pub mid: Vec<u8>, alpha: Option<u64> }
impl Obj for V_ppx0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_ppx0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_ppx0 { zeta: <u8 as G>::g(c), mid: <Vec<u8> as G>::g(c), alpha: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_ppx1 { pub zeta: u64, pub mid: Currency, alpha: u8 }
impl Obj for V_ppx1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_ppx1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_ppx1 { zeta: <u64 as G>::g(c), mid: <Currency as G>::g(c), alpha: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, V1SiaEncode, V1SiaDecode)]
pub struct V_ppx2 { pub zeta: Vec<u8>, pub mid: Option<u64>, alpha: u64 }
impl Obj for V_ppx2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.zeta.e1(o); self.mid.e1(o); self.alpha.e1(o); self.zeta.e2(p); self.mid.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { let _ = r; Ok(false) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_V_ppx2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(V_ppx2 { zeta: <Vec<u8> as G>::g(c), mid: <Option<u64> as G>::g(c), alpha: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN4_0 { pub f28_0: u8, pub f21_1: u64, pub f14_2: Vec<u8>, pub f7_3: Currency }
impl Obj for WN4_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f28_0.e1(o); self.f21_1.e1(o); self.f14_2.e1(o); self.f7_3.e1(o); self.f28_0.e2(p); self.f21_1.e2(p); self.f14_2.e2(p); self.f7_3.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN4_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN4_0 { f28_0: <u8 as G>::g(c), f21_1: <u64 as G>::g(c), f14_2: <Vec<u8> as G>::g(c), f7_3: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT4_0(pub u8, pub u64, pub Vec<u8>, pub Currency);
impl Obj for WT4_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT4_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT4_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN4_1 { pub f28_0: u64, pub f21_1: Currency, pub f14_2: u8, pub f7_3: Vec<u8> }
impl Obj for WN4_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f28_0.e1(o); self.f21_1.e1(o); self.f14_2.e1(o); self.f7_3.e1(o); self.f28_0.e2(p); self.f21_1.e2(p); self.f14_2.e2(p); self.f7_3.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN4_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN4_1 { f28_0: <u64 as G>::g(c), f21_1: <Currency as G>::g(c), f14_2: <u8 as G>::g(c), f7_3: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT4_1(pub u64, pub Currency, pub u8, pub Vec<u8>);
impl Obj for WT4_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT4_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT4_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN5_0 { pub f35_0: u8, pub f28_1: u64, pub f21_2: Vec<u8>, pub f14_3: Currency, pub f7_4: Option<u64> }
impl Obj for WN5_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f35_0.e1(o); self.f28_1.e1(o); self.f21_2.e1(o); self.f14_3.e1(o); self.f7_4.e1(o); self.f35_0.e2(p); self.f28_1.e2(p); self.f21_2.e2(p); self.f14_3.e2(p); self.f7_4.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN5_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN5_0 { f35_0: <u8 as G>::g(c), f28_1: <u64 as G>::g(c), f21_2: <Vec<u8> as G>::g(c), f14_3: <Currency as G>::g(c), f7_4: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT5_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>);
impl Obj for WT5_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT5_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT5_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN5_1 { pub f35_0: u64, pub f28_1: Currency, pub f21_2: u8, pub f14_3: Vec<u8>, pub f7_4: Option<u64> }
impl Obj for WN5_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f35_0.e1(o); self.f28_1.e1(o); self.f21_2.e1(o); self.f14_3.e1(o); self.f7_4.e1(o); self.f35_0.e2(p); self.f28_1.e2(p); self.f21_2.e2(p); self.f14_3.e2(p); self.f7_4.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN5_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN5_1 { f35_0: <u64 as G>::g(c), f28_1: <Currency as G>::g(c), f21_2: <u8 as G>::g(c), f14_3: <Vec<u8> as G>::g(c), f7_4: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT5_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>);
impl Obj for WT5_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT5_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT5_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN8_0 { pub f56_0: u8, pub f49_1: u64, pub f42_2: Vec<u8>, pub f35_3: Currency, pub f28_4: Option<u64>, pub f21_5: u8, pub f14_6: u64, pub f7_7: Vec<u8> }
impl Obj for WN8_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f56_0.e1(o); self.f49_1.e1(o); self.f42_2.e1(o); self.f35_3.e1(o); self.f28_4.e1(o); self.f21_5.e1(o); self.f14_6.e1(o); self.f7_7.e1(o); self.f56_0.e2(p); self.f49_1.e2(p); self.f42_2.e2(p); self.f35_3.e2(p); self.f28_4.e2(p); self.f21_5.e2(p); self.f14_6.e2(p); self.f7_7.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN8_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN8_0 { f56_0: <u8 as G>::g(c), f49_1: <u64 as G>::g(c), f42_2: <Vec<u8> as G>::g(c), f35_3: <Currency as G>::g(c), f28_4: <Option<u64> as G>::g(c), f21_5: <u8 as G>::g(c), f14_6: <u64 as G>::g(c), f7_7: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT8_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>);
impl Obj for WT8_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT8_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT8_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN8_1 { pub f56_0: u64, pub f49_1: Currency, pub f42_2: u8, pub f35_3: Vec<u8>, pub f28_4: Option<u64>, pub f21_5: u64, pub f14_6: Currency, pub f7_7: u8 }
impl Obj for WN8_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f56_0.e1(o); self.f49_1.e1(o); self.f42_2.e1(o); self.f35_3.e1(o); self.f28_4.e1(o); self.f21_5.e1(o); self.f14_6.e1(o); self.f7_7.e1(o); self.f56_0.e2(p); self.f49_1.e2(p); self.f42_2.e2(p); self.f35_3.e2(p); self.f28_4.e2(p); self.f21_5.e2(p); self.f14_6.e2(p); self.f7_7.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN8_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN8_1 { f56_0: <u64 as G>::g(c), f49_1: <Currency as G>::g(c), f42_2: <u8 as G>::g(c), f35_3: <Vec<u8> as G>::g(c), f28_4: <Option<u64> as G>::g(c), f21_5: <u64 as G>::g(c), f14_6: <Currency as G>::g(c), f7_7: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT8_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8);
impl Obj for WT8_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT8_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT8_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN11_0 { pub f77_0: u8, pub f70_1: u64, pub f63_2: Vec<u8>, pub f56_3: Currency, pub f49_4: Option<u64>, pub f42_5: u8, pub f35_6: u64, pub f28_7: Vec<u8>, pub f21_8: Currency, pub f14_9: Option<u64>, pub f7_10: u8 }
impl Obj for WN11_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f77_0.e1(o); self.f70_1.e1(o); self.f63_2.e1(o); self.f56_3.e1(o); self.f49_4.e1(o); self.f42_5.e1(o); self.f35_6.e1(o); self.f28_7.e1(o); self.f21_8.e1(o); self.f14_9.e1(o); self.f7_10.e1(o); self.f77_0.e2(p); self.f70_1.e2(p); self.f63_2.e2(p); self.f56_3.e2(p); self.f49_4.e2(p); self.f42_5.e2(p); self.f35_6.e2(p); self.f28_7.e2(p); self.f21_8.e2(p); self.f14_9.e2(p); self.f7_10.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN11_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN11_0 { f77_0: <u8 as G>::g(c), f70_1: <u64 as G>::g(c), f63_2: <Vec<u8> as G>::g(c), f56_3: <Currency as G>::g(c), f49_4: <Option<u64> as G>::g(c), f42_5: <u8 as G>::g(c), f35_6: <u64 as G>::g(c), f28_7: <Vec<u8> as G>::g(c), f21_8: <Currency as G>::g(c), f14_9: <Option<u64> as G>::g(c), f7_10: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT11_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8);
impl Obj for WT11_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT11_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT11_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN11_1 { pub f77_0: u64, pub f70_1: Currency, pub f63_2: u8, pub f56_3: Vec<u8>, pub f49_4: Option<u64>, pub f42_5: u64, pub f35_6: Currency, pub f28_7: u8, pub f21_8: Vec<u8>, pub f14_9: Option<u64>, pub f7_10: u64 }
impl Obj for WN11_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f77_0.e1(o); self.f70_1.e1(o); self.f63_2.e1(o); self.f56_3.e1(o); self.f49_4.e1(o); self.f42_5.e1(o); self.f35_6.e1(o); self.f28_7.e1(o); self.f21_8.e1(o); self.f14_9.e1(o); self.f7_10.e1(o); self.f77_0.e2(p); self.f70_1.e2(p); self.f63_2.e2(p); self.f56_3.e2(p); self.f49_4.e2(p); self.f42_5.e2(p); self.f35_6.e2(p); self.f28_7.e2(p); self.f21_8.e2(p); self.f14_9.e2(p); self.f7_10.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN11_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN11_1 { f77_0: <u64 as G>::g(c), f70_1: <Currency as G>::g(c), f63_2: <u8 as G>::g(c), f56_3: <Vec<u8> as G>::g(c), f49_4: <Option<u64> as G>::g(c), f42_5: <u64 as G>::g(c), f35_6: <Currency as G>::g(c), f28_7: <u8 as G>::g(c), f21_8: <Vec<u8> as G>::g(c), f14_9: <Option<u64> as G>::g(c), f7_10: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT11_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64);
impl Obj for WT11_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT11_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT11_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN12_0 { pub f84_0: u8, pub f77_1: u64, pub f70_2: Vec<u8>, pub f63_3: Currency, pub f56_4: Option<u64>, pub f49_5: u8, pub f42_6: u64, pub f35_7: Vec<u8>, pub f28_8: Currency, pub f21_9: Option<u64>, pub f14_10: u8, pub f7_11: u64 }
impl Obj for WN12_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f84_0.e1(o); self.f77_1.e1(o); self.f70_2.e1(o); self.f63_3.e1(o); self.f56_4.e1(o); self.f49_5.e1(o); self.f42_6.e1(o); self.f35_7.e1(o); self.f28_8.e1(o); self.f21_9.e1(o); self.f14_10.e1(o); self.f7_11.e1(o); self.f84_0.e2(p); self.f77_1.e2(p); self.f70_2.e2(p); self.f63_3.e2(p); self.f56_4.e2(p); self.f49_5.e2(p); self.f42_6.e2(p); self.f35_7.e2(p); self.f28_8.e2(p); self.f21_9.e2(p); self.f14_10.e2(p); self.f7_11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN12_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN12_0 { f84_0: <u8 as G>::g(c), f77_1: <u64 as G>::g(c), f70_2: <Vec<u8> as G>::g(c), f63_3: <Currency as G>::g(c), f56_4: <Option<u64> as G>::g(c), f49_5: <u8 as G>::g(c), f42_6: <u64 as G>::g(c), f35_7: <Vec<u8> as G>::g(c), f28_8: <Currency as G>::g(c), f21_9: <Option<u64> as G>::g(c), f14_10: <u8 as G>::g(c), f7_11: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT12_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64);
impl Obj for WT12_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT12_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT12_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN12_1 { pub f84_0: u64, pub f77_1: Currency, pub f70_2: u8, pub f63_3: Vec<u8>, pub f56_4: Option<u64>, pub f49_5: u64, pub f42_6: Currency, pub f35_7: u8, pub f28_8: Vec<u8>, pub f21_9: Option<u64>, pub f14_10: u64, pub f7_11: Currency }
impl Obj for WN12_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f84_0.e1(o); self.f77_1.e1(o); self.f70_2.e1(o); self.f63_3.e1(o); self.f56_4.e1(o); self.f49_5.e1(o); self.f42_6.e1(o); self.f35_7.e1(o); self.f28_8.e1(o); self.f21_9.e1(o); self.f14_10.e1(o); self.f7_11.e1(o); self.f84_0.e2(p); self.f77_1.e2(p); self.f70_2.e2(p); self.f63_3.e2(p); self.f56_4.e2(p); self.f49_5.e2(p); self.f42_6.e2(p); self.f35_7.e2(p); self.f28_8.e2(p); self.f21_9.e2(p); self.f14_10.e2(p); self.f7_11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN12_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN12_1 { f84_0: <u64 as G>::g(c), f77_1: <Currency as G>::g(c), f70_2: <u8 as G>::g(c), f63_3: <Vec<u8> as G>::g(c), f56_4: <Option<u64> as G>::g(c), f49_5: <u64 as G>::g(c), f42_6: <Currency as G>::g(c), f35_7: <u8 as G>::g(c), f28_8: <Vec<u8> as G>::g(c), f21_9: <Option<u64> as G>::g(c), f14_10: <u64 as G>::g(c), f7_11: <Currency as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT12_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency);
impl Obj for WT12_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT12_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT12_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN13_0 { pub f91_0: u8, pub f84_1: u64, pub f77_2: Vec<u8>, pub f70_3: Currency, pub f63_4: Option<u64>, pub f56_5: u8, pub f49_6: u64, pub f42_7: Vec<u8>, pub f35_8: Currency, pub f28_9: Option<u64>, pub f21_10: u8, pub f14_11: u64, pub f7_12: Vec<u8> }
impl Obj for WN13_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f91_0.e1(o); self.f84_1.e1(o); self.f77_2.e1(o); self.f70_3.e1(o); self.f63_4.e1(o); self.f56_5.e1(o); self.f49_6.e1(o); self.f42_7.e1(o); self.f35_8.e1(o); self.f28_9.e1(o); self.f21_10.e1(o); self.f14_11.e1(o); self.f7_12.e1(o); self.f91_0.e2(p); self.f84_1.e2(p); self.f77_2.e2(p); self.f70_3.e2(p); self.f63_4.e2(p); self.f56_5.e2(p); self.f49_6.e2(p); self.f42_7.e2(p); self.f35_8.e2(p); self.f28_9.e2(p); self.f21_10.e2(p); self.f14_11.e2(p); self.f7_12.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN13_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN13_0 { f91_0: <u8 as G>::g(c), f84_1: <u64 as G>::g(c), f77_2: <Vec<u8> as G>::g(c), f70_3: <Currency as G>::g(c), f63_4: <Option<u64> as G>::g(c), f56_5: <u8 as G>::g(c), f49_6: <u64 as G>::g(c), f42_7: <Vec<u8> as G>::g(c), f35_8: <Currency as G>::g(c), f28_9: <Option<u64> as G>::g(c), f21_10: <u8 as G>::g(c), f14_11: <u64 as G>::g(c), f7_12: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT13_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>);
impl Obj for WT13_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT13_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT13_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN13_1 { pub f91_0: u64, pub f84_1: Currency, pub f77_2: u8, pub f70_3: Vec<u8>, pub f63_4: Option<u64>, pub f56_5: u64, pub f49_6: Currency, pub f42_7: u8, pub f35_8: Vec<u8>, pub f28_9: Option<u64>, pub f21_10: u64, pub f14_11: Currency, pub f7_12: u8 }
impl Obj for WN13_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f91_0.e1(o); self.f84_1.e1(o); self.f77_2.e1(o); self.f70_3.e1(o); self.f63_4.e1(o); self.f56_5.e1(o); self.f49_6.e1(o); self.f42_7.e1(o); self.f35_8.e1(o); self.f28_9.e1(o); self.f21_10.e1(o); self.f14_11.e1(o); self.f7_12.e1(o); self.f91_0.e2(p); self.f84_1.e2(p); self.f77_2.e2(p); self.f70_3.e2(p); self.f63_4.e2(p); self.f56_5.e2(p); self.f49_6.e2(p); self.f42_7.e2(p); self.f35_8.e2(p); self.f28_9.e2(p); self.f21_10.e2(p); self.f14_11.e2(p); self.f7_12.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN13_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN13_1 { f91_0: <u64 as G>::g(c), f84_1: <Currency as G>::g(c), f77_2: <u8 as G>::g(c), f70_3: <Vec<u8> as G>::g(c), f63_4: <Option<u64> as G>::g(c), f56_5: <u64 as G>::g(c), f49_6: <Currency as G>::g(c), f42_7: <u8 as G>::g(c), f35_8: <Vec<u8> as G>::g(c), f28_9: <Option<u64> as G>::g(c), f21_10: <u64 as G>::g(c), f14_11: <Currency as G>::g(c), f7_12: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT13_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8);
impl Obj for WT13_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT13_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT13_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN20_0 { pub f39_0: u8, pub f32_1: u64, pub f25_2: Vec<u8>, pub f18_3: Currency, pub f11_4: Option<u64>, pub f4_5: u8, pub f98_6: u64, pub f91_7: Vec<u8>, pub f84_8: Currency, pub f77_9: Option<u64>, pub f70_10: u8, pub f63_11: u64, pub f56_12: Vec<u8>, pub f49_13: Currency, pub f42_14: Option<u64>, pub f35_15: u8, pub f28_16: u64, pub f21_17: Vec<u8>, pub f14_18: Currency, pub f7_19: Option<u64> }
impl Obj for WN20_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f39_0.e1(o); self.f32_1.e1(o); self.f25_2.e1(o); self.f18_3.e1(o); self.f11_4.e1(o); self.f4_5.e1(o); self.f98_6.e1(o); self.f91_7.e1(o); self.f84_8.e1(o); self.f77_9.e1(o); self.f70_10.e1(o); self.f63_11.e1(o); self.f56_12.e1(o); self.f49_13.e1(o); self.f42_14.e1(o); self.f35_15.e1(o); self.f28_16.e1(o); self.f21_17.e1(o); self.f14_18.e1(o); self.f7_19.e1(o); self.f39_0.e2(p); self.f32_1.e2(p); self.f25_2.e2(p); self.f18_3.e2(p); self.f11_4.e2(p); self.f4_5.e2(p); self.f98_6.e2(p); self.f91_7.e2(p); self.f84_8.e2(p); self.f77_9.e2(p); self.f70_10.e2(p); self.f63_11.e2(p); self.f56_12.e2(p); self.f49_13.e2(p); self.f42_14.e2(p); self.f35_15.e2(p); self.f28_16.e2(p); self.f21_17.e2(p); self.f14_18.e2(p); self.f7_19.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN20_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN20_0 { f39_0: <u8 as G>::g(c), f32_1: <u64 as G>::g(c), f25_2: <Vec<u8> as G>::g(c), f18_3: <Currency as G>::g(c), f11_4: <Option<u64> as G>::g(c), f4_5: <u8 as G>::g(c), f98_6: <u64 as G>::g(c), f91_7: <Vec<u8> as G>::g(c), f84_8: <Currency as G>::g(c), f77_9: <Option<u64> as G>::g(c), f70_10: <u8 as G>::g(c), f63_11: <u64 as G>::g(c), f56_12: <Vec<u8> as G>::g(c), f49_13: <Currency as G>::g(c), f42_14: <Option<u64> as G>::g(c), f35_15: <u8 as G>::g(c), f28_16: <u64 as G>::g(c), f21_17: <Vec<u8> as G>::g(c), f14_18: <Currency as G>::g(c), f7_19: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT20_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>);
impl Obj for WT20_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.13.e1(o); self.14.e1(o); self.15.e1(o); self.16.e1(o); self.17.e1(o); self.18.e1(o); self.19.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p); self.13.e2(p); self.14.e2(p); self.15.e2(p); self.16.e2(p); self.17.e2(p); self.18.e2(p); self.19.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT20_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT20_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN20_1 { pub f39_0: u64, pub f32_1: Currency, pub f25_2: u8, pub f18_3: Vec<u8>, pub f11_4: Option<u64>, pub f4_5: u64, pub f98_6: Currency, pub f91_7: u8, pub f84_8: Vec<u8>, pub f77_9: Option<u64>, pub f70_10: u64, pub f63_11: Currency, pub f56_12: u8, pub f49_13: Vec<u8>, pub f42_14: Option<u64>, pub f35_15: u64, pub f28_16: Currency, pub f21_17: u8, pub f14_18: Vec<u8>, pub f7_19: Option<u64> }
impl Obj for WN20_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f39_0.e1(o); self.f32_1.e1(o); self.f25_2.e1(o); self.f18_3.e1(o); self.f11_4.e1(o); self.f4_5.e1(o); self.f98_6.e1(o); self.f91_7.e1(o); self.f84_8.e1(o); self.f77_9.e1(o); self.f70_10.e1(o); self.f63_11.e1(o); self.f56_12.e1(o); self.f49_13.e1(o); self.f42_14.e1(o); self.f35_15.e1(o); self.f28_16.e1(o); self.f21_17.e1(o); self.f14_18.e1(o); self.f7_19.e1(o); self.f39_0.e2(p); self.f32_1.e2(p); self.f25_2.e2(p); self.f18_3.e2(p); self.f11_4.e2(p); self.f4_5.e2(p); self.f98_6.e2(p); self.f91_7.e2(p); self.f84_8.e2(p); self.f77_9.e2(p); self.f70_10.e2(p); self.f63_11.e2(p); self.f56_12.e2(p); self.f49_13.e2(p); self.f42_14.e2(p); self.f35_15.e2(p); self.f28_16.e2(p); self.f21_17.e2(p); self.f14_18.e2(p); self.f7_19.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN20_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN20_1 { f39_0: <u64 as G>::g(c), f32_1: <Currency as G>::g(c), f25_2: <u8 as G>::g(c), f18_3: <Vec<u8> as G>::g(c), f11_4: <Option<u64> as G>::g(c), f4_5: <u64 as G>::g(c), f98_6: <Currency as G>::g(c), f91_7: <u8 as G>::g(c), f84_8: <Vec<u8> as G>::g(c), f77_9: <Option<u64> as G>::g(c), f70_10: <u64 as G>::g(c), f63_11: <Currency as G>::g(c), f56_12: <u8 as G>::g(c), f49_13: <Vec<u8> as G>::g(c), f42_14: <Option<u64> as G>::g(c), f35_15: <u64 as G>::g(c), f28_16: <Currency as G>::g(c), f21_17: <u8 as G>::g(c), f14_18: <Vec<u8> as G>::g(c), f7_19: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT20_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>);
impl Obj for WT20_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.13.e1(o); self.14.e1(o); self.15.e1(o); self.16.e1(o); self.17.e1(o); self.18.e1(o); self.19.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p); self.13.e2(p); self.14.e2(p); self.15.e2(p); self.16.e2(p); self.17.e2(p); self.18.e2(p); self.19.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT20_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT20_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN33_0 { pub f29_0: u8, pub f22_1: u64, pub f15_2: Vec<u8>, pub f8_3: Currency, pub f1_4: Option<u64>, pub f95_5: u8, pub f88_6: u64, pub f81_7: Vec<u8>, pub f74_8: Currency, pub f67_9: Option<u64>, pub f60_10: u8, pub f53_11: u64, pub f46_12: Vec<u8>, pub f39_13: Currency, pub f32_14: Option<u64>, pub f25_15: u8, pub f18_16: u64, pub f11_17: Vec<u8>, pub f4_18: Currency, pub f98_19: Option<u64>, pub f91_20: u8, pub f84_21: u64, pub f77_22: Vec<u8>, pub f70_23: Currency, pub f63_24: Option<u64>, pub f56_25: u8, pub f49_26: u64, pub f42_27: Vec<u8>, pub f35_28: Currency, pub f28_29: Option<u64>, pub f21_30: u8, pub f14_31: u64, pub f7_32: Vec<u8> }
impl Obj for WN33_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f29_0.e1(o); self.f22_1.e1(o); self.f15_2.e1(o); self.f8_3.e1(o); self.f1_4.e1(o); self.f95_5.e1(o); self.f88_6.e1(o); self.f81_7.e1(o); self.f74_8.e1(o); self.f67_9.e1(o); self.f60_10.e1(o); self.f53_11.e1(o); self.f46_12.e1(o); self.f39_13.e1(o); self.f32_14.e1(o); self.f25_15.e1(o); self.f18_16.e1(o); self.f11_17.e1(o); self.f4_18.e1(o); self.f98_19.e1(o); self.f91_20.e1(o); self.f84_21.e1(o); self.f77_22.e1(o); self.f70_23.e1(o); self.f63_24.e1(o); self.f56_25.e1(o); self.f49_26.e1(o); self.f42_27.e1(o); self.f35_28.e1(o); self.f28_29.e1(o); self.f21_30.e1(o); self.f14_31.e1(o); self.f7_32.e1(o); self.f29_0.e2(p); self.f22_1.e2(p); self.f15_2.e2(p); self.f8_3.e2(p); self.f1_4.e2(p); self.f95_5.e2(p); self.f88_6.e2(p); self.f81_7.e2(p); self.f74_8.e2(p); self.f67_9.e2(p); self.f60_10.e2(p); self.f53_11.e2(p); self.f46_12.e2(p); self.f39_13.e2(p); self.f32_14.e2(p); self.f25_15.e2(p); self.f18_16.e2(p); self.f11_17.e2(p); self.f4_18.e2(p); self.f98_19.e2(p); self.f91_20.e2(p); self.f84_21.e2(p); self.f77_22.e2(p); self.f70_23.e2(p); self.f63_24.e2(p); self.f56_25.e2(p); self.f49_26.e2(p); self.f42_27.e2(p); self.f35_28.e2(p); self.f28_29.e2(p); self.f21_30.e2(p); self.f14_31.e2(p); self.f7_32.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN33_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN33_0 { f29_0: <u8 as G>::g(c), f22_1: <u64 as G>::g(c), f15_2: <Vec<u8> as G>::g(c), f8_3: <Currency as G>::g(c), f1_4: <Option<u64> as G>::g(c), f95_5: <u8 as G>::g(c), f88_6: <u64 as G>::g(c), f81_7: <Vec<u8> as G>::g(c), f74_8: <Currency as G>::g(c), f67_9: <Option<u64> as G>::g(c), f60_10: <u8 as G>::g(c), f53_11: <u64 as G>::g(c), f46_12: <Vec<u8> as G>::g(c), f39_13: <Currency as G>::g(c), f32_14: <Option<u64> as G>::g(c), f25_15: <u8 as G>::g(c), f18_16: <u64 as G>::g(c), f11_17: <Vec<u8> as G>::g(c), f4_18: <Currency as G>::g(c), f98_19: <Option<u64> as G>::g(c), f91_20: <u8 as G>::g(c), f84_21: <u64 as G>::g(c), f77_22: <Vec<u8> as G>::g(c), f70_23: <Currency as G>::g(c), f63_24: <Option<u64> as G>::g(c), f56_25: <u8 as G>::g(c), f49_26: <u64 as G>::g(c), f42_27: <Vec<u8> as G>::g(c), f35_28: <Currency as G>::g(c), f28_29: <Option<u64> as G>::g(c), f21_30: <u8 as G>::g(c), f14_31: <u64 as G>::g(c), f7_32: <Vec<u8> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT33_0(pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>, pub Currency, pub Option<u64>, pub u8, pub u64, pub Vec<u8>);
impl Obj for WT33_0 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.13.e1(o); self.14.e1(o); self.15.e1(o); self.16.e1(o); self.17.e1(o); self.18.e1(o); self.19.e1(o); self.20.e1(o); self.21.e1(o); self.22.e1(o); self.23.e1(o); self.24.e1(o); self.25.e1(o); self.26.e1(o); self.27.e1(o); self.28.e1(o); self.29.e1(o); self.30.e1(o); self.31.e1(o); self.32.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p); self.13.e2(p); self.14.e2(p); self.15.e2(p); self.16.e2(p); self.17.e2(p); self.18.e2(p); self.19.e2(p); self.20.e2(p); self.21.e2(p); self.22.e2(p); self.23.e2(p); self.24.e2(p); self.25.e2(p); self.26.e2(p); self.27.e2(p); self.28.e2(p); self.29.e2(p); self.30.e2(p); self.31.e2(p); self.32.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT33_0(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT33_0(<u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c), <Currency as G>::g(c), <Option<u64> as G>::g(c), <u8 as G>::g(c), <u64 as G>::g(c), <Vec<u8> as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WN33_1 { pub f29_0: u64, pub f22_1: Currency, pub f15_2: u8, pub f8_3: Vec<u8>, pub f1_4: Option<u64>, pub f95_5: u64, pub f88_6: Currency, pub f81_7: u8, pub f74_8: Vec<u8>, pub f67_9: Option<u64>, pub f60_10: u64, pub f53_11: Currency, pub f46_12: u8, pub f39_13: Vec<u8>, pub f32_14: Option<u64>, pub f25_15: u64, pub f18_16: Currency, pub f11_17: u8, pub f4_18: Vec<u8>, pub f98_19: Option<u64>, pub f91_20: u64, pub f84_21: Currency, pub f77_22: u8, pub f70_23: Vec<u8>, pub f63_24: Option<u64>, pub f56_25: u64, pub f49_26: Currency, pub f42_27: u8, pub f35_28: Vec<u8>, pub f28_29: Option<u64>, pub f21_30: u64, pub f14_31: Currency, pub f7_32: u8 }
impl Obj for WN33_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f29_0.e1(o); self.f22_1.e1(o); self.f15_2.e1(o); self.f8_3.e1(o); self.f1_4.e1(o); self.f95_5.e1(o); self.f88_6.e1(o); self.f81_7.e1(o); self.f74_8.e1(o); self.f67_9.e1(o); self.f60_10.e1(o); self.f53_11.e1(o); self.f46_12.e1(o); self.f39_13.e1(o); self.f32_14.e1(o); self.f25_15.e1(o); self.f18_16.e1(o); self.f11_17.e1(o); self.f4_18.e1(o); self.f98_19.e1(o); self.f91_20.e1(o); self.f84_21.e1(o); self.f77_22.e1(o); self.f70_23.e1(o); self.f63_24.e1(o); self.f56_25.e1(o); self.f49_26.e1(o); self.f42_27.e1(o); self.f35_28.e1(o); self.f28_29.e1(o); self.f21_30.e1(o); self.f14_31.e1(o); self.f7_32.e1(o); self.f29_0.e2(p); self.f22_1.e2(p); self.f15_2.e2(p); self.f8_3.e2(p); self.f1_4.e2(p); self.f95_5.e2(p); self.f88_6.e2(p); self.f81_7.e2(p); self.f74_8.e2(p); self.f67_9.e2(p); self.f60_10.e2(p); self.f53_11.e2(p); self.f46_12.e2(p); self.f39_13.e2(p); self.f32_14.e2(p); self.f25_15.e2(p); self.f18_16.e2(p); self.f11_17.e2(p); self.f4_18.e2(p); self.f98_19.e2(p); self.f91_20.e2(p); self.f84_21.e2(p); self.f77_22.e2(p); self.f70_23.e2(p); self.f63_24.e2(p); self.f56_25.e2(p); self.f49_26.e2(p); self.f42_27.e2(p); self.f35_28.e2(p); self.f28_29.e2(p); self.f21_30.e2(p); self.f14_31.e2(p); self.f7_32.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WN33_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WN33_1 { f29_0: <u64 as G>::g(c), f22_1: <Currency as G>::g(c), f15_2: <u8 as G>::g(c), f8_3: <Vec<u8> as G>::g(c), f1_4: <Option<u64> as G>::g(c), f95_5: <u64 as G>::g(c), f88_6: <Currency as G>::g(c), f81_7: <u8 as G>::g(c), f74_8: <Vec<u8> as G>::g(c), f67_9: <Option<u64> as G>::g(c), f60_10: <u64 as G>::g(c), f53_11: <Currency as G>::g(c), f46_12: <u8 as G>::g(c), f39_13: <Vec<u8> as G>::g(c), f32_14: <Option<u64> as G>::g(c), f25_15: <u64 as G>::g(c), f18_16: <Currency as G>::g(c), f11_17: <u8 as G>::g(c), f4_18: <Vec<u8> as G>::g(c), f98_19: <Option<u64> as G>::g(c), f91_20: <u64 as G>::g(c), f84_21: <Currency as G>::g(c), f77_22: <u8 as G>::g(c), f70_23: <Vec<u8> as G>::g(c), f63_24: <Option<u64> as G>::g(c), f56_25: <u64 as G>::g(c), f49_26: <Currency as G>::g(c), f42_27: <u8 as G>::g(c), f35_28: <Vec<u8> as G>::g(c), f28_29: <Option<u64> as G>::g(c), f21_30: <u64 as G>::g(c), f14_31: <Currency as G>::g(c), f7_32: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct WT33_1(pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8, pub Vec<u8>, pub Option<u64>, pub u64, pub Currency, pub u8);
impl Obj for WT33_1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.13.e1(o); self.14.e1(o); self.15.e1(o); self.16.e1(o); self.17.e1(o); self.18.e1(o); self.19.e1(o); self.20.e1(o); self.21.e1(o); self.22.e1(o); self.23.e1(o); self.24.e1(o); self.25.e1(o); self.26.e1(o); self.27.e1(o); self.28.e1(o); self.29.e1(o); self.30.e1(o); self.31.e1(o); self.32.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p); self.13.e2(p); self.14.e2(p); self.15.e2(p); self.16.e2(p); self.17.e2(p); self.18.e2(p); self.19.e2(p); self.20.e2(p); self.21.e2(p); self.22.e2(p); self.23.e2(p); self.24.e2(p); self.25.e2(p); self.26.e2(p); self.27.e2(p); self.28.e2(p); self.29.e2(p); self.30.e2(p); self.31.e2(p); self.32.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_WT33_1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(WT33_1(<u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c), <Vec<u8> as G>::g(c), <Option<u64> as G>::g(c), <u64 as G>::g(c), <Currency as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct OddNames { pub w: u8, pub enc: u64, pub r: Vec<u8>, pub r#type: u8, pub name: Currency, pub ty: u64, pub index: u8, pub fields: Option<u64> }
impl Obj for OddNames {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.w.e1(o); self.enc.e1(o); self.r.e1(o); self.r#type.e1(o); self.name.e1(o); self.ty.e1(o); self.index.e1(o); self.fields.e1(o); self.w.e2(p); self.enc.e2(p); self.r.e2(p); self.r#type.e2(p); self.name.e2(p); self.ty.e2(p); self.index.e2(p); self.fields.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_OddNames(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(OddNames { w: <u8 as G>::g(c), enc: <u64 as G>::g(c), r: <Vec<u8> as G>::g(c), r#type: <u8 as G>::g(c), name: <Currency as G>::g(c), ty: <u64 as G>::g(c), index: <u8 as G>::g(c), fields: <Option<u64> as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct OddNames2 { pub _reserved: u64, pub __pad: Vec<u8>, pub größe: u8, pub Upper: Currency, pub version: u64, pub padding: u8, pub signature: Vec<u8>, pub len: Option<u64>, pub id: u64, pub self_: u8, pub buf: u64, pub result: u8, pub v1: u64, pub r#fn: u8, pub x_: u64 }
impl Obj for OddNames2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self._reserved.e1(o); self.__pad.e1(o); self.größe.e1(o); self.Upper.e1(o); self.version.e1(o); self.padding.e1(o); self.signature.e1(o); self.len.e1(o); self.id.e1(o); self.self_.e1(o); self.buf.e1(o); self.result.e1(o); self.v1.e1(o); self.r#fn.e1(o); self.x_.e1(o); self._reserved.e2(p); self.__pad.e2(p); self.größe.e2(p); self.Upper.e2(p); self.version.e2(p); self.padding.e2(p); self.signature.e2(p); self.len.e2(p); self.id.e2(p); self.self_.e2(p); self.buf.e2(p); self.result.e2(p); self.v1.e2(p); self.r#fn.e2(p); self.x_.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_OddNames2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(OddNames2 { _reserved: <u64 as G>::g(c), __pad: <Vec<u8> as G>::g(c), größe: <u8 as G>::g(c), Upper: <Currency as G>::g(c), version: <u64 as G>::g(c), padding: <u8 as G>::g(c), signature: <Vec<u8> as G>::g(c), len: <Option<u64> as G>::g(c), id: <u64 as G>::g(c), self_: <u8 as G>::g(c), buf: <u64 as G>::g(c), result: <u8 as G>::g(c), v1: <u64 as G>::g(c), r#fn: <u8 as G>::g(c), x_: <u64 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, serde::Serialize, SiaDecode, V1SiaEncode, serde::Deserialize, V1SiaDecode)]
pub struct Attributes { #[serde(skip)] pub a: u64, #[serde(rename = "q")] pub b: Currency, #[serde(default)] pub c: Vec<u8>, #[serde(skip_serializing_if = "Option::is_none")] pub d: Option<u64>, #[doc(hidden)] pub e: u8, #[cfg(all())] pub f: u64, #[cfg_attr(all(), serde(skip_deserializing))] pub g: u8 }
impl Obj for Attributes {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.a.e1(o); self.b.e1(o); self.c.e1(o); self.d.e1(o); self.e.e1(o); self.f.e1(o); self.g.e1(o); self.a.e2(p); self.b.e2(p); self.c.e2(p); self.d.e2(p); self.e.e2(p); self.f.e2(p); self.g.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_Attributes(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(Attributes { a: <u64 as G>::g(c), b: <Currency as G>::g(c), c: <Vec<u8> as G>::g(c), d: <Option<u64> as G>::g(c), e: <u8 as G>::g(c), f: <u64 as G>::g(c), g: <u8 as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, serde::Serialize, SiaDecode, V1SiaEncode, serde::Deserialize, V1SiaDecode)]
pub struct AttributesT(#[serde(skip)] pub u64, #[doc(hidden)] Vec<u8>, #[serde(default)] pub u8);
impl Obj for AttributesT {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_AttributesT(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(AttributesT(<u64 as G>::g(c), <Vec<u8> as G>::g(c), <u8 as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct Paths { pub a: std::vec::Vec<std::option::Option<u64>>, /// documented
 pub b: Vec<Vec<u8>>, pub c: [u8; 5], #[allow(dead_code)] pub d: sia::types::Hash256, pub e: String, pub f: bool }
impl Obj for Paths {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.a.e1(o); self.b.e1(o); self.c.e1(o); self.d.e1(o); self.e.e1(o); self.f.e1(o); self.a.e2(p); self.b.e2(p); self.c.e2(p); self.d.e2(p); self.e.e2(p); self.f.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_Paths(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(Paths { a: <std::vec::Vec<std::option::Option<u64>> as G>::g(c), b: <Vec<Vec<u8>> as G>::g(c), c: <[u8; 5] as G>::g(c), d: <sia::types::Hash256 as G>::g(c), e: <String as G>::g(c), f: <bool as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PathsT(std::vec::Vec<std::option::Option<u64>>, pub(crate) [u8; 5], pub sia::types::Address, String);
impl Obj for PathsT {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PathsT(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PathsT(<std::vec::Vec<std::option::Option<u64>> as G>::g(c), <[u8; 5] as G>::g(c), <sia::types::Address as G>::g(c), <String as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN1 { pub f13_0: Probe }
impl Obj for PN1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f13_0.e1(o); self.f13_0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN1 { f13_0: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT1(pub Probe);
impl Obj for PT1 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.0.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT1(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT1(<Probe as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN2 { pub f26_0: Probe, pub f13_1: Probe }
impl Obj for PN2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f26_0.e1(o); self.f13_1.e1(o); self.f26_0.e2(p); self.f13_1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN2 { f26_0: <Probe as G>::g(c), f13_1: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT2(pub Probe, pub Probe);
impl Obj for PT2 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.0.e2(p); self.1.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT2(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT2(<Probe as G>::g(c), <Probe as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN3 { pub f39_0: Probe, pub f26_1: Probe, pub f13_2: Probe }
impl Obj for PN3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f39_0.e1(o); self.f26_1.e1(o); self.f13_2.e1(o); self.f39_0.e2(p); self.f26_1.e2(p); self.f13_2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN3 { f39_0: <Probe as G>::g(c), f26_1: <Probe as G>::g(c), f13_2: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT3(pub Probe, pub Probe, pub Probe);
impl Obj for PT3 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT3(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT3(<Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN6 { pub f78_0: Probe, pub f65_1: Probe, pub f52_2: Probe, pub f39_3: Probe, pub f26_4: Probe, pub f13_5: Probe }
impl Obj for PN6 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f78_0.e1(o); self.f65_1.e1(o); self.f52_2.e1(o); self.f39_3.e1(o); self.f26_4.e1(o); self.f13_5.e1(o); self.f78_0.e2(p); self.f65_1.e2(p); self.f52_2.e2(p); self.f39_3.e2(p); self.f26_4.e2(p); self.f13_5.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN6(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN6 { f78_0: <Probe as G>::g(c), f65_1: <Probe as G>::g(c), f52_2: <Probe as G>::g(c), f39_3: <Probe as G>::g(c), f26_4: <Probe as G>::g(c), f13_5: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT6(pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe);
impl Obj for PT6 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT6(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT6(<Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN12 { pub f59_0: Probe, pub f46_1: Probe, pub f33_2: Probe, pub f20_3: Probe, pub f7_4: Probe, pub f91_5: Probe, pub f78_6: Probe, pub f65_7: Probe, pub f52_8: Probe, pub f39_9: Probe, pub f26_10: Probe, pub f13_11: Probe }
impl Obj for PN12 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f59_0.e1(o); self.f46_1.e1(o); self.f33_2.e1(o); self.f20_3.e1(o); self.f7_4.e1(o); self.f91_5.e1(o); self.f78_6.e1(o); self.f65_7.e1(o); self.f52_8.e1(o); self.f39_9.e1(o); self.f26_10.e1(o); self.f13_11.e1(o); self.f59_0.e2(p); self.f46_1.e2(p); self.f33_2.e2(p); self.f20_3.e2(p); self.f7_4.e2(p); self.f91_5.e2(p); self.f78_6.e2(p); self.f65_7.e2(p); self.f52_8.e2(p); self.f39_9.e2(p); self.f26_10.e2(p); self.f13_11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN12(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN12 { f59_0: <Probe as G>::g(c), f46_1: <Probe as G>::g(c), f33_2: <Probe as G>::g(c), f20_3: <Probe as G>::g(c), f7_4: <Probe as G>::g(c), f91_5: <Probe as G>::g(c), f78_6: <Probe as G>::g(c), f65_7: <Probe as G>::g(c), f52_8: <Probe as G>::g(c), f39_9: <Probe as G>::g(c), f26_10: <Probe as G>::g(c), f13_11: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT12(pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe);
impl Obj for PT12 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT12(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT12(<Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c))) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PN24 { pub f21_0: Probe, pub f8_1: Probe, pub f92_2: Probe, pub f79_3: Probe, pub f66_4: Probe, pub f53_5: Probe, pub f40_6: Probe, pub f27_7: Probe, pub f14_8: Probe, pub f1_9: Probe, pub f85_10: Probe, pub f72_11: Probe, pub f59_12: Probe, pub f46_13: Probe, pub f33_14: Probe, pub f20_15: Probe, pub f7_16: Probe, pub f91_17: Probe, pub f78_18: Probe, pub f65_19: Probe, pub f52_20: Probe, pub f39_21: Probe, pub f26_22: Probe, pub f13_23: Probe }
impl Obj for PN24 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.f21_0.e1(o); self.f8_1.e1(o); self.f92_2.e1(o); self.f79_3.e1(o); self.f66_4.e1(o); self.f53_5.e1(o); self.f40_6.e1(o); self.f27_7.e1(o); self.f14_8.e1(o); self.f1_9.e1(o); self.f85_10.e1(o); self.f72_11.e1(o); self.f59_12.e1(o); self.f46_13.e1(o); self.f33_14.e1(o); self.f20_15.e1(o); self.f7_16.e1(o); self.f91_17.e1(o); self.f78_18.e1(o); self.f65_19.e1(o); self.f52_20.e1(o); self.f39_21.e1(o); self.f26_22.e1(o); self.f13_23.e1(o); self.f21_0.e2(p); self.f8_1.e2(p); self.f92_2.e2(p); self.f79_3.e2(p); self.f66_4.e2(p); self.f53_5.e2(p); self.f40_6.e2(p); self.f27_7.e2(p); self.f14_8.e2(p); self.f1_9.e2(p); self.f85_10.e2(p); self.f72_11.e2(p); self.f59_12.e2(p); self.f46_13.e2(p); self.f33_14.e2(p); self.f20_15.e2(p); self.f7_16.e2(p); self.f91_17.e2(p); self.f78_18.e2(p); self.f65_19.e2(p); self.f52_20.e2(p); self.f39_21.e2(p); self.f26_22.e2(p); self.f13_23.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PN24(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PN24 { f21_0: <Probe as G>::g(c), f8_1: <Probe as G>::g(c), f92_2: <Probe as G>::g(c), f79_3: <Probe as G>::g(c), f66_4: <Probe as G>::g(c), f53_5: <Probe as G>::g(c), f40_6: <Probe as G>::g(c), f27_7: <Probe as G>::g(c), f14_8: <Probe as G>::g(c), f1_9: <Probe as G>::g(c), f85_10: <Probe as G>::g(c), f72_11: <Probe as G>::g(c), f59_12: <Probe as G>::g(c), f46_13: <Probe as G>::g(c), f33_14: <Probe as G>::g(c), f20_15: <Probe as G>::g(c), f7_16: <Probe as G>::g(c), f91_17: <Probe as G>::g(c), f78_18: <Probe as G>::g(c), f65_19: <Probe as G>::g(c), f52_20: <Probe as G>::g(c), f39_21: <Probe as G>::g(c), f26_22: <Probe as G>::g(c), f13_23: <Probe as G>::g(c) }) }
#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct PT24(pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe, pub Probe);
impl Obj for PT24 {
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        self.0.e1(o); self.1.e1(o); self.2.e1(o); self.3.e1(o); self.4.e1(o); self.5.e1(o); self.6.e1(o); self.7.e1(o); self.8.e1(o); self.9.e1(o); self.10.e1(o); self.11.e1(o); self.12.e1(o); self.13.e1(o); self.14.e1(o); self.15.e1(o); self.16.e1(o); self.17.e1(o); self.18.e1(o); self.19.e1(o); self.20.e1(o); self.21.e1(o); self.22.e1(o); self.23.e1(o); self.0.e2(p); self.1.e2(p); self.2.e2(p); self.3.e2(p); self.4.e2(p); self.5.e2(p); self.6.e2(p); self.7.e2(p); self.8.e2(p); self.9.e2(p); self.10.e2(p); self.11.e2(p); self.12.e2(p); self.13.e2(p); self.14.e2(p); self.15.e2(p); self.16.e2(p); self.17.e2(p); self.18.e2(p); self.19.e2(p); self.20.e2(p); self.21.e2(p); self.22.e2(p); self.23.e2(p);
        (a, b)
    }
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { self.encode_v1(w) }
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> { SiaEncodable::encode(self, w) }
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> { Ok(<Self as SiaDecodable>::decode(r)? == *self) }
    fn text(&self) -> String { format!("{self:?}") }
}
fn mk_PT24(c: &mut Ctx) -> Box<dyn Obj> { let _ = &c; Box::new(PT24(<Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c), <Probe as G>::g(c))) }

pub fn shapes(v: &mut Vec<Unit>) {
    v.push(body("UnitShape", mk_UnitShape, true));
    v.push(body("NamedEmpty", mk_NamedEmpty, true));
    v.push(body("TupleEmpty", mk_TupleEmpty, true));
    v.push(body("N_b", mk_N_b, true));
    v.push(body("T_b", mk_T_b, true));
    v.push(body("N_q", mk_N_q, true));
    v.push(body("T_q", mk_T_q, true));
    v.push(body("N_v", mk_N_v, true));
    v.push(body("T_v", mk_T_v, true));
    v.push(body("N_c", mk_N_c, true));
    v.push(body("T_c", mk_T_c, true));
    v.push(body("N_o", mk_N_o, true));
    v.push(body("T_o", mk_T_o, true));
    v.push(body("N_bb", mk_N_bb, true));
    v.push(body("T_bb", mk_T_bb, true));
    v.push(body("N_bq", mk_N_bq, true));
    v.push(body("T_bq", mk_T_bq, true));
    v.push(body("N_bv", mk_N_bv, true));
    v.push(body("T_bv", mk_T_bv, true));
    v.push(body("N_bc", mk_N_bc, true));
    v.push(body("T_bc", mk_T_bc, true));
    v.push(body("N_bo", mk_N_bo, true));
    v.push(body("T_bo", mk_T_bo, true));
    v.push(body("N_qb", mk_N_qb, true));
    v.push(body("T_qb", mk_T_qb, true));
    v.push(body("N_qq", mk_N_qq, true));
    v.push(body("T_qq", mk_T_qq, true));
    v.push(body("N_qv", mk_N_qv, true));
    v.push(body("T_qv", mk_T_qv, true));
    v.push(body("N_qc", mk_N_qc, true));
    v.push(body("T_qc", mk_T_qc, true));
    v.push(body("N_qo", mk_N_qo, true));
    v.push(body("T_qo", mk_T_qo, true));
    v.push(body("N_vb", mk_N_vb, true));
    v.push(body("T_vb", mk_T_vb, true));
    v.push(body("N_vq", mk_N_vq, true));
    v.push(body("T_vq", mk_T_vq, true));
    v.push(body("N_vv", mk_N_vv, true));
    v.push(body("T_vv", mk_T_vv, true));
    v.push(body("N_vc", mk_N_vc, true));
    v.push(body("T_vc", mk_T_vc, true));
    v.push(body("N_vo", mk_N_vo, true));
    v.push(body("T_vo", mk_T_vo, true));
    v.push(body("N_cb", mk_N_cb, true));
    v.push(body("T_cb", mk_T_cb, true));
    v.push(body("N_cq", mk_N_cq, true));
    v.push(body("T_cq", mk_T_cq, true));
    v.push(body("N_cv", mk_N_cv, true));
    v.push(body("T_cv", mk_T_cv, true));
    v.push(body("N_cc", mk_N_cc, true));
    v.push(body("T_cc", mk_T_cc, true));
    v.push(body("N_co", mk_N_co, true));
    v.push(body("T_co", mk_T_co, true));
    v.push(body("N_ob", mk_N_ob, true));
    v.push(body("T_ob", mk_T_ob, true));
    v.push(body("N_oq", mk_N_oq, true));
    v.push(body("T_oq", mk_T_oq, true));
    v.push(body("N_ov", mk_N_ov, true));
    v.push(body("T_ov", mk_T_ov, true));
    v.push(body("N_oc", mk_N_oc, true));
    v.push(body("T_oc", mk_T_oc, true));
    v.push(body("N_oo", mk_N_oo, true));
    v.push(body("T_oo", mk_T_oo, true));
    v.push(body("N_bbb", mk_N_bbb, true));
    v.push(body("T_bbb", mk_T_bbb, true));
    v.push(body("N_bbq", mk_N_bbq, true));
    v.push(body("T_bbq", mk_T_bbq, true));
    v.push(body("N_bbv", mk_N_bbv, true));
    v.push(body("T_bbv", mk_T_bbv, true));
    v.push(body("N_bbc", mk_N_bbc, true));
    v.push(body("T_bbc", mk_T_bbc, true));
    v.push(body("N_bbo", mk_N_bbo, true));
    v.push(body("T_bbo", mk_T_bbo, true));
    v.push(body("N_bqb", mk_N_bqb, true));
    v.push(body("T_bqb", mk_T_bqb, true));
    v.push(body("N_bqq", mk_N_bqq, true));
    v.push(body("T_bqq", mk_T_bqq, true));
    v.push(body("N_bqv", mk_N_bqv, true));
    v.push(body("T_bqv", mk_T_bqv, true));
    v.push(body("N_bqc", mk_N_bqc, true));
    v.push(body("T_bqc", mk_T_bqc, true));
    v.push(body("N_bqo", mk_N_bqo, true));
    v.push(body("T_bqo", mk_T_bqo, true));
    v.push(body("N_bvb", mk_N_bvb, true));
    v.push(body("T_bvb", mk_T_bvb, true));
    v.push(body("N_bvq", mk_N_bvq, true));
    v.push(body("T_bvq", mk_T_bvq, true));
    v.push(body("N_bvv", mk_N_bvv, true));
    v.push(body("T_bvv", mk_T_bvv, true));
    v.push(body("N_bvc", mk_N_bvc, true));
    v.push(body("T_bvc", mk_T_bvc, true));
    v.push(body("N_bvo", mk_N_bvo, true));
    v.push(body("T_bvo", mk_T_bvo, true));
    v.push(body("N_bcb", mk_N_bcb, true));
    v.push(body("T_bcb", mk_T_bcb, true));
    v.push(body("N_bcq", mk_N_bcq, true));
    v.push(body("T_bcq", mk_T_bcq, true));
    v.push(body("N_bcv", mk_N_bcv, true));
    v.push(body("T_bcv", mk_T_bcv, true));
    v.push(body("N_bcc", mk_N_bcc, true));
    v.push(body("T_bcc", mk_T_bcc, true));
    v.push(body("N_bco", mk_N_bco, true));
    v.push(body("T_bco", mk_T_bco, true));
    v.push(body("N_bob", mk_N_bob, true));
    v.push(body("T_bob", mk_T_bob, true));
    v.push(body("N_boq", mk_N_boq, true));
    v.push(body("T_boq", mk_T_boq, true));
    v.push(body("N_bov", mk_N_bov, true));
    v.push(body("T_bov", mk_T_bov, true));
    v.push(body("N_boc", mk_N_boc, true));
    v.push(body("T_boc", mk_T_boc, true));
    v.push(body("N_boo", mk_N_boo, true));
    v.push(body("T_boo", mk_T_boo, true));
    v.push(body("N_qbb", mk_N_qbb, true));
    v.push(body("T_qbb", mk_T_qbb, true));
    v.push(body("N_qbq", mk_N_qbq, true));
    v.push(body("T_qbq", mk_T_qbq, true));
    v.push(body("N_qbv", mk_N_qbv, true));
    v.push(body("T_qbv", mk_T_qbv, true));
    v.push(body("N_qbc", mk_N_qbc, true));
    v.push(body("T_qbc", mk_T_qbc, true));
    v.push(body("N_qbo", mk_N_qbo, true));
    v.push(body("T_qbo", mk_T_qbo, true));
    v.push(body("N_qqb", mk_N_qqb, true));
    v.push(body("T_qqb", mk_T_qqb, true));
    v.push(body("N_qqq", mk_N_qqq, true));
    v.push(body("T_qqq", mk_T_qqq, true));
    v.push(body("N_qqv", mk_N_qqv, true));
    v.push(body("T_qqv", mk_T_qqv, true));
    v.push(body("N_qqc", mk_N_qqc, true));
    v.push(body("T_qqc", mk_T_qqc, true));
    v.push(body("N_qqo", mk_N_qqo, true));
    v.push(body("T_qqo", mk_T_qqo, true));
    v.push(body("N_qvb", mk_N_qvb, true));
    v.push(body("T_qvb", mk_T_qvb, true));
    v.push(body("N_qvq", mk_N_qvq, true));
    v.push(body("T_qvq", mk_T_qvq, true));
    v.push(body("N_qvv", mk_N_qvv, true));
    v.push(body("T_qvv", mk_T_qvv, true));
    v.push(body("N_qvc", mk_N_qvc, true));
    v.push(body("T_qvc", mk_T_qvc, true));
    v.push(body("N_qvo", mk_N_qvo, true));
    v.push(body("T_qvo", mk_T_qvo, true));
    v.push(body("N_qcb", mk_N_qcb, true));
    v.push(body("T_qcb", mk_T_qcb, true));
    v.push(body("N_qcq", mk_N_qcq, true));
    v.push(body("T_qcq", mk_T_qcq, true));
    v.push(body("N_qcv", mk_N_qcv, true));
    v.push(body("T_qcv", mk_T_qcv, true));
    v.push(body("N_qcc", mk_N_qcc, true));
    v.push(body("T_qcc", mk_T_qcc, true));
    v.push(body("N_qco", mk_N_qco, true));
    v.push(body("T_qco", mk_T_qco, true));
    v.push(body("N_qob", mk_N_qob, true));
    v.push(body("T_qob", mk_T_qob, true));
    v.push(body("N_qoq", mk_N_qoq, true));
    v.push(body("T_qoq", mk_T_qoq, true));
    v.push(body("N_qov", mk_N_qov, true));
    v.push(body("T_qov", mk_T_qov, true));
    v.push(body("N_qoc", mk_N_qoc, true));
    v.push(body("T_qoc", mk_T_qoc, true));
    v.push(body("N_qoo", mk_N_qoo, true));
    v.push(body("T_qoo", mk_T_qoo, true));
    v.push(body("N_vbb", mk_N_vbb, true));
    v.push(body("T_vbb", mk_T_vbb, true));
    v.push(body("N_vbq", mk_N_vbq, true));
    v.push(body("T_vbq", mk_T_vbq, true));
    v.push(body("N_vbv", mk_N_vbv, true));
    v.push(body("T_vbv", mk_T_vbv, true));
    v.push(body("N_vbc", mk_N_vbc, true));
    v.push(body("T_vbc", mk_T_vbc, true));
    v.push(body("N_vbo", mk_N_vbo, true));
    v.push(body("T_vbo", mk_T_vbo, true));
    v.push(body("N_vqb", mk_N_vqb, true));
    v.push(body("T_vqb", mk_T_vqb, true));
    v.push(body("N_vqq", mk_N_vqq, true));
    v.push(body("T_vqq", mk_T_vqq, true));
    v.push(body("N_vqv", mk_N_vqv, true));
    v.push(body("T_vqv", mk_T_vqv, true));
    v.push(body("N_vqc", mk_N_vqc, true));
    v.push(body("T_vqc", mk_T_vqc, true));
    v.push(body("N_vqo", mk_N_vqo, true));
    v.push(body("T_vqo", mk_T_vqo, true));
    v.push(body("N_vvb", mk_N_vvb, true));
    v.push(body("T_vvb", mk_T_vvb, true));
    v.push(body("N_vvq", mk_N_vvq, true));
    v.push(body("T_vvq", mk_T_vvq, true));
    v.push(body("N_vvv", mk_N_vvv, true));
    v.push(body("T_vvv", mk_T_vvv, true));
    v.push(body("N_vvc", mk_N_vvc, true));
    v.push(body("T_vvc", mk_T_vvc, true));
    v.push(body("N_vvo", mk_N_vvo, true));
    v.push(body("T_vvo", mk_T_vvo, true));
    v.push(body("N_vcb", mk_N_vcb, true));
    v.push(body("T_vcb", mk_T_vcb, true));
    v.push(body("N_vcq", mk_N_vcq, true));
    v.push(body("T_vcq", mk_T_vcq, true));
    v.push(body("N_vcv", mk_N_vcv, true));
    v.push(body("T_vcv", mk_T_vcv, true));
    v.push(body("N_vcc", mk_N_vcc, true));
    v.push(body("T_vcc", mk_T_vcc, true));
    v.push(body("N_vco", mk_N_vco, true));
    v.push(body("T_vco", mk_T_vco, true));
    v.push(body("N_vob", mk_N_vob, true));
    v.push(body("T_vob", mk_T_vob, true));
    v.push(body("N_voq", mk_N_voq, true));
    v.push(body("T_voq", mk_T_voq, true));
    v.push(body("N_vov", mk_N_vov, true));
    v.push(body("T_vov", mk_T_vov, true));
    v.push(body("N_voc", mk_N_voc, true));
    v.push(body("T_voc", mk_T_voc, true));
    v.push(body("N_voo", mk_N_voo, true));
    v.push(body("T_voo", mk_T_voo, true));
    v.push(body("N_cbb", mk_N_cbb, true));
    v.push(body("T_cbb", mk_T_cbb, true));
    v.push(body("N_cbq", mk_N_cbq, true));
    v.push(body("T_cbq", mk_T_cbq, true));
    v.push(body("N_cbv", mk_N_cbv, true));
    v.push(body("T_cbv", mk_T_cbv, true));
    v.push(body("N_cbc", mk_N_cbc, true));
    v.push(body("T_cbc", mk_T_cbc, true));
    v.push(body("N_cbo", mk_N_cbo, true));
    v.push(body("T_cbo", mk_T_cbo, true));
    v.push(body("N_cqb", mk_N_cqb, true));
    v.push(body("T_cqb", mk_T_cqb, true));
    v.push(body("N_cqq", mk_N_cqq, true));
    v.push(body("T_cqq", mk_T_cqq, true));
    v.push(body("N_cqv", mk_N_cqv, true));
    v.push(body("T_cqv", mk_T_cqv, true));
    v.push(body("N_cqc", mk_N_cqc, true));
    v.push(body("T_cqc", mk_T_cqc, true));
    v.push(body("N_cqo", mk_N_cqo, true));
    v.push(body("T_cqo", mk_T_cqo, true));
    v.push(body("N_cvb", mk_N_cvb, true));
    v.push(body("T_cvb", mk_T_cvb, true));
    v.push(body("N_cvq", mk_N_cvq, true));
    v.push(body("T_cvq", mk_T_cvq, true));
    v.push(body("N_cvv", mk_N_cvv, true));
    v.push(body("T_cvv", mk_T_cvv, true));
    v.push(body("N_cvc", mk_N_cvc, true));
    v.push(body("T_cvc", mk_T_cvc, true));
    v.push(body("N_cvo", mk_N_cvo, true));
    v.push(body("T_cvo", mk_T_cvo, true));
    v.push(body("N_ccb", mk_N_ccb, true));
    v.push(body("T_ccb", mk_T_ccb, true));
    v.push(body("N_ccq", mk_N_ccq, true));
    v.push(body("T_ccq", mk_T_ccq, true));
    v.push(body("N_ccv", mk_N_ccv, true));
    v.push(body("T_ccv", mk_T_ccv, true));
    v.push(body("N_ccc", mk_N_ccc, true));
    v.push(body("T_ccc", mk_T_ccc, true));
    v.push(body("N_cco", mk_N_cco, true));
    v.push(body("T_cco", mk_T_cco, true));
    v.push(body("N_cob", mk_N_cob, true));
    v.push(body("T_cob", mk_T_cob, true));
    v.push(body("N_coq", mk_N_coq, true));
    v.push(body("T_coq", mk_T_coq, true));
    v.push(body("N_cov", mk_N_cov, true));
    v.push(body("T_cov", mk_T_cov, true));
    v.push(body("N_coc", mk_N_coc, true));
    v.push(body("T_coc", mk_T_coc, true));
    v.push(body("N_coo", mk_N_coo, true));
    v.push(body("T_coo", mk_T_coo, true));
    v.push(body("N_obb", mk_N_obb, true));
    v.push(body("T_obb", mk_T_obb, true));
    v.push(body("N_obq", mk_N_obq, true));
    v.push(body("T_obq", mk_T_obq, true));
    v.push(body("N_obv", mk_N_obv, true));
    v.push(body("T_obv", mk_T_obv, true));
    v.push(body("N_obc", mk_N_obc, true));
    v.push(body("T_obc", mk_T_obc, true));
    v.push(body("N_obo", mk_N_obo, true));
    v.push(body("T_obo", mk_T_obo, true));
    v.push(body("N_oqb", mk_N_oqb, true));
    v.push(body("T_oqb", mk_T_oqb, true));
    v.push(body("N_oqq", mk_N_oqq, true));
    v.push(body("T_oqq", mk_T_oqq, true));
    v.push(body("N_oqv", mk_N_oqv, true));
    v.push(body("T_oqv", mk_T_oqv, true));
    v.push(body("N_oqc", mk_N_oqc, true));
    v.push(body("T_oqc", mk_T_oqc, true));
    v.push(body("N_oqo", mk_N_oqo, true));
    v.push(body("T_oqo", mk_T_oqo, true));
    v.push(body("N_ovb", mk_N_ovb, true));
    v.push(body("T_ovb", mk_T_ovb, true));
    v.push(body("N_ovq", mk_N_ovq, true));
    v.push(body("T_ovq", mk_T_ovq, true));
    v.push(body("N_ovv", mk_N_ovv, true));
    v.push(body("T_ovv", mk_T_ovv, true));
    v.push(body("N_ovc", mk_N_ovc, true));
    v.push(body("T_ovc", mk_T_ovc, true));
    v.push(body("N_ovo", mk_N_ovo, true));
    v.push(body("T_ovo", mk_T_ovo, true));
    v.push(body("N_ocb", mk_N_ocb, true));
    v.push(body("T_ocb", mk_T_ocb, true));
    v.push(body("N_ocq", mk_N_ocq, true));
    v.push(body("T_ocq", mk_T_ocq, true));
    v.push(body("N_ocv", mk_N_ocv, true));
    v.push(body("T_ocv", mk_T_ocv, true));
    v.push(body("N_occ", mk_N_occ, true));
    v.push(body("T_occ", mk_T_occ, true));
    v.push(body("N_oco", mk_N_oco, true));
    v.push(body("T_oco", mk_T_oco, true));
    v.push(body("N_oob", mk_N_oob, true));
    v.push(body("T_oob", mk_T_oob, true));
    v.push(body("N_ooq", mk_N_ooq, true));
    v.push(body("T_ooq", mk_T_ooq, true));
    v.push(body("N_oov", mk_N_oov, true));
    v.push(body("T_oov", mk_T_oov, true));
    v.push(body("N_ooc", mk_N_ooc, true));
    v.push(body("T_ooc", mk_T_ooc, true));
    v.push(body("N_ooo", mk_N_ooo, true));
    v.push(body("T_ooo", mk_T_ooo, true));
    v.push(body("V_x0", mk_V_x0, false));
    v.push(body("V_x1", mk_V_x1, false));
    v.push(body("V_x2", mk_V_x2, false));
    v.push(body("V_x3", mk_V_x3, false));
    v.push(body("V_x4", mk_V_x4, false));
    v.push(body("V_xx0", mk_V_xx0, false));
    v.push(body("V_xx1", mk_V_xx1, false));
    v.push(body("V_xx2", mk_V_xx2, false));
    v.push(body("V_xx3", mk_V_xx3, false));
    v.push(body("V_xx4", mk_V_xx4, false));
    v.push(body("V_xp0", mk_V_xp0, false));
    v.push(body("V_xp1", mk_V_xp1, false));
    v.push(body("V_xp2", mk_V_xp2, false));
    v.push(body("V_xp3", mk_V_xp3, false));
    v.push(body("V_xp4", mk_V_xp4, false));
    v.push(body("V_px0", mk_V_px0, false));
    v.push(body("V_px1", mk_V_px1, false));
    v.push(body("V_px2", mk_V_px2, false));
    v.push(body("V_px3", mk_V_px3, false));
    v.push(body("V_px4", mk_V_px4, false));
    v.push(body("V_xxx0", mk_V_xxx0, false));
    v.push(body("V_xxx1", mk_V_xxx1, false));
    v.push(body("V_xxx2", mk_V_xxx2, false));
    v.push(body("V_xxp0", mk_V_xxp0, false));
    v.push(body("V_xxp1", mk_V_xxp1, false));
    v.push(body("V_xxp2", mk_V_xxp2, false));
    v.push(body("V_xpx0", mk_V_xpx0, false));
    v.push(body("V_xpx1", mk_V_xpx1, false));
    v.push(body("V_xpx2", mk_V_xpx2, false));
    v.push(body("V_xpp0", mk_V_xpp0, false));
    v.push(body("V_xpp1", mk_V_xpp1, false));
    v.push(body("V_xpp2", mk_V_xpp2, false));
    v.push(body("V_pxx0", mk_V_pxx0, false));
    v.push(body("V_pxx1", mk_V_pxx1, false));
    v.push(body("V_pxx2", mk_V_pxx2, false));
    v.push(body("V_pxp0", mk_V_pxp0, false));
    v.push(body("V_pxp1", mk_V_pxp1, false));
    v.push(body("V_pxp2", mk_V_pxp2, false));
    v.push(body("V_ppx0", mk_V_ppx0, false));
    v.push(body("V_ppx1", mk_V_ppx1, false));
    v.push(body("V_ppx2", mk_V_ppx2, false));
    v.push(body("WN4_0", mk_WN4_0, true));
    v.push(body("WT4_0", mk_WT4_0, true));
    v.push(body("WN4_1", mk_WN4_1, true));
    v.push(body("WT4_1", mk_WT4_1, true));
    v.push(body("WN5_0", mk_WN5_0, true));
    v.push(body("WT5_0", mk_WT5_0, true));
    v.push(body("WN5_1", mk_WN5_1, true));
    v.push(body("WT5_1", mk_WT5_1, true));
    v.push(body("WN8_0", mk_WN8_0, true));
    v.push(body("WT8_0", mk_WT8_0, true));
    v.push(body("WN8_1", mk_WN8_1, true));
    v.push(body("WT8_1", mk_WT8_1, true));
    v.push(body("WN11_0", mk_WN11_0, true));
    v.push(body("WT11_0", mk_WT11_0, true));
    v.push(body("WN11_1", mk_WN11_1, true));
    v.push(body("WT11_1", mk_WT11_1, true));
    v.push(body("WN12_0", mk_WN12_0, true));
    v.push(body("WT12_0", mk_WT12_0, true));
    v.push(body("WN12_1", mk_WN12_1, true));
    v.push(body("WT12_1", mk_WT12_1, true));
    v.push(body("WN13_0", mk_WN13_0, true));
    v.push(body("WT13_0", mk_WT13_0, true));
    v.push(body("WN13_1", mk_WN13_1, true));
    v.push(body("WT13_1", mk_WT13_1, true));
    v.push(body("WN20_0", mk_WN20_0, true));
    v.push(body("WT20_0", mk_WT20_0, true));
    v.push(body("WN20_1", mk_WN20_1, true));
    v.push(body("WT20_1", mk_WT20_1, true));
    v.push(body("WN33_0", mk_WN33_0, true));
    v.push(body("WT33_0", mk_WT33_0, true));
    v.push(body("WN33_1", mk_WN33_1, true));
    v.push(body("WT33_1", mk_WT33_1, true));
    v.push(body("OddNames", mk_OddNames, true));
    v.push(body("OddNames2", mk_OddNames2, true));
    v.push(body("Attributes", mk_Attributes, true));
    v.push(body("AttributesT", mk_AttributesT, true));
    v.push(body("Paths", mk_Paths, true));
    v.push(body("PathsT", mk_PathsT, true));
    v.push(probed("PN1", mk_PN1, 1));
    v.push(probed("PT1", mk_PT1, 1));
    v.push(probed("PN2", mk_PN2, 2));
    v.push(probed("PT2", mk_PT2, 2));
    v.push(probed("PN3", mk_PN3, 3));
    v.push(probed("PT3", mk_PT3, 3));
    v.push(probed("PN6", mk_PN6, 6));
    v.push(probed("PT6", mk_PT6, 6));
    v.push(probed("PN12", mk_PN12, 12));
    v.push(probed("PT12", mk_PT12, 12));
    v.push(probed("PN24", mk_PN24, 24));
    v.push(probed("PT24", mk_PT24, 24));
}
