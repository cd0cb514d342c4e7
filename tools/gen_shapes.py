#!/usr/bin/env python3
"""Writes harness/src/props/derive_gen.rs: all struct shapes with up to 3 fields over five field types
(named, tuple), wide shapes, private fields, odd field names and paths."""
import itertools, sys
T = ["u8", "u64", "Vec<u8>", "Currency", "Option<u64>"]
S = ["b", "q", "v", "c", "o"]
out = ["// Generated by tools/gen_shapes.py.", "#![allow(non_camel_case_types, non_snake_case, private_interfaces)]", "use super::*;", ""]
units = []
ALL = "SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode"

def emit(name, kind, fields, derives=ALL, both=True, attrs=None):
    """fields: (visibility, name, type, covered by v2)"""
    out.append(f"#[derive(Debug, PartialEq, {derives})]")
    if kind == "named":
        body = ", ".join(f"{(attrs or {}).get(n,'')}{v}{n}: {t}" for v, n, t, _ in fields)
        out.append(f"pub struct {name} {{ {body} }}")
        mk = "Self { " + ", ".join(f"{n}: <{t} as G>::g(c)" for _, n, t, _ in fields) + " }"
    elif kind == "tuple":
        out.append(f"pub struct {name}(" + ", ".join(f"{v}{t}" for v, _, t, _ in fields) + ");")
        mk = "Self(" + ", ".join(f"<{t} as G>::g(c)" for _, n, t, _ in fields) + ")"
    else:
        out.append(f"pub struct {name};")
        mk = "Self"
    acc = [(n if kind == "named" else str(i), cov) for i, (_, n, _, cov) in enumerate(fields)]
    e1 = " ".join(f"self.{n}.e1(o);" for n, _ in acc)
    e2 = " ".join(f"self.{n}.e2(p);" for n, cov in acc if cov)
    d2 = "Ok(<Self as SiaDecodable>::decode(r)? == *self)" if both else "let _ = r; Ok(false)"
    out.append(f"""impl Obj for {name} {{
    fn refs(&self) -> (Vec<u8>, Vec<u8>) {{
        let (mut a, mut b) = (vec![], vec![]);
        let (o, p) = (&mut a, &mut b);
        {e1 or 'let _ = o;'} {e2 or 'let _ = p;'}
        (a, b)
    }}
    fn enc1(&self, w: &mut &mut dyn Write) -> encoding::Result<()> {{ self.encode_v1(w) }}
    fn enc2(&self, w: &mut &mut dyn Write) -> encoding::Result<()> {{ SiaEncodable::encode(self, w) }}
    fn dec1(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> {{ Ok(<Self as V1SiaDecodable>::decode_v1(r)? == *self) }}
    fn dec2(&self, r: &mut &mut dyn Read) -> encoding::Result<bool> {{ {d2} }}
    fn text(&self) -> String {{ format!("{{self:?}}") }}
}}
fn mk_{name}(c: &mut Ctx) -> Box<dyn Obj> {{ let _ = &c; Box::new({mk.replace("Self", name, 1)}) }}""")
    units.append((name, both))

N = ["zeta", "mid", "alpha"]          # declaration order is not alphabetical order
emit("UnitShape", "unit", [])
emit("NamedEmpty", "named", [])
emit("TupleEmpty", "tuple", [])
for k in (1, 2, 3):
    for ix in itertools.product(range(5), repeat=k):
        tag = "".join(S[i] for i in ix)
        emit("N_" + tag, "named", [("pub ", N[j], T[i], True) for j, i in enumerate(ix)])
        emit("T_" + tag, "tuple", [("pub " if (j + k) % 2 else "", "", T[i], True) for j, i in enumerate(ix)])
# private named fields: the v1 derive covers them, the v2 derive encodes the public ones
for k in (1, 2, 3):
    for vis in itertools.product((0, 1), repeat=k):
        if all(vis):
            continue
        for rot in range(5 if k < 3 else 3):
            tag = "".join("p" if v else "x" for v in vis) + str(rot)
            emit("V_" + tag, "named", [("pub " if v else "", N[j], T[(j * 2 + rot) % 5], bool(v)) for j, v in enumerate(vis)],
                 "SiaEncode, V1SiaEncode, V1SiaDecode", False)
# wide shapes
for w in (4, 5, 8, 11, 12, 13, 20, 33):
    for r in range(2):
        emit(f"WN{w}_{r}", "named", [("pub ", f"f{(w - j) * 7 % 101}_{j}", T[(j * (r + 1) + r) % 5], True) for j in range(w)])
        emit(f"WT{w}_{r}", "tuple", [("pub ", "", T[(j * (r + 1) + r) % 5], True) for j in range(w)])
# names that the generated code also uses, raw identifiers, paths, nested generics, other derived shapes
emit("OddNames", "named", [("pub ", "w", "u8", True), ("pub ", "enc", "u64", True), ("pub ", "r", "Vec<u8>", True),
                           ("pub ", "r#type", "u8", True), ("pub ", "name", "Currency", True), ("pub ", "ty", "u64", True),
                           ("pub ", "index", "u8", True), ("pub ", "fields", "Option<u64>", True)])
emit("OddNames2", "named", [("pub ", "_reserved", "u64", True), ("pub ", "__pad", "Vec<u8>", True), ("pub ", "größe", "u8", True),
                            ("pub ", "Upper", "Currency", True), ("pub ", "version", "u64", True), ("pub ", "padding", "u8", True),
                            ("pub ", "signature", "Vec<u8>", True), ("pub ", "len", "Option<u64>", True), ("pub ", "id", "u64", True),
                            ("pub ", "self_", "u8", True), ("pub ", "buf", "u64", True), ("pub ", "result", "u8", True),
                            ("pub ", "v1", "u64", True), ("pub ", "r#fn", "u8", True), ("pub ", "x_", "u64", True)])
emit("Attributes", "named", [("pub ", "a", "u64", True), ("pub ", "b", "Currency", True), ("pub ", "c", "Vec<u8>", True),
                             ("pub ", "d", "Option<u64>", True), ("pub ", "e", "u8", True), ("pub ", "f", "u64", True), ("pub ", "g", "u8", True)],
     "SiaEncode, serde::Serialize, SiaDecode, V1SiaEncode, serde::Deserialize, V1SiaDecode",
     attrs={"a": "#[serde(skip)] ", "b": '#[serde(rename = "q")] ', "c": "#[serde(default)] ", "d": '#[serde(skip_serializing_if = "Option::is_none")] ',
            "e": "#[doc(hidden)] ", "f": "#[cfg(all())] ", "g": "#[cfg_attr(all(), serde(skip_deserializing))] "})
emit("AttributesT", "tuple", [("#[serde(skip)] pub ", "", "u64", True), ("#[doc(hidden)] ", "", "Vec<u8>", True), ("#[serde(default)] pub ", "", "u8", True)],
     "SiaEncode, serde::Serialize, SiaDecode, V1SiaEncode, serde::Deserialize, V1SiaDecode")
emit("Paths", "named", [("pub ", "a", "std::vec::Vec<std::option::Option<u64>>", True), ("pub ", "b", "Vec<Vec<u8>>", True),
                        ("pub ", "c", "[u8; 5]", True), ("pub ", "d", "sia::types::Hash256", True), ("pub ", "e", "String", True),
                        ("pub ", "f", "bool", True)],
     attrs={"b": "/// documented\n ", "d": "#[allow(dead_code)] "})
emit("PathsT", "tuple", [("", "", "std::vec::Vec<std::option::Option<u64>>", True), ("pub(crate) ", "", "[u8; 5]", True),
                         ("pub ", "", "sia::types::Address", True), ("", "", "String", True)])
# probes count calls and fail on demand
for w in (1, 2, 3, 6, 12, 24):
    emit(f"PN{w}", "named", [("pub ", f"f{(w - j) * 13 % 97}_{j}", "Probe", True) for j in range(w)])
    emit(f"PT{w}", "tuple", [("pub ", "", "Probe", True) for j in range(w)])
out.append("")
out.append("pub fn shapes(v: &mut Vec<Unit>) {")
for n, both in units:
    if n.startswith("P") and n[1] in "NT":
        w = int(n[2:])
        out.append(f'    v.push(probed("{n}", mk_{n}, {w}));')
    elif both:
        out.append(f'    v.push(body("{n}", mk_{n}, true));')
    else:
        out.append(f'    v.push(body("{n}", mk_{n}, false));')
out.append("}")
open(sys.argv[1] if len(sys.argv) > 1 else "/verif/harness/src/props/derive_gen.rs", "w").write("\n".join(out) + "\n")
print(len(units), "shapes")
