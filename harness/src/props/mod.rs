//! The properties and how each one is decided.
use crate::engine::*;
pub mod nets;
pub mod reg;
pub mod refs;

// Each group is a cargo feature, so that a check compiles only what it needs.
#[cfg(feature = "wire")]
mod wire;
#[cfg(feature = "hostile")]
mod hostile;
#[cfg(feature = "io")]
mod io;
#[cfg(feature = "ids")]
mod ids;
#[cfg(feature = "tree")]
mod tree;
#[cfg(feature = "rules")]
mod rules;
#[cfg(feature = "text")]
mod text;
#[cfg(feature = "arith")]
mod arith;
#[cfg(feature = "keys")]
mod keys;

#[cfg(feature = "derive")]
mod derive;

#[cfg(feature = "json")]
mod json;
#[cfg(feature = "compact")]
mod compact;
#[cfg(feature = "equal")]
mod equal;
#[cfg(feature = "flow")]
mod flow;
#[cfg(feature = "sched")]
mod sched;
#[cfg(feature = "pure")]
pub mod pure;
#[cfg(feature = "pure")]
mod race;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub profiles: &'static [&'static str],
    pub units: fn() -> Vec<Unit>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}
const C: &[&str] = &["checked"];
const CW: &[&str] = &["checked", "wrapping"];
const MC: &str = "model_checking";

/// Larger budget in the thorough tier.
pub fn b(quick: u64) -> u64 {
    if crate::thorough() {
        quick.saturating_mul(40)
    } else {
        quick
    }
}
/// The long-list cases of a codec, up to `cap` encoded bytes.
pub fn wire_cases<W: reg::Wire>(cap: usize) -> Vec<(usize, usize)> {
    use crate::model::*;
    long_cases(<W::V as G>::g, |v| W::renc(v).len(), cap)
}
/// A base value, and a value within the deviation bound of the same or the next base value.
pub fn pair<T>(c: &mut Ctx, gen: fn(&mut Ctx) -> T) -> (T, T) {
    c.base();
    let next = c.free(2);
    let v = gen(c);
    let mut k = Ctx::new(&[], false);
    k.mode = (c.mode + next) % 3;
    k.json = c.json;
    (gen(&mut k), v)
}
/// How a value takes the place of another one.
pub type Put<T> = fn(&mut T, T);
pub type Op<T> = (&'static str, fn(&T) -> Result<u64, String>);
pub fn replace<T>(slot: &mut T, v: T) {
    *slot = v;
}
pub fn reuse<T>(slot: &mut Vec<T>, v: Vec<T>) {
    slot.clear();
    slot.extend(v);
}
/// Operations on a value, then on another one that was put in its place: each operation is judged by
/// its own oracle, so what an earlier one left behind must not matter. The last operation before is also
/// the first one after; deviations choose another one.
pub fn in_place<T: std::fmt::Debug>(c: &mut Ctx, gen: fn(&mut Ctx) -> T, puts: &[Put<T>], ops: &[Op<T>]) -> Res {
    let last = c.free(ops.len());
    let (put, swap) = (puts[c.free(puts.len())], c.free(2) == 1);
    let (mut a, mut b) = pair(c, gen);
    let first = (last + c.choose(ops.len())) % ops.len();
    if swap {
        std::mem::swap(&mut a, &mut b);
    }
    c.sample(|| format!("{} of {}, then {} of {} in its place", ops[last].0, dbg(&a), ops[first].0, dbg(&b)));
    let mut slot = Box::new(a);
    let mut h = 0u64;
    for o in ops.iter().chain([&ops[last]]) {
        h = h.rotate_left(9) ^ o.1(&slot)?;
    }
    put(&mut slot, b);
    for o in [&ops[first]].into_iter().chain(ops.iter().rev()) {
        h = h.rotate_left(9) ^ o.1(&slot).map_err(|m| format!("after operations on another value in the same place (last: {}), {} is wrong: {m}", ops[last].0, o.0))?;
    }
    c.evals += 2 * ops.len() as u64 + 1;
    Ok(h)
}
/// The base value of a kind.
pub fn base<T: crate::model::G>(mode: usize) -> T {
    let mut k = Ctx::new(&[], false);
    k.mode = mode;
    T::g(&mut k)
}
/// Memory whose contents come and go: what it held before must not matter to an operation.
pub struct Place(Box<[u128; 2048]>);
impl Default for Place {
    fn default() -> Self {
        Place(Box::new([0; 2048]))
    }
}
impl Place {
    pub fn with<T, R>(&mut self, v: T, f: impl FnOnce(&T) -> R) -> R {
        assert!(size_of::<T>() <= 2048 * 16 && align_of::<T>() <= 16);
        struct Occupied<T>(*mut T);
        impl<T> Drop for Occupied<T> {
            fn drop(&mut self) {
                unsafe { self.0.drop_in_place() }
            }
        }
        let p = self.0.as_mut_ptr() as *mut T;
        unsafe { p.write(v) };
        let g = Occupied(p);
        f(unsafe { &*g.0 })
    }
    pub fn bytes<R>(&mut self, b: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
        if b.len() > 2048 * 16 {
            return f(b);
        }
        let m = unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, b.len()) };
        m.copy_from_slice(b);
        f(m)
    }
    pub fn text<R>(&mut self, s: &str, f: impl FnOnce(&str) -> R) -> R {
        self.bytes(s.as_bytes(), |b| f(std::str::from_utf8(b).unwrap()))
    }
}
/// One operation on a fixed value, judged by its own oracle.
pub struct Step {
    pub name: String,
    pub run: Box<dyn Fn(&mut Place) -> Result<u64, String> + Send + Sync>,
}
pub fn step<T: 'static>(o: &mut Vec<Step>, name: impl Into<String>, make: impl Fn() -> T + Send + Sync + 'static, f: fn(&T) -> Result<u64, String>) {
    o.push(Step { name: name.into(), run: Box::new(move |p| p.with(make(), f)) });
}
pub fn text_step(o: &mut Vec<Step>, name: impl Into<String>, s: &str, f: fn(&str) -> Result<u64, String>) {
    let s = s.to_string();
    o.push(Step { name: name.into(), run: Box::new(move |p| p.text(&s, f)) });
}
pub fn bad<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}
pub fn dbg<T: std::fmt::Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 160 {
        crate::model::hexs(b)
    } else {
        format!("{}...({} bytes)", crate::model::hexs(&b[..160]), b.len())
    }
}
pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    #[cfg(feature = "wire")]
    v.extend(wire::PROPS);
    #[cfg(feature = "hostile")]
    v.extend(hostile::PROPS);
    #[cfg(feature = "io")]
    v.extend(io::PROPS);
    #[cfg(feature = "ids")]
    v.extend(ids::PROPS);
    #[cfg(feature = "tree")]
    v.extend(tree::PROPS);
    #[cfg(feature = "rules")]
    v.extend(rules::PROPS);
    #[cfg(feature = "text")]
    v.extend(text::PROPS);
    #[cfg(feature = "arith")]
    v.extend(arith::PROPS);
    #[cfg(feature = "keys")]
    v.extend(keys::PROPS);
    #[cfg(feature = "derive")]
    v.extend(derive::PROPS);
    #[cfg(feature = "json")]
    v.extend(json::PROPS);
    #[cfg(feature = "compact")]
    v.extend(compact::PROPS);
    #[cfg(feature = "equal")]
    v.extend(equal::PROPS);
    #[cfg(feature = "flow")]
    v.extend(flow::PROPS);
    #[cfg(feature = "sched")]
    v.extend(sched::PROPS);
    #[cfg(feature = "pure")]
    v.extend(pure::PROPS);
    v.sort_by_key(|p| p.id);
    v
}
