//! Typed targets (C09 - C14, C19, C20): every target is compared with a
//! reference interpretation of the same value tree.
use crate::ctx::*;
use crate::model::*;
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser::ErrorKind;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Any,
    Range,
    Len,
}
pub type R<T> = Result<T, Bad>;

/// Feeds events until one is refused; the slot afterwards.
pub fn feed<T: Deserialize>(evs: &[Ev]) -> (Result<(), ErrorKind>, Option<T>) {
    let mut out = None;
    let mut r = Ok(());
    {
        let mut d = DeserializeDriver::new(&mut out);
        for e in evs {
            if let Err(x) = d.emit(to_event(e)) {
                r = Err(x.kind());
                break;
            }
        }
    }
    (r, out)
}

thread_local! { static PURE: Cell<bool> = Cell::new(false); }
/// Whether generated trees must fit their type.
pub fn pure() -> bool {
    PURE.with(|p| p.get())
}
pub fn set_pure(x: bool) {
    PURE.with(|p| p.set(x))
}

/// What a target type makes of a value tree.
pub trait Model: Deserialize + Debug + PartialEq {
    fn model(t: &Tree) -> R<Self>;
    /// A tree that usually fits the type.
    fn gen(r: &mut Rng, d: u32) -> Tree;
    fn name() -> String;
    /// Scalar targets store nothing when they refuse.
    const SCALAR: bool = false;
    /// What null becomes for an option directly around the type.
    fn within_null() -> Option<Self> {
        None
    }
}

fn atom(t: &Tree) -> R<&Ev> {
    match t {
        Tree::Atom(e) => Ok(e),
        _ => Err(Bad::Any),
    }
}
pub fn seq(t: &Tree) -> R<&[Tree]> {
    match t {
        Tree::Seq(x) => Ok(x),
        _ => Err(Bad::Any),
    }
}
pub fn pairs(t: &Tree) -> R<Vec<(Tree, Tree)>> {
    match t {
        Tree::Map(x) => Ok(x.clone()),
        Tree::Struct(x) => Ok(x.iter().map(|(k, v)| (Tree::Atom(Ev::Str(k.clone())), v.clone())).collect()),
        _ => Err(Bad::Any),
    }
}

pub const INTS: &[i128] = &[
    0, 1, 2, 5, 9, 10, 41, 99, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537,
    2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296, 4294967297, 9007199254740991, 9007199254740993,
    9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, 18446744073709551614, 18446744073709551615,
];
pub fn int_ev(v: i128, signed: bool) -> Option<Ev> {
    if signed {
        i64::try_from(v).ok().map(Ev::I64)
    } else {
        u64::try_from(v).ok().map(Ev::U64)
    }
}
pub fn rand_int(r: &mut Rng) -> Ev {
    loop {
        let mut v = match r.below(4) {
            0 | 1 => *r.pick(INTS),
            2 => r.next() as i128,
            _ => (r.next() >> r.below(64)) as i128,
        };
        if r.below(2) == 0 {
            v = -v;
        }
        if let Some(e) = int_ev(v, r.below(2) == 0) {
            return e;
        }
    }
}
pub const STRS: &[&str] = &["", "a", "b", "ab", "x\0y", "ß", "日本語", "😀", "key", "\"q\"\\", "0", "null", "\u{10ffff}", "a longer string with spaces"];
pub fn rand_str(r: &mut Rng) -> String {
    if r.below(3) > 0 {
        r.pick(STRS).to_string()
    } else {
        (0..r.below(6)).map(|_| *r.pick(&['a', 'é', '\n', '漢', '𝄞', 'z'])).collect()
    }
}
pub const FLOATS: &[f64] = &[0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 1e300, -1e300, 1e39, 3.4028234663852886e38, 3.4028235677973366e38, 3.402823669209385e38,
    5e-324, 1e-45, 7e-46, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 16777217.0, 9007199254740993.0, 1.0000000596046448];
pub fn rand_atom(r: &mut Rng) -> Ev {
    match r.below(9) {
        0 => Ev::Null,
        1 => Ev::Bool(r.below(2) == 0),
        2 | 3 => Ev::Str(rand_str(r)),
        4 => Ev::Bytes((0..r.below(5)).map(|_| r.next() as u8).collect()),
        5 => Ev::Char(*r.pick(&['a', 'é', '\0', '漢', '😀'])),
        6 => Ev::F64(if r.below(2) == 0 { *r.pick(FLOATS) } else { f64::from_bits(r.next()) }),
        _ => rand_int(r),
    }
}
pub fn rand_tree(r: &mut Rng, d: u32) -> Tree {
    if d == 0 || r.below(3) == 0 {
        return Tree::Atom(rand_atom(r));
    }
    match r.below(3) {
        0 => Tree::Seq((0..r.below(4)).map(|_| rand_tree(r, d - 1)).collect()),
        1 => Tree::Map((0..r.below(4)).map(|_| (rand_tree(r, d - 1), rand_tree(r, d - 1))).collect()),
        _ => Tree::Struct((0..r.below(4)).map(|_| (rand_str(r), rand_tree(r, d - 1))).collect()),
    }
}
/// Replaces, drops or repeats a random part of a tree.
pub fn mutate(t: &mut Tree, r: &mut Rng) {
    match t {
        Tree::Seq(xs) if r.below(3) > 0 => match r.below(4) {
            0 if !xs.is_empty() => {
                let i = r.below(xs.len());
                xs.remove(i);
            }
            1 if !xs.is_empty() => {
                let i = r.below(xs.len());
                xs.push(xs[i].clone());
            }
            2 => xs.push(rand_tree(r, 2)),
            _ if !xs.is_empty() => {
                let i = r.below(xs.len());
                mutate(&mut xs[i], r);
            }
            _ => *t = rand_tree(r, 2),
        },
        Tree::Map(xs) if !xs.is_empty() && r.below(3) > 0 => {
            let i = r.below(xs.len());
            match r.below(4) {
                0 => {
                    let k = xs[i].clone();
                    xs.push(k)
                }
                1 => mutate(&mut xs[i].0, r),
                2 => {
                    let j = r.below(xs.len());
                    let k = xs[j].0.clone();
                    xs[i].0 = k;
                }
                _ => mutate(&mut xs[i].1, r),
            }
        }
        Tree::Struct(xs) if !xs.is_empty() && r.below(3) > 0 => {
            let i = r.below(xs.len());
            match r.below(4) {
                0 => {
                    xs.remove(i);
                }
                1 => {
                    let k = xs[i].clone();
                    xs.push(k)
                }
                2 => xs[i].0 = rand_str(r),
                _ => mutate(&mut xs[i].1, r),
            }
        }
        _ => *t = rand_tree(r, 2),
    }
}

macro_rules! ints { ($($t:ident)*) => { $(impl Model for $t {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<$t> {
        let v = match atom(t)? { Ev::U64(x) => *x as i128, Ev::I64(x) => *x as i128, _ => return Err(Bad::Any) };
        if v < $t::MIN as i128 || v > $t::MAX as i128 { Err(Bad::Range) } else { Ok(v as $t) }
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        if r.below(3) == 0 && !pure() { return Tree::Atom(rand_int(r)); }
        let v = ((r.next() as $t) >> r.below($t::BITS as usize)) as i128;
        Tree::Atom(int_ev(v, v < 0 || r.below(2) == 0).unwrap_or_else(|| int_ev(v, false).unwrap()))
    }
    fn name() -> String { stringify!($t).into() }
})* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

impl Model for () {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<()> {
        if matches!(atom(t)?, Ev::Null) { Ok(()) } else { Err(Bad::Any) }
    }
    fn gen(_: &mut Rng, _: u32) -> Tree {
        Tree::Atom(Ev::Null)
    }
    fn name() -> String {
        "()".into()
    }
}
impl Model for bool {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<bool> {
        if let Ev::Bool(b) = atom(t)? { Ok(*b) } else { Err(Bad::Any) }
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        Tree::Atom(Ev::Bool(r.below(2) == 0))
    }
    fn name() -> String {
        "bool".into()
    }
}
impl Model for String {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<String> {
        if let Ev::Str(b) = atom(t)? { Ok(b.clone()) } else { Err(Bad::Any) }
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        Tree::Atom(Ev::Str(rand_str(r)))
    }
    fn name() -> String {
        "String".into()
    }
}
impl Model for char {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<char> {
        match atom(t)? {
            Ev::Char(c) => Ok(*c),
            Ev::Str(s) => {
                let v: Vec<char> = s.chars().collect();
                if v.len() == 1 { Ok(v[0]) } else { Err(Bad::Any) }
            }
            _ => Err(Bad::Any),
        }
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        let c = *r.pick(&['a', 'b', 'é', '\0', '漢', '😀', '\u{10ffff}']);
        Tree::Atom(if r.below(2) == 0 { Ev::Char(c) } else { Ev::Str(c.to_string()) })
    }
    fn name() -> String {
        "char".into()
    }
}
/// Floats compared by bits (NaNs are equal).
#[derive(Debug, Clone, Copy)]
pub struct F<T>(pub T);
impl PartialEq for F<f64> {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
impl PartialEq for F<f32> {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
impl<T: Deserialize> Deserialize for F<T> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        // F is a transparent wrapper for the comparison only
        SinkHandle::boxed(FSink { out, sink: deser::de::OwnedSink::deserialize() })
    }
}
struct FSink<'a, T> {
    out: &'a mut Option<F<T>>,
    sink: deser::de::OwnedSink<T>,
}
impl<'a, T: Deserialize> deser::de::Sink for FSink<'a, T> {
    fn atom(&mut self, a: deser::Atom, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        self.sink.borrow_mut().atom(a, s)
    }
    fn map(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        self.sink.borrow_mut().map(s)
    }
    fn seq(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        self.sink.borrow_mut().seq(s)
    }
    fn finish(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        self.sink.borrow_mut().finish(s)?;
        *self.out = self.sink.take().map(F);
        Ok(())
    }
}
macro_rules! floats { ($($t:ident)*) => { $(impl Model for F<$t> {
    const SCALAR: bool = true;
    fn model(t: &Tree) -> R<Self> {
        Ok(F(match atom(t)? { Ev::U64(x) => *x as $t, Ev::I64(x) => *x as $t, Ev::F64(x) => *x as $t, _ => return Err(Bad::Any) }))
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        Tree::Atom(match r.below(3) { 0 => rand_int(r), 1 => Ev::F64(*r.pick(FLOATS)), _ => Ev::F64(f64::from_bits(r.next())) })
    }
    fn name() -> String { stringify!($t).into() }
})* } }
floats!(f32 f64);

fn is_u8<T: 'static>() -> bool {
    std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>()
}
fn many<T: Model>(r: &mut Rng, d: u32) -> Tree {
    let n = if d == 0 { 0 } else { match r.below(10) { 0 => 0, 9 => 20, n => n } };
    Tree::Seq((0..n).map(|_| T::gen(r, d - 1)).collect())
}
impl<T: Model + 'static> Model for Vec<T> {
    fn model(t: &Tree) -> R<Self> {
        if let Tree::Atom(Ev::Bytes(b)) = t {
            if is_u8::<T>() {
                return b.iter().map(|x| T::model(&Tree::Atom(Ev::U64(*x as u64)))).collect();
            }
        }
        seq(t)?.iter().map(T::model).collect()
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        if is_u8::<T>() && r.below(2) == 0 {
            return Tree::Atom(Ev::Bytes((0..r.below(40)).map(|_| r.next() as u8).collect()));
        }
        many::<T>(r, d)
    }
    fn name() -> String {
        format!("Vec<{}>", T::name())
    }
}
impl<T: Model + Ord> Model for BTreeSet<T> {
    fn model(t: &Tree) -> R<Self> {
        seq(t)?.iter().map(T::model).collect()
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        many::<T>(r, d)
    }
    fn name() -> String {
        format!("BTreeSet<{}>", T::name())
    }
}
impl<T: Model + Eq + std::hash::Hash> Model for HashSet<T> {
    fn model(t: &Tree) -> R<Self> {
        seq(t)?.iter().map(T::model).collect()
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        many::<T>(r, d)
    }
    fn name() -> String {
        format!("HashSet<{}>", T::name())
    }
}
fn entries<K: Model, V: Model>(r: &mut Rng, d: u32) -> Tree {
    let n = if d == 0 { 0 } else { match r.below(8) { 0 => 0, 7 => 15, n => n } };
    let mut v: Vec<(Tree, Tree)> = (0..n).map(|_| (K::gen(r, d - 1), V::gen(r, d - 1))).collect();
    if n > 1 && r.below(2) == 0 {
        let (i, j) = (r.below(n), r.below(n));
        v[i].0 = v[j].0.clone();
    }
    Tree::Map(v)
}
impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn model(t: &Tree) -> R<Self> {
        pairs(t)?.iter().map(|(k, v)| Ok((K::model(k)?, V::model(v)?))).collect()
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        entries::<K, V>(r, d)
    }
    fn name() -> String {
        format!("BTreeMap<{}, {}>", K::name(), V::name())
    }
}
impl<K: Model + Eq + std::hash::Hash, V: Model> Model for HashMap<K, V> {
    fn model(t: &Tree) -> R<Self> {
        pairs(t)?.iter().map(|(k, v)| Ok((K::model(k)?, V::model(v)?))).collect()
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        entries::<K, V>(r, d)
    }
    fn name() -> String {
        format!("HashMap<{}, {}>", K::name(), V::name())
    }
}
impl<T: Model> Model for Option<T> {
    fn model(t: &Tree) -> R<Self> {
        if let Tree::Atom(Ev::Null) = t { Ok(T::within_null()) } else { T::model(t).map(Some) }
    }
    fn within_null() -> Option<Self> {
        Some(T::within_null())
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        if r.below(3) == 0 { Tree::Atom(Ev::Null) } else { T::gen(r, d) }
    }
    fn name() -> String {
        format!("Option<{}>", T::name())
    }
}
impl<T: Model> Model for Box<T> {
    fn model(t: &Tree) -> R<Self> {
        T::model(t).map(Box::new)
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        T::gen(r, d)
    }
    fn name() -> String {
        format!("Box<{}>", T::name())
    }
}
impl<T: Model + 'static, const N: usize> Model for [T; N] {
    fn model(t: &Tree) -> R<Self> {
        if let Tree::Atom(Ev::Bytes(b)) = t {
            if is_u8::<T>() {
                if b.len() != N {
                    return Err(Bad::Len);
                }
                let v: R<Vec<T>> = b.iter().map(|x| T::model(&Tree::Atom(Ev::U64(*x as u64)))).collect();
                return Ok(v?.try_into().ok().unwrap());
            }
        }
        let xs = seq(t)?;
        let v: R<Vec<T>> = xs.iter().take(N).map(T::model).collect();
        v?.try_into().map_err(|_| Bad::Len).and_then(|x| if xs.len() > N { Err(Bad::Len) } else { Ok(x) })
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        let n = match r.below(12) { _ if pure() => N, 0 => N.saturating_sub(1), 1 => N + 1, 2 => N + 2, 3 => 0, _ => N };
        if is_u8::<T>() && r.below(2) == 0 {
            return Tree::Atom(Ev::Bytes((0..n).map(|_| r.next() as u8).collect()));
        }
        Tree::Seq((0..n).map(|_| T::gen(r, d.saturating_sub(1))).collect())
    }
    fn name() -> String {
        format!("[{}; {}]", T::name(), N)
    }
}
macro_rules! tuples { ($(($n:literal $($t:ident $i:tt),*))*) => { $(impl<$($t: Model),*> Model for ($($t,)*) {
    fn model(t: &Tree) -> R<Self> {
        let xs = seq(t)?;
        $( if let Some(x) = xs.get($i) { $t::model(x)?; } )*
        if xs.len() != $n { return Err(Bad::Len); }
        Ok(($($t::model(&xs[$i])?,)*))
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        let mut v: Vec<Tree> = vec![$($t::gen(r, d.saturating_sub(1))),*];
        match r.below(12) { _ if pure() => {} 0 => { v.pop(); } 1 => { let x = v[0].clone(); v.push(x) } 2 => v.truncate(0), _ => {} }
        Tree::Seq(v)
    }
    fn name() -> String { let v: Vec<String> = vec![$($t::name()),*]; format!("({},)", v.join(", ")) }
})* } }
tuples! {
    (1 A 0) (2 A 0, B 1) (3 A 0, B 1, C 2) (4 A 0, B 1, C 2, D 3) (5 A 0, B 1, C 2, D 3, E 4) (6 A 0, B 1, C 2, D 3, E 4, G 5)
    (7 A 0, B 1, C 2, D 3, E 4, G 5, H 6) (8 A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7) (9 A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8)
    (10 A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9) (11 A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10)
}
// PartialEq and Debug stop at 12 elements
impl<A: Model, B: Model, C: Model, D: Model, E: Model, G: Model, H: Model, I: Model, J: Model, K: Model, L: Model, M: Model> Model for (A, B, C, D, E, G, H, I, J, K, L, M) {
    fn model(t: &Tree) -> R<Self> {
        let xs = seq(t)?;
        if xs.len() < 12 {
            // elements that are there are still checked first
            macro_rules! chk { ($($t:ident $i:tt),*) => { $( if let Some(x) = xs.get($i) { $t::model(x)?; } )* } }
            chk!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, K 9, L 10, M 11);
            return Err(Bad::Len);
        }
        let v = (A::model(&xs[0])?, B::model(&xs[1])?, C::model(&xs[2])?, D::model(&xs[3])?, E::model(&xs[4])?, G::model(&xs[5])?, H::model(&xs[6])?,
            I::model(&xs[7])?, J::model(&xs[8])?, K::model(&xs[9])?, L::model(&xs[10])?, M::model(&xs[11])?);
        if xs.len() > 12 { Err(Bad::Len) } else { Ok(v) }
    }
    fn gen(r: &mut Rng, d: u32) -> Tree {
        let d = d.saturating_sub(1);
        let mut v = vec![A::gen(r, d), B::gen(r, d), C::gen(r, d), D::gen(r, d), E::gen(r, d), G::gen(r, d), H::gen(r, d), I::gen(r, d), J::gen(r, d), K::gen(r, d), L::gen(r, d), M::gen(r, d)];
        match r.below(12) { _ if pure() => {} 0 => { v.pop(); } 1 => { let x = v[0].clone(); v.push(x) } _ => {} }
        Tree::Seq(v)
    }
    fn name() -> String {
        "12-tuple".into()
    }
}

pub fn check_tree<T: Model>(c: &mut Ctx, t: &Tree) {
    check_tree_as::<T>(c, t, "")
}
pub fn check_tree_as<T: Model>(c: &mut Ctx, t: &Tree, note: &str) {
    let evs = t.evs();
    let want = T::model(t);
    c.case(
        || format!("{}{} from {:?}", T::name(), note, evs),
        format!("{}{:?}", T::name(), evs).as_bytes(),
        true,
        || {
            let (r, got) = feed::<T>(&evs);
            match (&want, r) {
                (Ok(w), Ok(())) => {
                    if got.as_ref() != Some(w) {
                        return Err(format!("stored {:?}, expected {:?}", got, w));
                    }
                }
                (Err(_), Ok(())) => return Err(format!("accepted as {:?}, expected an error", got)),
                (Ok(w), Err(k)) => return Err(format!("failed with {:?}, expected {:?}", k, w)),
                (Err(b), Err(k)) => {
                    if (*b == Bad::Range && k != ErrorKind::OutOfRange) || (*b == Bad::Len && k != ErrorKind::WrongLength) {
                        return Err(format!("failed with {:?}, expected {:?}", k, b));
                    }
                    if T::SCALAR && got.is_some() {
                        return Err(format!("refused but stored {:?}", got));
                    }
                }
            }
            Ok(())
        },
    );
}
pub fn run<T: Model>(c: &mut Ctx, n: usize) {
    let n = if c.thorough { n * 20 } else { n };
    for i in 0..n {
        if c.done() {
            return;
        }
        let mut t = T::gen(&mut c.rng, 4);
        if i % 3 == 2 {
            mutate(&mut t, &mut c.rng);
        }
        check_tree::<T>(c, &t);
    }
}

fn all_ints(c: &mut Ctx) -> Vec<Tree> {
    let mut v = vec![];
    for &i in INTS {
        for s in [i, -i, i + 1, -i - 1] {
            for signed in [false, true] {
                if let Some(e) = int_ev(s, signed) {
                    v.push(Tree::Atom(e));
                }
            }
        }
    }
    for x in -70000i64..70000 {
        if c.thorough || x % 7 == 0 || (-400..400).contains(&x) || x.abs() > 65000 || (32000..33000).contains(&x.abs()) {
            v.push(Tree::Atom(Ev::I64(x)));
            if x >= 0 {
                v.push(Tree::Atom(Ev::U64(x as u64)));
            }
        }
    }
    let n = if c.thorough { 200_000 } else { 4000 };
    for _ in 0..n {
        v.push(Tree::Atom(rand_int(&mut c.rng)));
    }
    v
}
pub fn c09(c: &mut Ctx) {
    c.rule("every boundary of every integer type +-1, all of -400..400 and samples to +-70000, random 64-bit integers, signed and unsigned, into all ten types and inside Vec/Option/Box");
    let v = all_ints(c);
    macro_rules! go { ($($t:ident)*) => { $( for t in &v { check_tree::<$t>(c, t); } )* } }
    go!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    macro_rules! go2 { ($($t:ident)*) => { $( run::<Vec<$t>>(c, 300); run::<Option<$t>>(c, 200); run::<Box<$t>>(c, 100); run::<(u8, $t)>(c, 100); run::<BTreeMap<$t, $t>>(c, 100); )* } }
    go2!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
}
pub fn scalars(c: &mut Ctx) -> Vec<Tree> {
    let mut v: Vec<Tree> = vec![Tree::Seq(vec![]), Tree::Map(vec![]), Tree::Struct(vec![]), Tree::Seq(vec![Tree::Atom(Ev::Null)]), Tree::Atom(Ev::Null), Tree::Atom(Ev::Bool(true)), Tree::Atom(Ev::Bool(false))];
    for s in STRS {
        v.push(Tree::Atom(Ev::Str(s.to_string())));
        v.push(Tree::Atom(Ev::Bytes(s.as_bytes().to_vec())));
    }
    for s in ["aa", "é", "e\u{301}", "\u{0}", "\u{0}\u{0}", " ", "true", "1"] {
        v.push(Tree::Atom(Ev::Str(s.to_string())));
    }
    for &f in FLOATS {
        v.push(Tree::Atom(Ev::F64(f)));
    }
    let n = if c.thorough { 1_114_112 } else { 70_000 };
    for x in 0..n {
        if x > 0x3000 && x % 13 != 0 && !c.thorough {
            continue;
        }
        if let Some(ch) = char::from_u32(x as u32) {
            v.push(Tree::Atom(Ev::Char(ch)));
            v.push(Tree::Atom(Ev::Str(ch.to_string())));
        }
    }
    for ch in ['\u{ffff}', '\u{10000}', '\u{10ffff}', '😀'] {
        v.push(Tree::Atom(Ev::Char(ch)));
        v.push(Tree::Atom(Ev::Str(ch.to_string())));
    }
    for &i in INTS {
        for s in [i, -i] {
            for g in [false, true] {
                v.extend(int_ev(s, g).map(Tree::Atom));
            }
        }
    }
    for _ in 0..if c.thorough { 200_000 } else { 5000 } {
        v.push(Tree::Atom(rand_atom(&mut c.rng)));
    }
    for _ in 0..200 {
        v.push(rand_tree(&mut c.rng, 2));
    }
    v
}
pub fn c10(c: &mut Ctx) {
    c.rule("every scalar kind (characters and one-character strings over the code points, float edge cases, random scalars) and containers into (), bool, String, char, f32, f64");
    let v = scalars(c);
    for t in &v {
        check_tree::<()>(c, t);
        check_tree::<bool>(c, t);
        check_tree::<String>(c, t);
        check_tree::<char>(c, t);
        check_tree::<F<f32>>(c, t);
        check_tree::<F<f64>>(c, t);
    }
    run::<Vec<char>>(c, 500);
    run::<Vec<String>>(c, 500);
    run::<Vec<F<f32>>>(c, 500);
    run::<Vec<bool>>(c, 500);
    run::<Vec<()>>(c, 300);
    run::<Option<char>>(c, 300);
    run::<BTreeMap<String, F<f64>>>(c, 300);
}
pub fn c11(c: &mut Ctx) {
    c.rule("random sequences (0..20 elements, a third of them damaged) into Vec, BTreeSet, HashSet of scalars, options, containers; plus long sequences");
    run::<Vec<u32>>(c, 2000);
    run::<Vec<String>>(c, 1000);
    run::<Vec<Option<u8>>>(c, 1500);
    run::<Vec<Option<Vec<bool>>>>(c, 1000);
    run::<Vec<()>>(c, 500);
    run::<Vec<Vec<u64>>>(c, 1000);
    run::<Vec<Vec<Vec<Option<char>>>>>(c, 1000);
    run::<Vec<BTreeMap<String, Vec<u8>>>>(c, 700);
    run::<Vec<(u8, Option<String>)>>(c, 700);
    run::<Vec<[Option<u8>; 2]>>(c, 500);
    run::<Vec<Box<Vec<Box<i8>>>>>(c, 500);
    run::<BTreeSet<u8>>(c, 1500);
    run::<BTreeSet<String>>(c, 1000);
    run::<BTreeSet<Option<u8>>>(c, 1000);
    run::<BTreeSet<Vec<u8>>>(c, 700);
    run::<BTreeSet<BTreeSet<bool>>>(c, 700);
    run::<HashSet<u8>>(c, 1500);
    run::<HashSet<String>>(c, 1000);
    run::<HashSet<Option<i16>>>(c, 1000);
    run::<HashSet<Vec<Option<bool>>>>(c, 700);
    run::<HashSet<()>>(c, 300);
    run::<Vec<HashSet<u8>>>(c, 500);
    run::<Vec<BTreeSet<u8>>>(c, 500);
    run::<Vec<Vec<u8>>>(c, 700);
    for n in [0usize, 1, 2, 127, 128, 129, 1000, 70_000] {
        let t = Tree::Seq((0..n).map(|i| Tree::Atom(Ev::U64(i as u64 % 60_000))).collect());
        check_tree_as::<Vec<u32>>(c, &t, " (long)");
        check_tree_as::<BTreeSet<u32>>(c, &t, " (long)");
        check_tree_as::<HashSet<u32>>(c, &t, " (long)");
    }
}

// --- elements that count how many of them are alive -----------------------
thread_local! { static LIVE: Cell<i64> = Cell::new(0); static POISON: Cell<bool> = Cell::new(false); }
#[derive(Debug)]
pub struct Counted(u64, Box<u64>);
impl Counted {
    fn new(v: u64) -> Counted {
        LIVE.with(|l| l.set(l.get() + 1));
        Counted(v, Box::new(v ^ 0x5555))
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        if self.0 ^ 0x5555 != *self.1 {
            POISON.with(|p| p.set(true));
        }
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Counted) -> bool {
        self.0 == o.0
    }
}
struct CSink<'a>(&'a mut Option<Counted>);
impl<'a> deser::de::Sink for CSink<'a> {
    fn atom(&mut self, a: deser::Atom, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        match a {
            deser::Atom::U64(x) => {
                *self.0 = Some(Counted::new(x));
                Ok(())
            }
            o => self.unexpected_atom(o, s),
        }
    }
}
impl Deserialize for Counted {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(CSink(out))
    }
}
impl Model for Counted {
    fn model(t: &Tree) -> R<Self> {
        match atom(t)? {
            Ev::U64(x) => Ok(Counted::new(*x)),
            _ => Err(Bad::Any),
        }
    }
    fn gen(r: &mut Rng, _: u32) -> Tree {
        Tree::Atom(Ev::U64(r.next() % 100))
    }
    fn name() -> String {
        "Counted".into()
    }
}
/// Feeds the first `stop` events of a tree and drops everything.
fn leak<T: Model>(c: &mut Ctx, t: &Tree, stop: usize) {
    let evs = t.evs();
    c.case(
        || format!("{} from the first {} of {:?}, then dropped", T::name(), stop, evs),
        format!("leak{}{:?}{}", T::name(), evs, stop).as_bytes(),
        true,
        || {
            let before = LIVE.with(|l| l.get());
            {
                let (_r, _out) = feed::<T>(&evs[..stop]);
            }
            let after = LIVE.with(|l| l.get());
            if POISON.with(|p| p.replace(false)) {
                return Err("an element was dropped that was never initialised".into());
            }
            if after > before {
                return Err(format!("{} elements leaked", after - before));
            }
            if after < before {
                return Err(format!("{} elements dropped twice", before - after));
            }
            Ok(())
        },
    );
}
fn leaks<T: Model>(c: &mut Ctx, n: usize) {
    for _ in 0..if c.thorough { n * 10 } else { n } {
        let mut t = T::gen(&mut c.rng, 3);
        if c.rng.below(3) == 0 {
            mutate(&mut t, &mut c.rng);
        }
        let k = t.evs().len();
        for stop in 0..=k.min(12) {
            leak::<T>(c, &t, stop);
        }
        leak::<T>(c, &t, k);
        check_tree::<T>(c, &t);
    }
}
fn count_seq(n: usize) -> Tree {
    Tree::Seq((0..n).map(|i| Tree::Atom(Ev::U64(i as u64 + 3))).collect())
}
pub fn c12(c: &mut Ctx) {
    c.rule("sequences of every length 0..N+3 into tuples 1..12 and arrays 0..33, random element types, damaged input; elements that count live instances, dropped after every prefix of the events");
    macro_rules! tup { ($($t:ty),*) => { $( for n in 0..16 { check_tree::<$t>(c, &count_seq(n)); } )* } }
    tup!((u8,), (u8, u16), (u8, u16, u32), (u8, u16, u32, u64), (u8, i8, u8, i8, u8), (u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u64), (u8, u8, u8, u8, u8, u8, u8, u8, i64), (u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16));
    macro_rules! arr { ($($n:literal)*) => { $( for n in 0..($n + 4) { check_tree::<[u32; $n]>(c, &count_seq(n)); check_tree::<[u8; $n]>(c, &count_seq(n));
        check_tree::<[Counted; $n]>(c, &count_seq(n)); for k in 0..=n + 2 { leak::<[Counted; $n]>(c, &count_seq(n), k); } } )* } }
    arr!(0 1 2 3 4 5 7 8 16 33);
    run::<(u8,)>(c, 300);
    run::<(u8, String)>(c, 1000);
    run::<(bool, u8, Vec<u16>)>(c, 1000);
    run::<(Option<u8>, Option<String>)>(c, 1000);
    run::<(u8, (u16, (u32, String)), char)>(c, 700);
    run::<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, String, Vec<u8>)>(c, 500);
    run::<[u8; 3]>(c, 1000);
    run::<[u32; 4]>(c, 1000);
    run::<[String; 2]>(c, 1000);
    run::<[Option<u8>; 3]>(c, 700);
    run::<[[u8; 2]; 2]>(c, 700);
    run::<[[String; 1]; 3]>(c, 500);
    run::<[Vec<u8>; 2]>(c, 500);
    run::<[(); 3]>(c, 300);
    run::<[(u8, String); 2]>(c, 500);
    run::<Option<[String; 2]>>(c, 300);
    run::<Option<(u8, u8)>>(c, 300);
    leaks::<[Counted; 3]>(c, 100);
    leaks::<[[Counted; 2]; 2]>(c, 100);
    leaks::<(Counted, Counted, Counted)>(c, 100);
    leaks::<[(Counted, Counted); 2]>(c, 60);
    leaks::<Vec<[Counted; 2]>>(c, 60);
    leaks::<[Vec<Counted>; 2]>(c, 60);
    leaks::<Option<[Counted; 3]>>(c, 60);
    leaks::<[Option<Counted>; 3]>(c, 60);
    leaks::<Box<[Counted; 2]>>(c, 60);
    leaks::<BTreeMap<u8, [Counted; 2]>>(c, 60);
}
pub fn c13(c: &mut Ctx) {
    c.rule("random maps (0..15 entries, repeated keys, a third damaged) into BTreeMap and HashMap with scalar, option, container keys and values; plus large maps");
    run::<BTreeMap<String, u32>>(c, 2000);
    run::<BTreeMap<u8, String>>(c, 1500);
    run::<BTreeMap<i16, Option<u8>>>(c, 1500);
    run::<BTreeMap<Option<u8>, u8>>(c, 1000);
    run::<BTreeMap<(u8, bool), Vec<u8>>>(c, 700);
    run::<BTreeMap<Vec<u8>, u8>>(c, 700);
    run::<BTreeMap<String, BTreeMap<String, u8>>>(c, 1000);
    run::<BTreeMap<char, ()>>(c, 500);
    run::<BTreeMap<bool, Option<BTreeMap<bool, u8>>>>(c, 700);
    run::<BTreeMap<BTreeMap<u8, u8>, u8>>(c, 500);
    run::<HashMap<String, u32>>(c, 2000);
    run::<HashMap<u8, String>>(c, 1500);
    run::<HashMap<u8, Option<u8>>>(c, 1500);
    run::<HashMap<Option<bool>, u8>>(c, 1000);
    run::<HashMap<(u8, bool), Vec<u8>>>(c, 700);
    run::<HashMap<Vec<u8>, HashMap<u8, u8>>>(c, 700);
    run::<HashMap<String, HashMap<String, Option<u8>>>>(c, 700);
    run::<HashMap<(), ()>>(c, 300);
    run::<Vec<HashMap<u8, u8>>>(c, 500);
    run::<Vec<BTreeMap<u8, u8>>>(c, 500);
    leaks::<BTreeMap<u8, Counted>>(c, 60);
    leaks::<HashMap<u8, Counted>>(c, 60);
    for n in [0u64, 1, 2, 127, 129, 3000, 40_000] {
        let t = Tree::Map((0..n).map(|i| (Tree::Atom(Ev::U64((i * 7919) % (n * 3 / 4 + 1))), Tree::Atom(Ev::U64(i)))).collect());
        check_tree_as::<BTreeMap<u32, u64>>(c, &t, " (large)");
        check_tree_as::<HashMap<u32, u64>>(c, &t, " (large)");
    }
}
pub fn c14(c: &mut Ctx) {
    c.rule("every scalar and random trees into Option and Box around scalars, containers, tuples, arrays, structs, options and boxes, in every nesting to depth 3");
    let v = { let t = c.thorough; c.thorough = false; let mut v = scalars(c); c.thorough = t; if !t { v.retain(|x| !matches!(x, Tree::Atom(Ev::Char(c)) if (*c as u32) > 300)); v.retain(|x| !matches!(x, Tree::Atom(Ev::Str(s)) if s.chars().count() == 1 && s.chars().next().unwrap() as u32 > 300)); } v };
    for t in &v {
        check_tree::<Option<u8>>(c, t);
        check_tree::<Option<()>>(c, t);
        check_tree::<Option<String>>(c, t);
        check_tree::<Option<bool>>(c, t);
        check_tree::<Option<char>>(c, t);
        check_tree::<Option<F<f32>>>(c, t);
        check_tree::<Option<i64>>(c, t);
        check_tree::<Box<u8>>(c, t);
        check_tree::<Box<()>>(c, t);
        check_tree::<Box<String>>(c, t);
        check_tree::<Box<char>>(c, t);
        check_tree::<Box<Option<u8>>>(c, t);
        check_tree::<Option<Box<u8>>>(c, t);
        check_tree::<Option<Option<u8>>>(c, t);
        check_tree::<Option<Vec<u8>>>(c, t);
        check_tree::<Option<[u8; 2]>>(c, t);
        check_tree::<Box<Vec<u8>>>(c, t);
        check_tree::<Option<BTreeMap<u8, u8>>>(c, t);
    }
    macro_rules! both { ($($t:ty),*) => { $( run::<Option<$t>>(c, 400); run::<Box<$t>>(c, 400); run::<Option<Box<$t>>>(c, 200); run::<Box<Option<$t>>>(c, 200); run::<Vec<Option<$t>>>(c, 200);
        run::<Vec<Box<$t>>>(c, 200); run::<Box<Box<$t>>>(c, 100); run::<Option<Option<$t>>>(c, 200); run::<Option<Option<Box<Option<$t>>>>>(c, 100); run::<(Option<$t>, Box<$t>)>(c, 100); run::<BTreeMap<u8, Option<$t>>>(c, 100);
        run::<HashMap<u8, Box<$t>>>(c, 100); run::<[Option<$t>; 2]>(c, 100); )* } }
    both!(u8, (), String, Vec<u16>, Vec<u8>, Vec<Option<bool>>, BTreeMap<String, u8>, HashMap<u8, Option<u8>>, BTreeSet<u8>, HashSet<String>, (u8, String), [u8; 2], [String; 2], (Option<u8>,));
    #[cfg(feature = "derive")]
    both!(crate::derive::Plain, crate::derive::Flat, crate::derive::Color, crate::derive::Wrap);
}
pub fn c19(c: &mut Ctx) {
    c.rule("byte strings and sequences of every length 0..40 into Vec<u8>, [u8; N] and other targets; serialization of Vec, slices and arrays of u8 and of every other element type");
    for n in 0..40usize {
        for k in 0..4 {
            let b: Vec<u8> = (0..n).map(|i| match k { 0 => i as u8, 1 => 255 - i as u8, 2 => 0x80, _ => c.rng.next() as u8 }).collect();
            let t = Tree::Atom(Ev::Bytes(b.clone()));
            macro_rules! chk { ($($t:ty),*) => { $( check_tree::<$t>(c, &t); )* } }
            chk!(Vec<u8>, Vec<u16>, Vec<i8>, Vec<bool>, Vec<()>, Vec<char>, Vec<String>, Vec<Vec<u8>>, Vec<Option<u8>>, Vec<Box<u8>>, Vec<u64>, Vec<[u8; 1]>);
            #[cfg(feature = "derive")]
            chk!(Vec<crate::derive::Wrap>);
            chk!([u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 8], [u8; 16], [u8; 17], [u8; 32], [u8; 33], [i8; 3], [u16; 2], [bool; 4], [Option<u8>; 2], [Box<u8>; 2], [(); 0], [String; 1]);
            chk!(Option<Vec<u8>>, Box<Vec<u8>>, Option<[u8; 4]>, Box<[u8; 4]>, (u8, u8), BTreeSet<u8>, HashSet<u8>, BTreeMap<u8, u8>, u8, String, ());
            #[cfg(feature = "derive")]
            chk!(crate::derive::WrapBytes);
            let s = Tree::Seq(b.iter().map(|x| Tree::Atom(Ev::U64(*x as u64))).collect());
            check_tree::<Vec<u8>>(c, &s);
            check_tree::<[u8; 3]>(c, &s);
            check_tree::<Vec<Vec<u8>>>(c, &Tree::Seq(vec![t.clone(), s.clone(), t.clone()]));
            check_tree::<BTreeMap<Vec<u8>, Vec<u8>>>(c, &Tree::Map(vec![(t.clone(), t.clone()), (s.clone(), t.clone())]));
        }
    }
    for n in [1000usize, 70_000] {
        check_tree_as::<Vec<u8>>(c, &Tree::Atom(Ev::Bytes((0..n).map(|i| (i * 31) as u8).collect())), " (long)");
    }
    leaks::<Vec<Counted>>(c, 20);
    crate::ser::bytes(c);
}
/// A value goes in at a place that ignores it; the neighbours stay.
pub fn c20(c: &mut Ctx) {
    c.rule("random trees and deep nestings at unknown keys of derived structs (also nested and flattened), between and around known ones; the same trees into an ignoring sink");
    let n = if c.thorough { 40_000 } else { 3000 };
    for i in 0..n {
        if c.done() {
            return;
        }
        let junk = if i % 50 == 0 {
            let mut t = Tree::Atom(rand_atom(&mut c.rng));
            for _ in 0..c.rng.below(2000) {
                t = if c.rng.below(2) == 0 { Tree::Seq(vec![Tree::Atom(Ev::Null), t]) } else { Tree::Map(vec![(Tree::Atom(rand_atom(&mut c.rng)), t)]) };
            }
            t
        } else {
            rand_tree(&mut c.rng, 4)
        };
        // an ignoring sink takes anything
        let evs = junk.evs();
        c.case(
            || format!("ignoring sink from {:?}", short(&evs)),
            format!("ign{:?}", evs).as_bytes(),
            true,
            || {
                let mut d = DeserializeDriver::from_sink(SinkHandle::null());
                for e in &evs {
                    d.emit(to_event(e)).map_err(|x| format!("refused {:?}: {:?}", e, x))?;
                }
                Ok(())
            },
        );
        #[cfg(feature = "derive")]
        crate::derive::unknown_key(c, &junk);
    }
}
pub fn short(e: &[Ev]) -> String {
    let mut s = format!("{:?}", e);
    if s.len() > 4000 {
        let mut k = 4000;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s += " ...";
    }
    s
}
