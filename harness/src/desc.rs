//! What descriptors say (C32).
use crate::ctx::*;
use deser::de::Deserialize;
use deser::{Descriptor, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// None: not constrained.
struct Want {
    name: Option<&'static str>,
    precision: Option<usize>,
    unordered: bool,
}
fn same(d: &dyn Descriptor, w: &Want) -> Result<(), String> {
    match w.name {
        Some(n) => eq("name", d.name().map(|x| x.to_string()), Some(n.to_string()))?,
        None => eq("named", d.name().is_some(), true)?,
    }
    eq("precision", d.precision(), w.precision)?;
    eq("unordered", d.unordered(), w.unordered)
}
fn says<T: Serialize>(c: &mut Ctx, what: &str, mut v: T, w: Want) {
    c.case(|| format!("descriptor of a value of type {}", what), what.as_bytes(), true, || {
        same(v.descriptor(), &w)?;
        same((&v).descriptor(), &w)?;
        same((&&v).descriptor(), &w)?;
        same((&mut v).descriptor(), &w)?;
        same((&v as &dyn Serialize).descriptor(), &w)?;
        let b = Box::new(v);
        same(Serialize::descriptor(&b), &w)?;
        same(Serialize::descriptor(&Box::new(&b)), &w)
    })
}
fn takes<T: Deserialize>(c: &mut Ctx, what: &str, unordered: bool, name: Option<&'static str>) {
    c.case(|| format!("descriptor of the sink of {}", what), format!("sink {}", what).as_bytes(), true, || {
        let mut a = None::<T>;
        let d = T::deserialize_into(&mut a);
        eq("unordered", d.descriptor().unordered(), unordered)?;
        if let Some(n) = name {
            eq("name", d.descriptor().name().map(|x| x.to_string()), Some(n.to_string()))?;
        }
        let own = (d.descriptor().name().map(|x| x.to_string()), d.descriptor().precision());
        let mut b = None::<Box<T>>;
        let e = Box::<T>::deserialize_into(&mut b);
        eq("unordered in a box", e.descriptor().unordered(), unordered)?;
        eq("name and precision in a box", (e.descriptor().name().map(|x| x.to_string()), e.descriptor().precision()), own.clone())?;
        let mut b = None::<Option<T>>;
        let e = Option::<T>::deserialize_into(&mut b);
        eq("unordered in an option", e.descriptor().unordered(), unordered)?;
        eq("name and precision in an option", (e.descriptor().name().map(|x| x.to_string()), e.descriptor().precision()), own)
    })
}
pub fn c32(c: &mut Ctx) {
    c.rule("every scalar, string and collection type (empty and not, byte and not), behind references and boxes; the sinks of every target type, behind boxes and options; derived structs, newtypes");
    let plain = || Want { name: None, precision: None, unordered: false };
    let shuffled = || Want { name: None, precision: None, unordered: true };
    macro_rules! num { ($($t:ident $n:expr),*) => { $(
        for v in [0 as $t, 1 as $t, $t::MAX, $t::MIN] {
            says(c, stringify!($t), v, Want { name: Some(stringify!($t)), precision: Some($n), unordered: false });
        }
        takes::<$t>(c, stringify!($t), false, None);
        takes::<Vec<$t>>(c, concat!("Vec of ", stringify!($t)), false, None);
        takes::<[$t; 3]>(c, concat!("array of ", stringify!($t)), false, None);
    )* } }
    num!(u8 8, u16 16, u32 32, u64 64, i8 8, i16 16, i32 32, i64 64, f32 32, f64 64, usize (usize::BITS as usize), isize (usize::BITS as usize));
    says(c, "bool", true, plain());
    says(c, "bool", false, plain());
    says(c, "()", (), plain());
    says(c, "char", 'x', plain());
    for s in ["", "x", "some text"] {
        says(c, "&str", s, plain());
        says(c, "String", s.to_string(), plain());
        says(c, "Cow<str>", Cow::Borrowed(s), plain());
        says(c, "Cow<str>", Cow::<str>::Owned(s.to_string()), plain());
    }
    for n in [0usize, 1, 2, 9] {
        let b: Vec<u8> = (0..n as u8).collect();
        let w: Vec<u32> = (0..n as u32).collect();
        let t: Vec<String> = w.iter().map(|x| x.to_string()).collect();
        says(c, "Vec<u8>", b.clone(), plain());
        says(c, "Vec<u32>", w.clone(), plain());
        says(c, "Vec<String>", t.clone(), plain());
        c.case(|| "slices".to_string(), &[n as u8], true, || {
            same(Serialize::descriptor(&&b[..]), &plain())?;
            same(Serialize::descriptor(&&w[..]), &plain())?;
            same(Serialize::descriptor(&&t[..]), &plain())
        });
        says(c, "BTreeMap", w.iter().map(|x| (*x, x.to_string())).collect::<BTreeMap<_, _>>(), plain());
        says(c, "BTreeSet", w.iter().copied().collect::<BTreeSet<_>>(), plain());
        says(c, "BTreeSet<u8>", b.iter().copied().collect::<BTreeSet<_>>(), plain());
        says(c, "HashMap", w.iter().map(|x| (*x, x.to_string())).collect::<HashMap<_, _>>(), shuffled());
        says(c, "HashSet", w.iter().copied().collect::<HashSet<_>>(), shuffled());
        says(c, "HashSet<u8>", b.iter().copied().collect::<HashSet<_>>(), shuffled());
    }
    says(c, "[u8; 0]", [0u8; 0], plain());
    says(c, "[u8; 4]", [1u8; 4], plain());
    says(c, "[u16; 4]", [1u16; 4], plain());
    says(c, "(u8,)", (1u8,), plain());
    says(c, "(u8, u8)", (1u8, 2u8), plain());
    says(c, "(u8, HashSet)", (1u8, HashSet::<u8>::new()), plain());
    says(c, "12 values", (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 7i32, 8i64, 9f32, 10f64, true, "x"), plain());
    takes::<()>(c, "()", false, None);
    takes::<bool>(c, "bool", false, None);
    takes::<char>(c, "char", false, None);
    takes::<String>(c, "String", false, None);
    takes::<Vec<String>>(c, "Vec<String>", false, None);
    takes::<Vec<HashSet<u8>>>(c, "Vec<HashSet>", false, None);
    takes::<(u8, String)>(c, "(u8, String)", false, None);
    takes::<[HashSet<u8>; 2]>(c, "[HashSet; 2]", false, None);
    takes::<HashMap<String, u8>>(c, "HashMap", true, None);
    takes::<HashSet<u8>>(c, "HashSet", true, None);
    #[cfg(feature = "derive")]
    derived(c);
}
#[cfg(feature = "derive")]
mod types {
    use deser::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Default, Clone)]
    pub struct Plain {
        pub a: u8,
        pub b: String,
    }
    #[derive(Serialize, Deserialize, Clone)]
    #[deser(rename = "a name!", rename_all = "UPPERCASE")]
    pub struct Renamed {
        pub x: bool,
    }
    #[derive(Serialize, Deserialize, Clone)]
    #[deser(rename_all = "kebab-case")]
    pub struct Generic<T> {
        pub in_ner: T,
        #[deser(flatten)]
        pub rest: Plain,
    }
    #[derive(Serialize, Deserialize, Default, Clone)]
    #[deser(default)]
    pub struct Empty {}
    #[derive(Serialize, Deserialize, Clone)]
    pub struct New<T>(pub T);
    #[derive(Serialize, Deserialize, Clone)]
    pub enum Kind {
        One,
    }
}
#[cfg(feature = "derive")]
fn derived(c: &mut Ctx) {
    use types::*;
    let named = |n| Want { name: Some(n), precision: None, unordered: false };
    let p = Plain::default();
    says(c, "struct Plain", p.clone(), named("Plain"));
    says(c, "struct renamed", Renamed { x: true }, named("a name!"));
    says(c, "struct Generic", Generic { in_ner: 1u8, rest: p.clone() }, named("Generic"));
    says(c, "struct Empty", Empty {}, named("Empty"));
    says(c, "newtype of u16", New(1u16), Want { name: Some("u16"), precision: Some(16), unordered: false });
    says(c, "newtype of a struct", New(p.clone()), named("Plain"));
    says(c, "newtype of a newtype", New(New(Box::new(1f32))), Want { name: Some("f32"), precision: Some(32), unordered: false });
    says(c, "newtype of HashSet", New(HashSet::<u8>::new()), Want { name: None, precision: None, unordered: true });
    c.case(|| "descriptor of an enum".to_string(), b"enum", true, || {
        eq("precision and unordered", (Kind::One.descriptor().precision(), Kind::One.descriptor().unordered()), (None, false))
    });
    takes::<Plain>(c, "struct Plain", false, Some("Plain"));
    takes::<Renamed>(c, "struct renamed", false, Some("a name!"));
    takes::<Generic<u8>>(c, "struct Generic", false, Some("Generic"));
    takes::<Empty>(c, "struct Empty", false, Some("Empty"));
    takes::<New<Plain>>(c, "newtype of a struct", false, Some("Plain"));
    takes::<New<HashSet<u8>>>(c, "newtype of HashSet", true, None);
    takes::<New<Vec<u8>>>(c, "newtype of Vec", false, None);
    takes::<Kind>(c, "enum", false, None);
}
