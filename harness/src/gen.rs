// Written by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, dead_code, clippy::all)]
use crate::ctx::Rng;
use crate::de::{Bad, Model, R};
use crate::derive::*;
use crate::model::*;
use crate::ser::ToTree;
use deser::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Plain {
    pub a: u8,
    pub b: Option<String>,
    pub c: Vec<u16>,
}
fn lit_Plain() -> Plain { Plain { a: 1, b: Some(String::new()), c: vec![] } }
impl Strukt for Plain {
    fn lit() -> Self { lit_Plain() }
    fn known(k: &str) -> bool { match k { "a" => true, "b" => true, "c" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["a", "b", "c"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "a" => <u8 as Model>::gen(r, d), "b" => <Option<String> as Model>::gen(r, d), "c" => <Vec<u16> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<Option<String>> = None;
        let mut v2: Option<Vec<u16>> = None;
        for (k, v) in e {
            match k.as_str() {
                "a" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "b" => match <Option<String> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "c" => match <Vec<u16> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("a"); }
        let v1 = Some(v1.unwrap_or(None));
        if v2.is_none() && !m.bad { m.names.push("c"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Plain { a: v0.unwrap(), b: v1.unwrap(), c: v2.unwrap() })
    }
}
strukt_model!(Plain);
impl ToTree for Plain {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("a".to_string(), self.a.tree())); }
        { o.push(("b".to_string(), self.b.tree())); }
        { o.push(("c".to_string(), self.c.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Flat {
    pub x: bool,
    #[deser(flatten)]
    pub p: Plain,
    pub y: Option<u8>,
}
fn lit_Flat() -> Flat { Flat { x: false, p: lit_Plain(), y: None } }
impl Strukt for Flat {
    fn lit() -> Self { lit_Flat() }
    fn known(k: &str) -> bool { match k { "x" => true, "y" => true,  _ => <Plain as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["x", "y"]; v.extend(<Plain as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "x" => <bool as Model>::gen(r, d), "y" => <Option<u8> as Model>::gen(r, d),  _ => { if <Plain as Strukt>::known(k) { return <Plain as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<bool> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Option<Option<u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "x" => match <bool as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "y" => match <Option<u8> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                x if <Plain as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("x"); }
        let v1 = m.sub(<Plain as Strukt>::build(&v1));
        let v2 = Some(v2.unwrap_or(None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Flat { x: v0.unwrap(), p: v1.unwrap(), y: v2.unwrap() })
    }
}
strukt_model!(Flat);
impl ToTree for Flat {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("x".to_string(), self.x.tree())); }
        { crate::derive::splice(&mut o, self.p.tree()); }
        { o.push(("y".to_string(), self.y.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "kebab-case")]
pub enum Color {
    Red,
    #[deser(alias = "verde")]
    Green,
    DarkBlue,
    #[deser(rename = "an odd \"name\"")]
    Odd,
}
impl Names for Color {
    fn rows() -> Vec<(Color, &'static str, Vec<&'static str>)> { vec![(Color::Red, "red", vec![]), (Color::Green, "green", vec!["verde"]), (Color::DarkBlue, "dark-blue", vec![]), (Color::Odd, "an odd \"name\"", vec![])] }
}
enum_model!(Color);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Wrap(pub u8);
newtype_model!(Wrap, u8);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapBytes(pub Vec<u8>);
newtype_model!(WrapBytes, Vec<u8>);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapPlain(pub Plain);
newtype_model!(WrapPlain, Plain);
newtype_strukt!(WrapPlain, Plain);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapOpt(pub Option<u16>);
newtype_model!(WrapOpt, Option<u16>);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapMap(pub BTreeMap<String, u8>);
newtype_model!(WrapMap, BTreeMap<String, u8>);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapSeq(pub Vec<u16>);
newtype_model!(WrapSeq, Vec<u16>);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapWrap(pub Wrap);
newtype_model!(WrapWrap, Wrap);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapFlat(pub Flat);
newtype_model!(WrapFlat, Flat);
newtype_strukt!(WrapFlat, Flat);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapColor(pub Color);
newtype_model!(WrapColor, Color);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapArr(pub [u8; 2]);
newtype_model!(WrapArr, [u8; 2]);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapTuple(pub (u8, bool));
newtype_model!(WrapTuple, (u8, bool));
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct WrapUnit(pub ());
newtype_model!(WrapUnit, ());
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Names0 {
    pub a_b_c: u8,
    pub is_ok: u8,
    pub foo2_bar3: u8,
    pub trailing_: u8,
    pub a: u8,
    pub a1_2b: u8,
    pub long_field_name_here: u8,
    pub v_1: u8,
    pub x1: u8,
    pub foo: u8,
    pub r#type: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub foo_bar: u8,
    pub foo__bar: u8,
    pub ab: u8,
    pub z_z: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub r#match: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
}
fn lit_Names0() -> Names0 { Names0 { a_b_c: 1, is_ok: 1, foo2_bar3: 1, trailing_: 1, a: 1, a1_2b: 1, long_field_name_here: 1, v_1: 1, x1: 1, foo: 1, r#type: 1, aliased_one: 1, foo_bar: 1, foo__bar: 1, ab: 1, z_z: 1, renamed_one: 1, renamed_two: 1, r#match: 1, renamed_three: 1 } }
impl Strukt for Names0 {
    fn lit() -> Self { lit_Names0() }
    fn known(k: &str) -> bool { match k { "a_b_c" => true, "is_ok" => true, "foo2_bar3" => true, "trailing_" => true, "a" => true, "a1_2b" => true, "long_field_name_here" => true, "v_1" => true, "x1" => true, "foo" => true, "type" => true, "aliased_one" => true, "Some_alias" => true, "another alias" => true, "foo_bar" => true, "foo__bar" => true, "ab" => true, "z_z" => true, "kept_As-Is" => true, "ünï cödé\n\"q\"" => true, "match" => true, "" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["a_b_c", "is_ok", "foo2_bar3", "trailing_", "a", "a1_2b", "long_field_name_here", "v_1", "x1", "foo", "type", "aliased_one", "Some_alias", "another alias", "foo_bar", "foo__bar", "ab", "z_z", "kept_As-Is", "ünï cödé\n\"q\"", "match", ""];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "a_b_c" => <u8 as Model>::gen(r, d), "is_ok" => <u8 as Model>::gen(r, d), "foo2_bar3" => <u8 as Model>::gen(r, d), "trailing_" => <u8 as Model>::gen(r, d), "a" => <u8 as Model>::gen(r, d), "a1_2b" => <u8 as Model>::gen(r, d), "long_field_name_here" => <u8 as Model>::gen(r, d), "v_1" => <u8 as Model>::gen(r, d), "x1" => <u8 as Model>::gen(r, d), "foo" => <u8 as Model>::gen(r, d), "type" => <u8 as Model>::gen(r, d), "aliased_one" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "foo_bar" => <u8 as Model>::gen(r, d), "foo__bar" => <u8 as Model>::gen(r, d), "ab" => <u8 as Model>::gen(r, d), "z_z" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "match" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "a_b_c" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "is_ok" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "foo2_bar3" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "trailing_" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "a" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "a1_2b" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "long_field_name_here" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "v_1" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "x1" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "foo" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "type" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "aliased_one" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "foo__bar" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "ab" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "z_z" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "match" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("a_b_c"); }
        if v1.is_none() && !m.bad { m.names.push("is_ok"); }
        if v2.is_none() && !m.bad { m.names.push("foo2_bar3"); }
        if v3.is_none() && !m.bad { m.names.push("trailing_"); }
        if v4.is_none() && !m.bad { m.names.push("a"); }
        if v5.is_none() && !m.bad { m.names.push("a1_2b"); }
        if v6.is_none() && !m.bad { m.names.push("long_field_name_here"); }
        if v7.is_none() && !m.bad { m.names.push("v_1"); }
        if v8.is_none() && !m.bad { m.names.push("x1"); }
        if v9.is_none() && !m.bad { m.names.push("foo"); }
        if v10.is_none() && !m.bad { m.names.push("type"); }
        if v11.is_none() && !m.bad { m.names.push("aliased_one"); }
        if v12.is_none() && !m.bad { m.names.push("foo_bar"); }
        if v13.is_none() && !m.bad { m.names.push("foo__bar"); }
        if v14.is_none() && !m.bad { m.names.push("ab"); }
        if v15.is_none() && !m.bad { m.names.push("z_z"); }
        if v16.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v17.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v18.is_none() && !m.bad { m.names.push("match"); }
        if v19.is_none() && !m.bad { m.names.push(""); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names0 { a_b_c: v0.unwrap(), is_ok: v1.unwrap(), foo2_bar3: v2.unwrap(), trailing_: v3.unwrap(), a: v4.unwrap(), a1_2b: v5.unwrap(), long_field_name_here: v6.unwrap(), v_1: v7.unwrap(), x1: v8.unwrap(), foo: v9.unwrap(), r#type: v10.unwrap(), aliased_one: v11.unwrap(), foo_bar: v12.unwrap(), foo__bar: v13.unwrap(), ab: v14.unwrap(), z_z: v15.unwrap(), renamed_one: v16.unwrap(), renamed_two: v17.unwrap(), r#match: v18.unwrap(), renamed_three: v19.unwrap() })
    }
}
strukt_model!(Names0);
impl ToTree for Names0 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("a_b_c".to_string(), self.a_b_c.tree())); }
        { o.push(("is_ok".to_string(), self.is_ok.tree())); }
        { o.push(("foo2_bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("trailing_".to_string(), self.trailing_.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        { o.push(("a1_2b".to_string(), self.a1_2b.tree())); }
        { o.push(("long_field_name_here".to_string(), self.long_field_name_here.tree())); }
        { o.push(("v_1".to_string(), self.v_1.tree())); }
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("aliased_one".to_string(), self.aliased_one.tree())); }
        { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        { o.push(("foo__bar".to_string(), self.foo__bar.tree())); }
        { o.push(("ab".to_string(), self.ab.tree())); }
        { o.push(("z_z".to_string(), self.z_z.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("match".to_string(), self.r#match.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
pub enum VNames0 {
    IsOk,
    Z,
    #[deser(rename = "")]
    RenamedThree,
    ABC,
    HttpServer,
    Foo1,
    FooB,
    XRay,
    B9,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    A,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    FooBar,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    Foo,
    Foo1Bar2,
    LongVariantNameHere,
    Ab,
}
impl Names for VNames0 {
    fn rows() -> Vec<(VNames0, &'static str, Vec<&'static str>)> { vec![(VNames0::IsOk, "IsOk", vec![]), (VNames0::Z, "Z", vec![]), (VNames0::RenamedThree, "", vec![]), (VNames0::ABC, "ABC", vec![]), (VNames0::HttpServer, "HttpServer", vec![]), (VNames0::Foo1, "Foo1", vec![]), (VNames0::FooB, "FooB", vec![]), (VNames0::XRay, "XRay", vec![]), (VNames0::B9, "B9", vec![]), (VNames0::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames0::A, "A", vec![]), (VNames0::RenamedOne, "kept_As-Is", vec![]), (VNames0::FooBar, "FooBar", vec![]), (VNames0::AliasedOne, "AliasedOne", vec!["Some_alias", "another alias"]), (VNames0::Foo, "Foo", vec![]), (VNames0::Foo1Bar2, "Foo1Bar2", vec![]), (VNames0::LongVariantNameHere, "LongVariantNameHere", vec![]), (VNames0::Ab, "Ab", vec![])] }
}
enum_model!(VNames0);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
pub struct Names1 {
    pub x1: u8,
    pub a: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub v_1: u8,
    pub foo2_bar3: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub foo: u8,
    pub foo_bar: u8,
    pub trailing_: u8,
    pub a1_2b: u8,
    pub r#type: u8,
    pub long_field_name_here: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub r#match: u8,
    pub ab: u8,
    pub is_ok: u8,
    pub z_z: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub a_b_c: u8,
    pub foo__bar: u8,
}
fn lit_Names1() -> Names1 { Names1 { x1: 1, a: 1, renamed_one: 1, v_1: 1, foo2_bar3: 1, renamed_three: 1, foo: 1, foo_bar: 1, trailing_: 1, a1_2b: 1, r#type: 1, long_field_name_here: 1, renamed_two: 1, r#match: 1, ab: 1, is_ok: 1, z_z: 1, aliased_one: 1, a_b_c: 1, foo__bar: 1 } }
impl Strukt for Names1 {
    fn lit() -> Self { lit_Names1() }
    fn known(k: &str) -> bool { match k { "x1" => true, "a" => true, "kept_As-Is" => true, "v_1" => true, "foo2_bar3" => true, "" => true, "foo" => true, "foo_bar" => true, "trailing_" => true, "a1_2b" => true, "type" => true, "long_field_name_here" => true, "ünï cödé\n\"q\"" => true, "match" => true, "ab" => true, "is_ok" => true, "z_z" => true, "aliased_one" => true, "Some_alias" => true, "another alias" => true, "a_b_c" => true, "foo__bar" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["x1", "a", "kept_As-Is", "v_1", "foo2_bar3", "", "foo", "foo_bar", "trailing_", "a1_2b", "type", "long_field_name_here", "ünï cödé\n\"q\"", "match", "ab", "is_ok", "z_z", "aliased_one", "Some_alias", "another alias", "a_b_c", "foo__bar"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "x1" => <u8 as Model>::gen(r, d), "a" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "v_1" => <u8 as Model>::gen(r, d), "foo2_bar3" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "foo" => <u8 as Model>::gen(r, d), "foo_bar" => <u8 as Model>::gen(r, d), "trailing_" => <u8 as Model>::gen(r, d), "a1_2b" => <u8 as Model>::gen(r, d), "type" => <u8 as Model>::gen(r, d), "long_field_name_here" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "match" => <u8 as Model>::gen(r, d), "ab" => <u8 as Model>::gen(r, d), "is_ok" => <u8 as Model>::gen(r, d), "z_z" => <u8 as Model>::gen(r, d), "aliased_one" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "a_b_c" => <u8 as Model>::gen(r, d), "foo__bar" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "x1" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "a" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "v_1" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "foo2_bar3" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "foo" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "trailing_" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "a1_2b" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "type" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "long_field_name_here" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "match" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "ab" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "is_ok" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "z_z" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "aliased_one" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "a_b_c" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "foo__bar" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("x1"); }
        if v1.is_none() && !m.bad { m.names.push("a"); }
        if v2.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v3.is_none() && !m.bad { m.names.push("v_1"); }
        if v4.is_none() && !m.bad { m.names.push("foo2_bar3"); }
        if v5.is_none() && !m.bad { m.names.push(""); }
        if v6.is_none() && !m.bad { m.names.push("foo"); }
        if v7.is_none() && !m.bad { m.names.push("foo_bar"); }
        if v8.is_none() && !m.bad { m.names.push("trailing_"); }
        if v9.is_none() && !m.bad { m.names.push("a1_2b"); }
        if v10.is_none() && !m.bad { m.names.push("type"); }
        if v11.is_none() && !m.bad { m.names.push("long_field_name_here"); }
        if v12.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v13.is_none() && !m.bad { m.names.push("match"); }
        if v14.is_none() && !m.bad { m.names.push("ab"); }
        if v15.is_none() && !m.bad { m.names.push("is_ok"); }
        if v16.is_none() && !m.bad { m.names.push("z_z"); }
        if v17.is_none() && !m.bad { m.names.push("aliased_one"); }
        if v18.is_none() && !m.bad { m.names.push("a_b_c"); }
        if v19.is_none() && !m.bad { m.names.push("foo__bar"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names1 { x1: v0.unwrap(), a: v1.unwrap(), renamed_one: v2.unwrap(), v_1: v3.unwrap(), foo2_bar3: v4.unwrap(), renamed_three: v5.unwrap(), foo: v6.unwrap(), foo_bar: v7.unwrap(), trailing_: v8.unwrap(), a1_2b: v9.unwrap(), r#type: v10.unwrap(), long_field_name_here: v11.unwrap(), renamed_two: v12.unwrap(), r#match: v13.unwrap(), ab: v14.unwrap(), is_ok: v15.unwrap(), z_z: v16.unwrap(), aliased_one: v17.unwrap(), a_b_c: v18.unwrap(), foo__bar: v19.unwrap() })
    }
}
strukt_model!(Names1);
impl ToTree for Names1 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("v_1".to_string(), self.v_1.tree())); }
        { o.push(("foo2_bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        { o.push(("trailing_".to_string(), self.trailing_.tree())); }
        { o.push(("a1_2b".to_string(), self.a1_2b.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("long_field_name_here".to_string(), self.long_field_name_here.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("match".to_string(), self.r#match.tree())); }
        { o.push(("ab".to_string(), self.ab.tree())); }
        { o.push(("is_ok".to_string(), self.is_ok.tree())); }
        { o.push(("z_z".to_string(), self.z_z.tree())); }
        { o.push(("aliased_one".to_string(), self.aliased_one.tree())); }
        { o.push(("a_b_c".to_string(), self.a_b_c.tree())); }
        { o.push(("foo__bar".to_string(), self.foo__bar.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "lowercase")]
pub enum VNames1 {
    XRay,
    B9,
    Foo,
    Ab,
    FooBar,
    LongVariantNameHere,
    Z,
    HttpServer,
    Foo1,
    A,
    FooB,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    Foo1Bar2,
    #[deser(rename = "")]
    RenamedThree,
    IsOk,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    ABC,
}
impl Names for VNames1 {
    fn rows() -> Vec<(VNames1, &'static str, Vec<&'static str>)> { vec![(VNames1::XRay, "xray", vec![]), (VNames1::B9, "b9", vec![]), (VNames1::Foo, "foo", vec![]), (VNames1::Ab, "ab", vec![]), (VNames1::FooBar, "foobar", vec![]), (VNames1::LongVariantNameHere, "longvariantnamehere", vec![]), (VNames1::Z, "z", vec![]), (VNames1::HttpServer, "httpserver", vec![]), (VNames1::Foo1, "foo1", vec![]), (VNames1::A, "a", vec![]), (VNames1::FooB, "foob", vec![]), (VNames1::RenamedOne, "kept_As-Is", vec![]), (VNames1::AliasedOne, "aliasedone", vec!["Some_alias", "another alias"]), (VNames1::Foo1Bar2, "foo1bar2", vec![]), (VNames1::RenamedThree, "", vec![]), (VNames1::IsOk, "isok", vec![]), (VNames1::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames1::ABC, "abc", vec![])] }
}
enum_model!(VNames1);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "UPPERCASE")]
pub struct Names2 {
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub r#match: u8,
    pub a1_2b: u8,
    pub ab: u8,
    pub foo__bar: u8,
    pub x1: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub trailing_: u8,
    pub a_b_c: u8,
    pub r#type: u8,
    pub foo_bar: u8,
    pub long_field_name_here: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub is_ok: u8,
    pub z_z: u8,
    pub foo2_bar3: u8,
    pub a: u8,
    pub v_1: u8,
    pub foo: u8,
}
fn lit_Names2() -> Names2 { Names2 { aliased_one: 1, r#match: 1, a1_2b: 1, ab: 1, foo__bar: 1, x1: 1, renamed_two: 1, trailing_: 1, a_b_c: 1, r#type: 1, foo_bar: 1, long_field_name_here: 1, renamed_three: 1, renamed_one: 1, is_ok: 1, z_z: 1, foo2_bar3: 1, a: 1, v_1: 1, foo: 1 } }
impl Strukt for Names2 {
    fn lit() -> Self { lit_Names2() }
    fn known(k: &str) -> bool { match k { "ALIASED_ONE" => true, "Some_alias" => true, "another alias" => true, "MATCH" => true, "A1_2B" => true, "AB" => true, "FOO__BAR" => true, "X1" => true, "ünï cödé\n\"q\"" => true, "TRAILING_" => true, "A_B_C" => true, "TYPE" => true, "FOO_BAR" => true, "LONG_FIELD_NAME_HERE" => true, "" => true, "kept_As-Is" => true, "IS_OK" => true, "Z_Z" => true, "FOO2_BAR3" => true, "A" => true, "V_1" => true, "FOO" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["ALIASED_ONE", "Some_alias", "another alias", "MATCH", "A1_2B", "AB", "FOO__BAR", "X1", "ünï cödé\n\"q\"", "TRAILING_", "A_B_C", "TYPE", "FOO_BAR", "LONG_FIELD_NAME_HERE", "", "kept_As-Is", "IS_OK", "Z_Z", "FOO2_BAR3", "A", "V_1", "FOO"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "ALIASED_ONE" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "MATCH" => <u8 as Model>::gen(r, d), "A1_2B" => <u8 as Model>::gen(r, d), "AB" => <u8 as Model>::gen(r, d), "FOO__BAR" => <u8 as Model>::gen(r, d), "X1" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "TRAILING_" => <u8 as Model>::gen(r, d), "A_B_C" => <u8 as Model>::gen(r, d), "TYPE" => <u8 as Model>::gen(r, d), "FOO_BAR" => <u8 as Model>::gen(r, d), "LONG_FIELD_NAME_HERE" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "IS_OK" => <u8 as Model>::gen(r, d), "Z_Z" => <u8 as Model>::gen(r, d), "FOO2_BAR3" => <u8 as Model>::gen(r, d), "A" => <u8 as Model>::gen(r, d), "V_1" => <u8 as Model>::gen(r, d), "FOO" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "ALIASED_ONE" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "MATCH" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "A1_2B" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "AB" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "FOO__BAR" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "X1" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "TRAILING_" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "A_B_C" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "TYPE" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "FOO_BAR" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "LONG_FIELD_NAME_HERE" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "IS_OK" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "Z_Z" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "FOO2_BAR3" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "A" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "V_1" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "FOO" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("ALIASED_ONE"); }
        if v1.is_none() && !m.bad { m.names.push("MATCH"); }
        if v2.is_none() && !m.bad { m.names.push("A1_2B"); }
        if v3.is_none() && !m.bad { m.names.push("AB"); }
        if v4.is_none() && !m.bad { m.names.push("FOO__BAR"); }
        if v5.is_none() && !m.bad { m.names.push("X1"); }
        if v6.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v7.is_none() && !m.bad { m.names.push("TRAILING_"); }
        if v8.is_none() && !m.bad { m.names.push("A_B_C"); }
        if v9.is_none() && !m.bad { m.names.push("TYPE"); }
        if v10.is_none() && !m.bad { m.names.push("FOO_BAR"); }
        if v11.is_none() && !m.bad { m.names.push("LONG_FIELD_NAME_HERE"); }
        if v12.is_none() && !m.bad { m.names.push(""); }
        if v13.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v14.is_none() && !m.bad { m.names.push("IS_OK"); }
        if v15.is_none() && !m.bad { m.names.push("Z_Z"); }
        if v16.is_none() && !m.bad { m.names.push("FOO2_BAR3"); }
        if v17.is_none() && !m.bad { m.names.push("A"); }
        if v18.is_none() && !m.bad { m.names.push("V_1"); }
        if v19.is_none() && !m.bad { m.names.push("FOO"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names2 { aliased_one: v0.unwrap(), r#match: v1.unwrap(), a1_2b: v2.unwrap(), ab: v3.unwrap(), foo__bar: v4.unwrap(), x1: v5.unwrap(), renamed_two: v6.unwrap(), trailing_: v7.unwrap(), a_b_c: v8.unwrap(), r#type: v9.unwrap(), foo_bar: v10.unwrap(), long_field_name_here: v11.unwrap(), renamed_three: v12.unwrap(), renamed_one: v13.unwrap(), is_ok: v14.unwrap(), z_z: v15.unwrap(), foo2_bar3: v16.unwrap(), a: v17.unwrap(), v_1: v18.unwrap(), foo: v19.unwrap() })
    }
}
strukt_model!(Names2);
impl ToTree for Names2 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("ALIASED_ONE".to_string(), self.aliased_one.tree())); }
        { o.push(("MATCH".to_string(), self.r#match.tree())); }
        { o.push(("A1_2B".to_string(), self.a1_2b.tree())); }
        { o.push(("AB".to_string(), self.ab.tree())); }
        { o.push(("FOO__BAR".to_string(), self.foo__bar.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("TRAILING_".to_string(), self.trailing_.tree())); }
        { o.push(("A_B_C".to_string(), self.a_b_c.tree())); }
        { o.push(("TYPE".to_string(), self.r#type.tree())); }
        { o.push(("FOO_BAR".to_string(), self.foo_bar.tree())); }
        { o.push(("LONG_FIELD_NAME_HERE".to_string(), self.long_field_name_here.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("IS_OK".to_string(), self.is_ok.tree())); }
        { o.push(("Z_Z".to_string(), self.z_z.tree())); }
        { o.push(("FOO2_BAR3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("A".to_string(), self.a.tree())); }
        { o.push(("V_1".to_string(), self.v_1.tree())); }
        { o.push(("FOO".to_string(), self.foo.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "UPPERCASE")]
pub enum VNames2 {
    B9,
    Foo,
    #[deser(rename = "")]
    RenamedThree,
    Z,
    Ab,
    A,
    Foo1Bar2,
    FooB,
    IsOk,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    LongVariantNameHere,
    XRay,
    FooBar,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    ABC,
    HttpServer,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    Foo1,
}
impl Names for VNames2 {
    fn rows() -> Vec<(VNames2, &'static str, Vec<&'static str>)> { vec![(VNames2::B9, "B9", vec![]), (VNames2::Foo, "FOO", vec![]), (VNames2::RenamedThree, "", vec![]), (VNames2::Z, "Z", vec![]), (VNames2::Ab, "AB", vec![]), (VNames2::A, "A", vec![]), (VNames2::Foo1Bar2, "FOO1BAR2", vec![]), (VNames2::FooB, "FOOB", vec![]), (VNames2::IsOk, "ISOK", vec![]), (VNames2::AliasedOne, "ALIASEDONE", vec!["Some_alias", "another alias"]), (VNames2::LongVariantNameHere, "LONGVARIANTNAMEHERE", vec![]), (VNames2::XRay, "XRAY", vec![]), (VNames2::FooBar, "FOOBAR", vec![]), (VNames2::RenamedOne, "kept_As-Is", vec![]), (VNames2::ABC, "ABC", vec![]), (VNames2::HttpServer, "HTTPSERVER", vec![]), (VNames2::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames2::Foo1, "FOO1", vec![])] }
}
enum_model!(VNames2);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
pub struct Names3 {
    pub foo_bar: u8,
    pub ab: u8,
    pub a1_2b: u8,
    pub x1: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub long_field_name_here: u8,
    pub v_1: u8,
    pub foo2_bar3: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub r#type: u8,
    pub trailing_: u8,
    pub is_ok: u8,
    pub foo: u8,
    pub a_b_c: u8,
    pub a: u8,
    pub z_z: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub r#match: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
}
fn lit_Names3() -> Names3 { Names3 { foo_bar: 1, ab: 1, a1_2b: 1, x1: 1, renamed_three: 1, long_field_name_here: 1, v_1: 1, foo2_bar3: 1, renamed_two: 1, r#type: 1, trailing_: 1, is_ok: 1, foo: 1, a_b_c: 1, a: 1, z_z: 1, aliased_one: 1, r#match: 1, renamed_one: 1 } }
impl Strukt for Names3 {
    fn lit() -> Self { lit_Names3() }
    fn known(k: &str) -> bool { match k { "FooBar" => true, "Ab" => true, "A12b" => true, "X1" => true, "" => true, "LongFieldNameHere" => true, "V1" => true, "Foo2Bar3" => true, "ünï cödé\n\"q\"" => true, "Type" => true, "Trailing" => true, "IsOk" => true, "Foo" => true, "ABC" => true, "A" => true, "ZZ" => true, "AliasedOne" => true, "Some_alias" => true, "another alias" => true, "Match" => true, "kept_As-Is" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["FooBar", "Ab", "A12b", "X1", "", "LongFieldNameHere", "V1", "Foo2Bar3", "ünï cödé\n\"q\"", "Type", "Trailing", "IsOk", "Foo", "ABC", "A", "ZZ", "AliasedOne", "Some_alias", "another alias", "Match", "kept_As-Is"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "FooBar" => <u8 as Model>::gen(r, d), "Ab" => <u8 as Model>::gen(r, d), "A12b" => <u8 as Model>::gen(r, d), "X1" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "LongFieldNameHere" => <u8 as Model>::gen(r, d), "V1" => <u8 as Model>::gen(r, d), "Foo2Bar3" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "Type" => <u8 as Model>::gen(r, d), "Trailing" => <u8 as Model>::gen(r, d), "IsOk" => <u8 as Model>::gen(r, d), "Foo" => <u8 as Model>::gen(r, d), "ABC" => <u8 as Model>::gen(r, d), "A" => <u8 as Model>::gen(r, d), "ZZ" => <u8 as Model>::gen(r, d), "AliasedOne" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "Match" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "FooBar" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "Ab" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "A12b" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "X1" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "LongFieldNameHere" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "V1" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "Foo2Bar3" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "Type" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "Trailing" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "IsOk" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "Foo" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "ABC" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "A" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "ZZ" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "AliasedOne" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "Match" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("FooBar"); }
        if v1.is_none() && !m.bad { m.names.push("Ab"); }
        if v2.is_none() && !m.bad { m.names.push("A12b"); }
        if v3.is_none() && !m.bad { m.names.push("X1"); }
        if v4.is_none() && !m.bad { m.names.push(""); }
        if v5.is_none() && !m.bad { m.names.push("LongFieldNameHere"); }
        if v6.is_none() && !m.bad { m.names.push("V1"); }
        if v7.is_none() && !m.bad { m.names.push("Foo2Bar3"); }
        if v8.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v9.is_none() && !m.bad { m.names.push("Type"); }
        if v10.is_none() && !m.bad { m.names.push("Trailing"); }
        if v11.is_none() && !m.bad { m.names.push("IsOk"); }
        if v12.is_none() && !m.bad { m.names.push("Foo"); }
        if v13.is_none() && !m.bad { m.names.push("ABC"); }
        if v14.is_none() && !m.bad { m.names.push("A"); }
        if v15.is_none() && !m.bad { m.names.push("ZZ"); }
        if v16.is_none() && !m.bad { m.names.push("AliasedOne"); }
        if v17.is_none() && !m.bad { m.names.push("Match"); }
        if v18.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names3 { foo_bar: v0.unwrap(), ab: v1.unwrap(), a1_2b: v2.unwrap(), x1: v3.unwrap(), renamed_three: v4.unwrap(), long_field_name_here: v5.unwrap(), v_1: v6.unwrap(), foo2_bar3: v7.unwrap(), renamed_two: v8.unwrap(), r#type: v9.unwrap(), trailing_: v10.unwrap(), is_ok: v11.unwrap(), foo: v12.unwrap(), a_b_c: v13.unwrap(), a: v14.unwrap(), z_z: v15.unwrap(), aliased_one: v16.unwrap(), r#match: v17.unwrap(), renamed_one: v18.unwrap() })
    }
}
strukt_model!(Names3);
impl ToTree for Names3 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("FooBar".to_string(), self.foo_bar.tree())); }
        { o.push(("Ab".to_string(), self.ab.tree())); }
        { o.push(("A12b".to_string(), self.a1_2b.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("LongFieldNameHere".to_string(), self.long_field_name_here.tree())); }
        { o.push(("V1".to_string(), self.v_1.tree())); }
        { o.push(("Foo2Bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("Type".to_string(), self.r#type.tree())); }
        { o.push(("Trailing".to_string(), self.trailing_.tree())); }
        { o.push(("IsOk".to_string(), self.is_ok.tree())); }
        { o.push(("Foo".to_string(), self.foo.tree())); }
        { o.push(("ABC".to_string(), self.a_b_c.tree())); }
        { o.push(("A".to_string(), self.a.tree())); }
        { o.push(("ZZ".to_string(), self.z_z.tree())); }
        { o.push(("AliasedOne".to_string(), self.aliased_one.tree())); }
        { o.push(("Match".to_string(), self.r#match.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "PascalCase")]
pub enum VNames3 {
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    LongVariantNameHere,
    Ab,
    A,
    XRay,
    FooBar,
    HttpServer,
    Foo1Bar2,
    FooB,
    Z,
    B9,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    IsOk,
    #[deser(rename = "")]
    RenamedThree,
    ABC,
    Foo1,
    Foo,
}
impl Names for VNames3 {
    fn rows() -> Vec<(VNames3, &'static str, Vec<&'static str>)> { vec![(VNames3::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames3::RenamedOne, "kept_As-Is", vec![]), (VNames3::LongVariantNameHere, "LongVariantNameHere", vec![]), (VNames3::Ab, "Ab", vec![]), (VNames3::A, "A", vec![]), (VNames3::XRay, "XRay", vec![]), (VNames3::FooBar, "FooBar", vec![]), (VNames3::HttpServer, "HttpServer", vec![]), (VNames3::Foo1Bar2, "Foo1Bar2", vec![]), (VNames3::FooB, "FooB", vec![]), (VNames3::Z, "Z", vec![]), (VNames3::B9, "B9", vec![]), (VNames3::AliasedOne, "AliasedOne", vec!["Some_alias", "another alias"]), (VNames3::IsOk, "IsOk", vec![]), (VNames3::RenamedThree, "", vec![]), (VNames3::ABC, "ABC", vec![]), (VNames3::Foo1, "Foo1", vec![]), (VNames3::Foo, "Foo", vec![])] }
}
enum_model!(VNames3);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
pub struct Names4 {
    pub is_ok: u8,
    pub r#type: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub foo2_bar3: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub ab: u8,
    pub foo: u8,
    pub v_1: u8,
    pub r#match: u8,
    pub a1_2b: u8,
    pub trailing_: u8,
    pub foo_bar: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub z_z: u8,
    pub a: u8,
    pub x1: u8,
    pub a_b_c: u8,
    pub long_field_name_here: u8,
}
fn lit_Names4() -> Names4 { Names4 { is_ok: 1, r#type: 1, renamed_one: 1, renamed_three: 1, foo2_bar3: 1, aliased_one: 1, ab: 1, foo: 1, v_1: 1, r#match: 1, a1_2b: 1, trailing_: 1, foo_bar: 1, renamed_two: 1, z_z: 1, a: 1, x1: 1, a_b_c: 1, long_field_name_here: 1 } }
impl Strukt for Names4 {
    fn lit() -> Self { lit_Names4() }
    fn known(k: &str) -> bool { match k { "isOk" => true, "type" => true, "kept_As-Is" => true, "" => true, "foo2Bar3" => true, "aliasedOne" => true, "Some_alias" => true, "another alias" => true, "ab" => true, "foo" => true, "v1" => true, "match" => true, "a12b" => true, "trailing" => true, "fooBar" => true, "ünï cödé\n\"q\"" => true, "zZ" => true, "a" => true, "x1" => true, "aBC" => true, "longFieldNameHere" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["isOk", "type", "kept_As-Is", "", "foo2Bar3", "aliasedOne", "Some_alias", "another alias", "ab", "foo", "v1", "match", "a12b", "trailing", "fooBar", "ünï cödé\n\"q\"", "zZ", "a", "x1", "aBC", "longFieldNameHere"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "isOk" => <u8 as Model>::gen(r, d), "type" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "foo2Bar3" => <u8 as Model>::gen(r, d), "aliasedOne" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "ab" => <u8 as Model>::gen(r, d), "foo" => <u8 as Model>::gen(r, d), "v1" => <u8 as Model>::gen(r, d), "match" => <u8 as Model>::gen(r, d), "a12b" => <u8 as Model>::gen(r, d), "trailing" => <u8 as Model>::gen(r, d), "fooBar" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "zZ" => <u8 as Model>::gen(r, d), "a" => <u8 as Model>::gen(r, d), "x1" => <u8 as Model>::gen(r, d), "aBC" => <u8 as Model>::gen(r, d), "longFieldNameHere" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "isOk" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "type" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "foo2Bar3" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "aliasedOne" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "ab" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "foo" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "v1" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "match" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "a12b" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "trailing" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "fooBar" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "zZ" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "a" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "x1" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "aBC" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "longFieldNameHere" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("isOk"); }
        if v1.is_none() && !m.bad { m.names.push("type"); }
        if v2.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v3.is_none() && !m.bad { m.names.push(""); }
        if v4.is_none() && !m.bad { m.names.push("foo2Bar3"); }
        if v5.is_none() && !m.bad { m.names.push("aliasedOne"); }
        if v6.is_none() && !m.bad { m.names.push("ab"); }
        if v7.is_none() && !m.bad { m.names.push("foo"); }
        if v8.is_none() && !m.bad { m.names.push("v1"); }
        if v9.is_none() && !m.bad { m.names.push("match"); }
        if v10.is_none() && !m.bad { m.names.push("a12b"); }
        if v11.is_none() && !m.bad { m.names.push("trailing"); }
        if v12.is_none() && !m.bad { m.names.push("fooBar"); }
        if v13.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v14.is_none() && !m.bad { m.names.push("zZ"); }
        if v15.is_none() && !m.bad { m.names.push("a"); }
        if v16.is_none() && !m.bad { m.names.push("x1"); }
        if v17.is_none() && !m.bad { m.names.push("aBC"); }
        if v18.is_none() && !m.bad { m.names.push("longFieldNameHere"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names4 { is_ok: v0.unwrap(), r#type: v1.unwrap(), renamed_one: v2.unwrap(), renamed_three: v3.unwrap(), foo2_bar3: v4.unwrap(), aliased_one: v5.unwrap(), ab: v6.unwrap(), foo: v7.unwrap(), v_1: v8.unwrap(), r#match: v9.unwrap(), a1_2b: v10.unwrap(), trailing_: v11.unwrap(), foo_bar: v12.unwrap(), renamed_two: v13.unwrap(), z_z: v14.unwrap(), a: v15.unwrap(), x1: v16.unwrap(), a_b_c: v17.unwrap(), long_field_name_here: v18.unwrap() })
    }
}
strukt_model!(Names4);
impl ToTree for Names4 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("isOk".to_string(), self.is_ok.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("foo2Bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("aliasedOne".to_string(), self.aliased_one.tree())); }
        { o.push(("ab".to_string(), self.ab.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        { o.push(("v1".to_string(), self.v_1.tree())); }
        { o.push(("match".to_string(), self.r#match.tree())); }
        { o.push(("a12b".to_string(), self.a1_2b.tree())); }
        { o.push(("trailing".to_string(), self.trailing_.tree())); }
        { o.push(("fooBar".to_string(), self.foo_bar.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("zZ".to_string(), self.z_z.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("aBC".to_string(), self.a_b_c.tree())); }
        { o.push(("longFieldNameHere".to_string(), self.long_field_name_here.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "camelCase")]
pub enum VNames4 {
    HttpServer,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    Foo,
    B9,
    FooB,
    #[deser(rename = "")]
    RenamedThree,
    Ab,
    A,
    ABC,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    Foo1,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    XRay,
    LongVariantNameHere,
    Z,
    FooBar,
    Foo1Bar2,
    IsOk,
}
impl Names for VNames4 {
    fn rows() -> Vec<(VNames4, &'static str, Vec<&'static str>)> { vec![(VNames4::HttpServer, "httpServer", vec![]), (VNames4::AliasedOne, "aliasedOne", vec!["Some_alias", "another alias"]), (VNames4::Foo, "foo", vec![]), (VNames4::B9, "b9", vec![]), (VNames4::FooB, "fooB", vec![]), (VNames4::RenamedThree, "", vec![]), (VNames4::Ab, "ab", vec![]), (VNames4::A, "a", vec![]), (VNames4::ABC, "aBC", vec![]), (VNames4::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames4::Foo1, "foo1", vec![]), (VNames4::RenamedOne, "kept_As-Is", vec![]), (VNames4::XRay, "xRay", vec![]), (VNames4::LongVariantNameHere, "longVariantNameHere", vec![]), (VNames4::Z, "z", vec![]), (VNames4::FooBar, "fooBar", vec![]), (VNames4::Foo1Bar2, "foo1Bar2", vec![]), (VNames4::IsOk, "isOk", vec![])] }
}
enum_model!(VNames4);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "snake_case")]
pub struct Names5 {
    pub z_z: u8,
    pub x1: u8,
    pub foo2_bar3: u8,
    pub r#type: u8,
    pub foo: u8,
    pub r#match: u8,
    pub is_ok: u8,
    pub long_field_name_here: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub trailing_: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub ab: u8,
    pub foo__bar: u8,
    pub a: u8,
    pub foo_bar: u8,
    pub v_1: u8,
    pub a1_2b: u8,
    pub a_b_c: u8,
}
fn lit_Names5() -> Names5 { Names5 { z_z: 1, x1: 1, foo2_bar3: 1, r#type: 1, foo: 1, r#match: 1, is_ok: 1, long_field_name_here: 1, renamed_three: 1, aliased_one: 1, renamed_two: 1, trailing_: 1, renamed_one: 1, ab: 1, foo__bar: 1, a: 1, foo_bar: 1, v_1: 1, a1_2b: 1, a_b_c: 1 } }
impl Strukt for Names5 {
    fn lit() -> Self { lit_Names5() }
    fn known(k: &str) -> bool { match k { "z_z" => true, "x1" => true, "foo2_bar3" => true, "type" => true, "foo" => true, "match" => true, "is_ok" => true, "long_field_name_here" => true, "" => true, "aliased_one" => true, "Some_alias" => true, "another alias" => true, "ünï cödé\n\"q\"" => true, "trailing_" => true, "kept_As-Is" => true, "ab" => true, "foo__bar" => true, "a" => true, "foo_bar" => true, "v_1" => true, "a1_2b" => true, "a_b_c" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["z_z", "x1", "foo2_bar3", "type", "foo", "match", "is_ok", "long_field_name_here", "", "aliased_one", "Some_alias", "another alias", "ünï cödé\n\"q\"", "trailing_", "kept_As-Is", "ab", "foo__bar", "a", "foo_bar", "v_1", "a1_2b", "a_b_c"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "z_z" => <u8 as Model>::gen(r, d), "x1" => <u8 as Model>::gen(r, d), "foo2_bar3" => <u8 as Model>::gen(r, d), "type" => <u8 as Model>::gen(r, d), "foo" => <u8 as Model>::gen(r, d), "match" => <u8 as Model>::gen(r, d), "is_ok" => <u8 as Model>::gen(r, d), "long_field_name_here" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "aliased_one" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "trailing_" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "ab" => <u8 as Model>::gen(r, d), "foo__bar" => <u8 as Model>::gen(r, d), "a" => <u8 as Model>::gen(r, d), "foo_bar" => <u8 as Model>::gen(r, d), "v_1" => <u8 as Model>::gen(r, d), "a1_2b" => <u8 as Model>::gen(r, d), "a_b_c" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "z_z" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "x1" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "foo2_bar3" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "type" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "foo" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "match" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "is_ok" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "long_field_name_here" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "aliased_one" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "trailing_" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "ab" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "foo__bar" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "a" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "v_1" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "a1_2b" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "a_b_c" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("z_z"); }
        if v1.is_none() && !m.bad { m.names.push("x1"); }
        if v2.is_none() && !m.bad { m.names.push("foo2_bar3"); }
        if v3.is_none() && !m.bad { m.names.push("type"); }
        if v4.is_none() && !m.bad { m.names.push("foo"); }
        if v5.is_none() && !m.bad { m.names.push("match"); }
        if v6.is_none() && !m.bad { m.names.push("is_ok"); }
        if v7.is_none() && !m.bad { m.names.push("long_field_name_here"); }
        if v8.is_none() && !m.bad { m.names.push(""); }
        if v9.is_none() && !m.bad { m.names.push("aliased_one"); }
        if v10.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v11.is_none() && !m.bad { m.names.push("trailing_"); }
        if v12.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v13.is_none() && !m.bad { m.names.push("ab"); }
        if v14.is_none() && !m.bad { m.names.push("foo__bar"); }
        if v15.is_none() && !m.bad { m.names.push("a"); }
        if v16.is_none() && !m.bad { m.names.push("foo_bar"); }
        if v17.is_none() && !m.bad { m.names.push("v_1"); }
        if v18.is_none() && !m.bad { m.names.push("a1_2b"); }
        if v19.is_none() && !m.bad { m.names.push("a_b_c"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names5 { z_z: v0.unwrap(), x1: v1.unwrap(), foo2_bar3: v2.unwrap(), r#type: v3.unwrap(), foo: v4.unwrap(), r#match: v5.unwrap(), is_ok: v6.unwrap(), long_field_name_here: v7.unwrap(), renamed_three: v8.unwrap(), aliased_one: v9.unwrap(), renamed_two: v10.unwrap(), trailing_: v11.unwrap(), renamed_one: v12.unwrap(), ab: v13.unwrap(), foo__bar: v14.unwrap(), a: v15.unwrap(), foo_bar: v16.unwrap(), v_1: v17.unwrap(), a1_2b: v18.unwrap(), a_b_c: v19.unwrap() })
    }
}
strukt_model!(Names5);
impl ToTree for Names5 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("z_z".to_string(), self.z_z.tree())); }
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("foo2_bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        { o.push(("match".to_string(), self.r#match.tree())); }
        { o.push(("is_ok".to_string(), self.is_ok.tree())); }
        { o.push(("long_field_name_here".to_string(), self.long_field_name_here.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("aliased_one".to_string(), self.aliased_one.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("trailing_".to_string(), self.trailing_.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("ab".to_string(), self.ab.tree())); }
        { o.push(("foo__bar".to_string(), self.foo__bar.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        { o.push(("v_1".to_string(), self.v_1.tree())); }
        { o.push(("a1_2b".to_string(), self.a1_2b.tree())); }
        { o.push(("a_b_c".to_string(), self.a_b_c.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "snake_case")]
pub enum VNames5 {
    HttpServer,
    FooBar,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    Ab,
    Z,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    #[deser(rename = "")]
    RenamedThree,
    Foo1,
    ABC,
    A,
    XRay,
    Foo1Bar2,
    Foo,
    LongVariantNameHere,
    FooB,
    B9,
    IsOk,
}
impl Names for VNames5 {
    fn rows() -> Vec<(VNames5, &'static str, Vec<&'static str>)> { vec![(VNames5::HttpServer, "http_server", vec![]), (VNames5::FooBar, "foo_bar", vec![]), (VNames5::RenamedOne, "kept_As-Is", vec![]), (VNames5::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames5::Ab, "ab", vec![]), (VNames5::Z, "z", vec![]), (VNames5::AliasedOne, "aliased_one", vec!["Some_alias", "another alias"]), (VNames5::RenamedThree, "", vec![]), (VNames5::Foo1, "foo1", vec![]), (VNames5::ABC, "a_b_c", vec![]), (VNames5::A, "a", vec![]), (VNames5::XRay, "x_ray", vec![]), (VNames5::Foo1Bar2, "foo1_bar2", vec![]), (VNames5::Foo, "foo", vec![]), (VNames5::LongVariantNameHere, "long_variant_name_here", vec![]), (VNames5::FooB, "foo_b", vec![]), (VNames5::B9, "b9", vec![]), (VNames5::IsOk, "is_ok", vec![])] }
}
enum_model!(VNames5);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct Names6 {
    pub x1: u8,
    pub z_z: u8,
    pub a1_2b: u8,
    pub is_ok: u8,
    pub a_b_c: u8,
    pub long_field_name_here: u8,
    pub foo2_bar3: u8,
    pub foo: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub r#type: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub foo__bar: u8,
    pub v_1: u8,
    pub foo_bar: u8,
    pub r#match: u8,
    pub ab: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub trailing_: u8,
    pub a: u8,
}
fn lit_Names6() -> Names6 { Names6 { x1: 1, z_z: 1, a1_2b: 1, is_ok: 1, a_b_c: 1, long_field_name_here: 1, foo2_bar3: 1, foo: 1, renamed_one: 1, r#type: 1, renamed_two: 1, renamed_three: 1, foo__bar: 1, v_1: 1, foo_bar: 1, r#match: 1, ab: 1, aliased_one: 1, trailing_: 1, a: 1 } }
impl Strukt for Names6 {
    fn lit() -> Self { lit_Names6() }
    fn known(k: &str) -> bool { match k { "X1" => true, "Z_Z" => true, "A1_2B" => true, "IS_OK" => true, "A_B_C" => true, "LONG_FIELD_NAME_HERE" => true, "FOO2_BAR3" => true, "FOO" => true, "kept_As-Is" => true, "TYPE" => true, "ünï cödé\n\"q\"" => true, "" => true, "FOO__BAR" => true, "V_1" => true, "FOO_BAR" => true, "MATCH" => true, "AB" => true, "ALIASED_ONE" => true, "Some_alias" => true, "another alias" => true, "TRAILING_" => true, "A" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["X1", "Z_Z", "A1_2B", "IS_OK", "A_B_C", "LONG_FIELD_NAME_HERE", "FOO2_BAR3", "FOO", "kept_As-Is", "TYPE", "ünï cödé\n\"q\"", "", "FOO__BAR", "V_1", "FOO_BAR", "MATCH", "AB", "ALIASED_ONE", "Some_alias", "another alias", "TRAILING_", "A"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "X1" => <u8 as Model>::gen(r, d), "Z_Z" => <u8 as Model>::gen(r, d), "A1_2B" => <u8 as Model>::gen(r, d), "IS_OK" => <u8 as Model>::gen(r, d), "A_B_C" => <u8 as Model>::gen(r, d), "LONG_FIELD_NAME_HERE" => <u8 as Model>::gen(r, d), "FOO2_BAR3" => <u8 as Model>::gen(r, d), "FOO" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "TYPE" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "FOO__BAR" => <u8 as Model>::gen(r, d), "V_1" => <u8 as Model>::gen(r, d), "FOO_BAR" => <u8 as Model>::gen(r, d), "MATCH" => <u8 as Model>::gen(r, d), "AB" => <u8 as Model>::gen(r, d), "ALIASED_ONE" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "TRAILING_" => <u8 as Model>::gen(r, d), "A" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "X1" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "Z_Z" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "A1_2B" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "IS_OK" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "A_B_C" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "LONG_FIELD_NAME_HERE" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "FOO2_BAR3" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "FOO" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "TYPE" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "FOO__BAR" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "V_1" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "FOO_BAR" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "MATCH" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "AB" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "ALIASED_ONE" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "TRAILING_" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "A" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("X1"); }
        if v1.is_none() && !m.bad { m.names.push("Z_Z"); }
        if v2.is_none() && !m.bad { m.names.push("A1_2B"); }
        if v3.is_none() && !m.bad { m.names.push("IS_OK"); }
        if v4.is_none() && !m.bad { m.names.push("A_B_C"); }
        if v5.is_none() && !m.bad { m.names.push("LONG_FIELD_NAME_HERE"); }
        if v6.is_none() && !m.bad { m.names.push("FOO2_BAR3"); }
        if v7.is_none() && !m.bad { m.names.push("FOO"); }
        if v8.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v9.is_none() && !m.bad { m.names.push("TYPE"); }
        if v10.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v11.is_none() && !m.bad { m.names.push(""); }
        if v12.is_none() && !m.bad { m.names.push("FOO__BAR"); }
        if v13.is_none() && !m.bad { m.names.push("V_1"); }
        if v14.is_none() && !m.bad { m.names.push("FOO_BAR"); }
        if v15.is_none() && !m.bad { m.names.push("MATCH"); }
        if v16.is_none() && !m.bad { m.names.push("AB"); }
        if v17.is_none() && !m.bad { m.names.push("ALIASED_ONE"); }
        if v18.is_none() && !m.bad { m.names.push("TRAILING_"); }
        if v19.is_none() && !m.bad { m.names.push("A"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names6 { x1: v0.unwrap(), z_z: v1.unwrap(), a1_2b: v2.unwrap(), is_ok: v3.unwrap(), a_b_c: v4.unwrap(), long_field_name_here: v5.unwrap(), foo2_bar3: v6.unwrap(), foo: v7.unwrap(), renamed_one: v8.unwrap(), r#type: v9.unwrap(), renamed_two: v10.unwrap(), renamed_three: v11.unwrap(), foo__bar: v12.unwrap(), v_1: v13.unwrap(), foo_bar: v14.unwrap(), r#match: v15.unwrap(), ab: v16.unwrap(), aliased_one: v17.unwrap(), trailing_: v18.unwrap(), a: v19.unwrap() })
    }
}
strukt_model!(Names6);
impl ToTree for Names6 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("Z_Z".to_string(), self.z_z.tree())); }
        { o.push(("A1_2B".to_string(), self.a1_2b.tree())); }
        { o.push(("IS_OK".to_string(), self.is_ok.tree())); }
        { o.push(("A_B_C".to_string(), self.a_b_c.tree())); }
        { o.push(("LONG_FIELD_NAME_HERE".to_string(), self.long_field_name_here.tree())); }
        { o.push(("FOO2_BAR3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("FOO".to_string(), self.foo.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("TYPE".to_string(), self.r#type.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("FOO__BAR".to_string(), self.foo__bar.tree())); }
        { o.push(("V_1".to_string(), self.v_1.tree())); }
        { o.push(("FOO_BAR".to_string(), self.foo_bar.tree())); }
        { o.push(("MATCH".to_string(), self.r#match.tree())); }
        { o.push(("AB".to_string(), self.ab.tree())); }
        { o.push(("ALIASED_ONE".to_string(), self.aliased_one.tree())); }
        { o.push(("TRAILING_".to_string(), self.trailing_.tree())); }
        { o.push(("A".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum VNames6 {
    Foo,
    B9,
    HttpServer,
    #[deser(rename = "")]
    RenamedThree,
    XRay,
    IsOk,
    A,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    ABC,
    Z,
    Foo1,
    FooB,
    FooBar,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    LongVariantNameHere,
    Ab,
    Foo1Bar2,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
}
impl Names for VNames6 {
    fn rows() -> Vec<(VNames6, &'static str, Vec<&'static str>)> { vec![(VNames6::Foo, "FOO", vec![]), (VNames6::B9, "B9", vec![]), (VNames6::HttpServer, "HTTP_SERVER", vec![]), (VNames6::RenamedThree, "", vec![]), (VNames6::XRay, "X_RAY", vec![]), (VNames6::IsOk, "IS_OK", vec![]), (VNames6::A, "A", vec![]), (VNames6::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames6::ABC, "A_B_C", vec![]), (VNames6::Z, "Z", vec![]), (VNames6::Foo1, "FOO1", vec![]), (VNames6::FooB, "FOO_B", vec![]), (VNames6::FooBar, "FOO_BAR", vec![]), (VNames6::RenamedOne, "kept_As-Is", vec![]), (VNames6::LongVariantNameHere, "LONG_VARIANT_NAME_HERE", vec![]), (VNames6::Ab, "AB", vec![]), (VNames6::Foo1Bar2, "FOO1_BAR2", vec![]), (VNames6::AliasedOne, "ALIASED_ONE", vec!["Some_alias", "another alias"])] }
}
enum_model!(VNames6);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
pub struct Names7 {
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub a1_2b: u8,
    pub is_ok: u8,
    pub ab: u8,
    pub trailing_: u8,
    pub r#type: u8,
    pub long_field_name_here: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub foo_bar: u8,
    pub foo2_bar3: u8,
    pub v_1: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub foo: u8,
    pub z_z: u8,
    pub x1: u8,
    pub a_b_c: u8,
    pub foo__bar: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub r#match: u8,
    pub a: u8,
}
fn lit_Names7() -> Names7 { Names7 { aliased_one: 1, a1_2b: 1, is_ok: 1, ab: 1, trailing_: 1, r#type: 1, long_field_name_here: 1, renamed_one: 1, foo_bar: 1, foo2_bar3: 1, v_1: 1, renamed_two: 1, foo: 1, z_z: 1, x1: 1, a_b_c: 1, foo__bar: 1, renamed_three: 1, r#match: 1, a: 1 } }
impl Strukt for Names7 {
    fn lit() -> Self { lit_Names7() }
    fn known(k: &str) -> bool { match k { "aliased-one" => true, "Some_alias" => true, "another alias" => true, "a1-2b" => true, "is-ok" => true, "ab" => true, "trailing-" => true, "type" => true, "long-field-name-here" => true, "kept_As-Is" => true, "foo-bar" => true, "foo2-bar3" => true, "v-1" => true, "ünï cödé\n\"q\"" => true, "foo" => true, "z-z" => true, "x1" => true, "a-b-c" => true, "foo--bar" => true, "" => true, "match" => true, "a" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["aliased-one", "Some_alias", "another alias", "a1-2b", "is-ok", "ab", "trailing-", "type", "long-field-name-here", "kept_As-Is", "foo-bar", "foo2-bar3", "v-1", "ünï cödé\n\"q\"", "foo", "z-z", "x1", "a-b-c", "foo--bar", "", "match", "a"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "aliased-one" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "a1-2b" => <u8 as Model>::gen(r, d), "is-ok" => <u8 as Model>::gen(r, d), "ab" => <u8 as Model>::gen(r, d), "trailing-" => <u8 as Model>::gen(r, d), "type" => <u8 as Model>::gen(r, d), "long-field-name-here" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "foo-bar" => <u8 as Model>::gen(r, d), "foo2-bar3" => <u8 as Model>::gen(r, d), "v-1" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "foo" => <u8 as Model>::gen(r, d), "z-z" => <u8 as Model>::gen(r, d), "x1" => <u8 as Model>::gen(r, d), "a-b-c" => <u8 as Model>::gen(r, d), "foo--bar" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "match" => <u8 as Model>::gen(r, d), "a" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "aliased-one" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "a1-2b" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "is-ok" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "ab" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "trailing-" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "type" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "long-field-name-here" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "foo-bar" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "foo2-bar3" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "v-1" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "foo" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "z-z" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "x1" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "a-b-c" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "foo--bar" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "match" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "a" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("aliased-one"); }
        if v1.is_none() && !m.bad { m.names.push("a1-2b"); }
        if v2.is_none() && !m.bad { m.names.push("is-ok"); }
        if v3.is_none() && !m.bad { m.names.push("ab"); }
        if v4.is_none() && !m.bad { m.names.push("trailing-"); }
        if v5.is_none() && !m.bad { m.names.push("type"); }
        if v6.is_none() && !m.bad { m.names.push("long-field-name-here"); }
        if v7.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v8.is_none() && !m.bad { m.names.push("foo-bar"); }
        if v9.is_none() && !m.bad { m.names.push("foo2-bar3"); }
        if v10.is_none() && !m.bad { m.names.push("v-1"); }
        if v11.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v12.is_none() && !m.bad { m.names.push("foo"); }
        if v13.is_none() && !m.bad { m.names.push("z-z"); }
        if v14.is_none() && !m.bad { m.names.push("x1"); }
        if v15.is_none() && !m.bad { m.names.push("a-b-c"); }
        if v16.is_none() && !m.bad { m.names.push("foo--bar"); }
        if v17.is_none() && !m.bad { m.names.push(""); }
        if v18.is_none() && !m.bad { m.names.push("match"); }
        if v19.is_none() && !m.bad { m.names.push("a"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names7 { aliased_one: v0.unwrap(), a1_2b: v1.unwrap(), is_ok: v2.unwrap(), ab: v3.unwrap(), trailing_: v4.unwrap(), r#type: v5.unwrap(), long_field_name_here: v6.unwrap(), renamed_one: v7.unwrap(), foo_bar: v8.unwrap(), foo2_bar3: v9.unwrap(), v_1: v10.unwrap(), renamed_two: v11.unwrap(), foo: v12.unwrap(), z_z: v13.unwrap(), x1: v14.unwrap(), a_b_c: v15.unwrap(), foo__bar: v16.unwrap(), renamed_three: v17.unwrap(), r#match: v18.unwrap(), a: v19.unwrap() })
    }
}
strukt_model!(Names7);
impl ToTree for Names7 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("aliased-one".to_string(), self.aliased_one.tree())); }
        { o.push(("a1-2b".to_string(), self.a1_2b.tree())); }
        { o.push(("is-ok".to_string(), self.is_ok.tree())); }
        { o.push(("ab".to_string(), self.ab.tree())); }
        { o.push(("trailing-".to_string(), self.trailing_.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("long-field-name-here".to_string(), self.long_field_name_here.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("foo-bar".to_string(), self.foo_bar.tree())); }
        { o.push(("foo2-bar3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("v-1".to_string(), self.v_1.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        { o.push(("z-z".to_string(), self.z_z.tree())); }
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("a-b-c".to_string(), self.a_b_c.tree())); }
        { o.push(("foo--bar".to_string(), self.foo__bar.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("match".to_string(), self.r#match.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "kebab-case")]
pub enum VNames7 {
    Ab,
    Foo1Bar2,
    FooB,
    #[deser(rename = "")]
    RenamedThree,
    Z,
    IsOk,
    B9,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
    Foo1,
    FooBar,
    XRay,
    HttpServer,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    ABC,
    Foo,
    A,
    LongVariantNameHere,
}
impl Names for VNames7 {
    fn rows() -> Vec<(VNames7, &'static str, Vec<&'static str>)> { vec![(VNames7::Ab, "ab", vec![]), (VNames7::Foo1Bar2, "foo1-bar2", vec![]), (VNames7::FooB, "foo-b", vec![]), (VNames7::RenamedThree, "", vec![]), (VNames7::Z, "z", vec![]), (VNames7::IsOk, "is-ok", vec![]), (VNames7::B9, "b9", vec![]), (VNames7::AliasedOne, "aliased-one", vec!["Some_alias", "another alias"]), (VNames7::RenamedTwo, "ünï cödé\n\"q\"", vec![]), (VNames7::Foo1, "foo1", vec![]), (VNames7::FooBar, "foo-bar", vec![]), (VNames7::XRay, "x-ray", vec![]), (VNames7::HttpServer, "http-server", vec![]), (VNames7::RenamedOne, "kept_As-Is", vec![]), (VNames7::ABC, "a-b-c", vec![]), (VNames7::Foo, "foo", vec![]), (VNames7::A, "a", vec![]), (VNames7::LongVariantNameHere, "long-variant-name-here", vec![])] }
}
enum_model!(VNames7);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct Names8 {
    pub r#match: u8,
    pub r#type: u8,
    pub a_b_c: u8,
    #[deser(rename = "")]
    pub renamed_three: u8,
    pub a1_2b: u8,
    pub v_1: u8,
    #[deser(alias = "Some_alias", alias = "another alias")]
    pub aliased_one: u8,
    pub foo_bar: u8,
    pub is_ok: u8,
    pub long_field_name_here: u8,
    pub foo__bar: u8,
    pub ab: u8,
    #[deser(rename = "kept_As-Is")]
    pub renamed_one: u8,
    pub a: u8,
    #[deser(rename = "ünï cödé\n\"q\"")]
    pub renamed_two: u8,
    pub x1: u8,
    pub foo2_bar3: u8,
    pub z_z: u8,
    pub foo: u8,
    pub trailing_: u8,
}
fn lit_Names8() -> Names8 { Names8 { r#match: 1, r#type: 1, a_b_c: 1, renamed_three: 1, a1_2b: 1, v_1: 1, aliased_one: 1, foo_bar: 1, is_ok: 1, long_field_name_here: 1, foo__bar: 1, ab: 1, renamed_one: 1, a: 1, renamed_two: 1, x1: 1, foo2_bar3: 1, z_z: 1, foo: 1, trailing_: 1 } }
impl Strukt for Names8 {
    fn lit() -> Self { lit_Names8() }
    fn known(k: &str) -> bool { match k { "MATCH" => true, "TYPE" => true, "A-B-C" => true, "" => true, "A1-2B" => true, "V-1" => true, "ALIASED-ONE" => true, "Some_alias" => true, "another alias" => true, "FOO-BAR" => true, "IS-OK" => true, "LONG-FIELD-NAME-HERE" => true, "FOO--BAR" => true, "AB" => true, "kept_As-Is" => true, "A" => true, "ünï cödé\n\"q\"" => true, "X1" => true, "FOO2-BAR3" => true, "Z-Z" => true, "FOO" => true, "TRAILING-" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["MATCH", "TYPE", "A-B-C", "", "A1-2B", "V-1", "ALIASED-ONE", "Some_alias", "another alias", "FOO-BAR", "IS-OK", "LONG-FIELD-NAME-HERE", "FOO--BAR", "AB", "kept_As-Is", "A", "ünï cödé\n\"q\"", "X1", "FOO2-BAR3", "Z-Z", "FOO", "TRAILING-"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "MATCH" => <u8 as Model>::gen(r, d), "TYPE" => <u8 as Model>::gen(r, d), "A-B-C" => <u8 as Model>::gen(r, d), "" => <u8 as Model>::gen(r, d), "A1-2B" => <u8 as Model>::gen(r, d), "V-1" => <u8 as Model>::gen(r, d), "ALIASED-ONE" => <u8 as Model>::gen(r, d), "Some_alias" => <u8 as Model>::gen(r, d), "another alias" => <u8 as Model>::gen(r, d), "FOO-BAR" => <u8 as Model>::gen(r, d), "IS-OK" => <u8 as Model>::gen(r, d), "LONG-FIELD-NAME-HERE" => <u8 as Model>::gen(r, d), "FOO--BAR" => <u8 as Model>::gen(r, d), "AB" => <u8 as Model>::gen(r, d), "kept_As-Is" => <u8 as Model>::gen(r, d), "A" => <u8 as Model>::gen(r, d), "ünï cödé\n\"q\"" => <u8 as Model>::gen(r, d), "X1" => <u8 as Model>::gen(r, d), "FOO2-BAR3" => <u8 as Model>::gen(r, d), "Z-Z" => <u8 as Model>::gen(r, d), "FOO" => <u8 as Model>::gen(r, d), "TRAILING-" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "MATCH" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "TYPE" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "A-B-C" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "A1-2B" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "V-1" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "ALIASED-ONE" | "Some_alias" | "another alias" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "FOO-BAR" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "IS-OK" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "LONG-FIELD-NAME-HERE" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "FOO--BAR" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "AB" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "kept_As-Is" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "A" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "ünï cödé\n\"q\"" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "X1" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "FOO2-BAR3" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "Z-Z" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "FOO" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "TRAILING-" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("MATCH"); }
        if v1.is_none() && !m.bad { m.names.push("TYPE"); }
        if v2.is_none() && !m.bad { m.names.push("A-B-C"); }
        if v3.is_none() && !m.bad { m.names.push(""); }
        if v4.is_none() && !m.bad { m.names.push("A1-2B"); }
        if v5.is_none() && !m.bad { m.names.push("V-1"); }
        if v6.is_none() && !m.bad { m.names.push("ALIASED-ONE"); }
        if v7.is_none() && !m.bad { m.names.push("FOO-BAR"); }
        if v8.is_none() && !m.bad { m.names.push("IS-OK"); }
        if v9.is_none() && !m.bad { m.names.push("LONG-FIELD-NAME-HERE"); }
        if v10.is_none() && !m.bad { m.names.push("FOO--BAR"); }
        if v11.is_none() && !m.bad { m.names.push("AB"); }
        if v12.is_none() && !m.bad { m.names.push("kept_As-Is"); }
        if v13.is_none() && !m.bad { m.names.push("A"); }
        if v14.is_none() && !m.bad { m.names.push("ünï cödé\n\"q\""); }
        if v15.is_none() && !m.bad { m.names.push("X1"); }
        if v16.is_none() && !m.bad { m.names.push("FOO2-BAR3"); }
        if v17.is_none() && !m.bad { m.names.push("Z-Z"); }
        if v18.is_none() && !m.bad { m.names.push("FOO"); }
        if v19.is_none() && !m.bad { m.names.push("TRAILING-"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Names8 { r#match: v0.unwrap(), r#type: v1.unwrap(), a_b_c: v2.unwrap(), renamed_three: v3.unwrap(), a1_2b: v4.unwrap(), v_1: v5.unwrap(), aliased_one: v6.unwrap(), foo_bar: v7.unwrap(), is_ok: v8.unwrap(), long_field_name_here: v9.unwrap(), foo__bar: v10.unwrap(), ab: v11.unwrap(), renamed_one: v12.unwrap(), a: v13.unwrap(), renamed_two: v14.unwrap(), x1: v15.unwrap(), foo2_bar3: v16.unwrap(), z_z: v17.unwrap(), foo: v18.unwrap(), trailing_: v19.unwrap() })
    }
}
strukt_model!(Names8);
impl ToTree for Names8 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("MATCH".to_string(), self.r#match.tree())); }
        { o.push(("TYPE".to_string(), self.r#type.tree())); }
        { o.push(("A-B-C".to_string(), self.a_b_c.tree())); }
        { o.push(("".to_string(), self.renamed_three.tree())); }
        { o.push(("A1-2B".to_string(), self.a1_2b.tree())); }
        { o.push(("V-1".to_string(), self.v_1.tree())); }
        { o.push(("ALIASED-ONE".to_string(), self.aliased_one.tree())); }
        { o.push(("FOO-BAR".to_string(), self.foo_bar.tree())); }
        { o.push(("IS-OK".to_string(), self.is_ok.tree())); }
        { o.push(("LONG-FIELD-NAME-HERE".to_string(), self.long_field_name_here.tree())); }
        { o.push(("FOO--BAR".to_string(), self.foo__bar.tree())); }
        { o.push(("AB".to_string(), self.ab.tree())); }
        { o.push(("kept_As-Is".to_string(), self.renamed_one.tree())); }
        { o.push(("A".to_string(), self.a.tree())); }
        { o.push(("ünï cödé\n\"q\"".to_string(), self.renamed_two.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("FOO2-BAR3".to_string(), self.foo2_bar3.tree())); }
        { o.push(("Z-Z".to_string(), self.z_z.tree())); }
        { o.push(("FOO".to_string(), self.foo.tree())); }
        { o.push(("TRAILING-".to_string(), self.trailing_.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum VNames8 {
    FooB,
    ABC,
    LongVariantNameHere,
    #[deser(rename = "kept_As-Is")]
    RenamedOne,
    #[deser(rename = "")]
    RenamedThree,
    A,
    HttpServer,
    Ab,
    Foo1Bar2,
    Z,
    Foo1,
    IsOk,
    #[deser(alias = "Some_alias", alias = "another alias")]
    AliasedOne,
    FooBar,
    B9,
    XRay,
    Foo,
    #[deser(rename = "ünï cödé\n\"q\"")]
    RenamedTwo,
}
impl Names for VNames8 {
    fn rows() -> Vec<(VNames8, &'static str, Vec<&'static str>)> { vec![(VNames8::FooB, "FOO-B", vec![]), (VNames8::ABC, "A-B-C", vec![]), (VNames8::LongVariantNameHere, "LONG-VARIANT-NAME-HERE", vec![]), (VNames8::RenamedOne, "kept_As-Is", vec![]), (VNames8::RenamedThree, "", vec![]), (VNames8::A, "A", vec![]), (VNames8::HttpServer, "HTTP-SERVER", vec![]), (VNames8::Ab, "AB", vec![]), (VNames8::Foo1Bar2, "FOO1-BAR2", vec![]), (VNames8::Z, "Z", vec![]), (VNames8::Foo1, "FOO1", vec![]), (VNames8::IsOk, "IS-OK", vec![]), (VNames8::AliasedOne, "ALIASED-ONE", vec!["Some_alias", "another alias"]), (VNames8::FooBar, "FOO-BAR", vec![]), (VNames8::B9, "B9", vec![]), (VNames8::XRay, "X-RAY", vec![]), (VNames8::Foo, "FOO", vec![]), (VNames8::RenamedTwo, "ünï cödé\n\"q\"", vec![])] }
}
enum_model!(VNames8);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "lowercase")]
pub enum E0 {
    A,
}
impl Names for E0 {
    fn rows() -> Vec<(E0, &'static str, Vec<&'static str>)> { vec![(E0::A, "a", vec![])] }
}
enum_model!(E0);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "lowercase")]
pub enum E1 {
    #[deser(alias = "al0_B", alias = "al1_B")]
    B,
    #[deser(alias = "al0_ThreeWords")]
    ThreeWords,
    None,
    #[deser(alias = "al0_Some", alias = "al1_Some")]
    Some,
    Nr4,
    Ok,
}
impl Names for E1 {
    fn rows() -> Vec<(E1, &'static str, Vec<&'static str>)> { vec![(E1::B, "b", vec!["al0_B", "al1_B"]), (E1::ThreeWords, "threewords", vec!["al0_ThreeWords"]), (E1::None, "none", vec![]), (E1::Some, "some", vec!["al0_Some", "al1_Some"]), (E1::Nr4, "nr4", vec![]), (E1::Ok, "ok", vec![])] }
}
enum_model!(E1);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "kebab-case")]
pub enum E2 {
    Five5Five,
    #[deser(rename = "r2 Ok")]
    Ok,
    Some,
    B,
}
impl Names for E2 {
    fn rows() -> Vec<(E2, &'static str, Vec<&'static str>)> { vec![(E2::Five5Five, "five5-five", vec![]), (E2::Ok, "r2 Ok", vec![]), (E2::Some, "some", vec![]), (E2::B, "b", vec![])] }
}
enum_model!(E2);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "PascalCase")]
pub enum E3 {
    #[deser(rename = "r3 None")]
    None,
    #[deser(rename = "r3 Nr4")]
    Nr4,
    Five5Five,
    #[deser(alias = "al0_Ok", alias = "al1_Ok")]
    Ok,
    #[deser(alias = "al0_A")]
    A,
    B,
    #[deser(rename = "r3 ThreeWords")]
    ThreeWords,
}
impl Names for E3 {
    fn rows() -> Vec<(E3, &'static str, Vec<&'static str>)> { vec![(E3::None, "r3 None", vec![]), (E3::Nr4, "r3 Nr4", vec![]), (E3::Five5Five, "Five5Five", vec![]), (E3::Ok, "Ok", vec!["al0_Ok", "al1_Ok"]), (E3::A, "A", vec!["al0_A"]), (E3::B, "B", vec![]), (E3::ThreeWords, "r3 ThreeWords", vec![])] }
}
enum_model!(E3);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
pub enum E4 {
    B,
    #[deser(rename = "r4 A")]
    A,
    #[deser(rename = "r4 Two", alias = "al0_Two")]
    Two,
}
impl Names for E4 {
    fn rows() -> Vec<(E4, &'static str, Vec<&'static str>)> { vec![(E4::B, "B", vec![]), (E4::A, "r4 A", vec![]), (E4::Two, "r4 Two", vec!["al0_Two"])] }
}
enum_model!(E4);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "kebab-case")]
pub enum E5 {
    #[deser(rename = "r5 Two")]
    Two,
    ThreeWords,
    Ok,
    #[deser(alias = "al0_Nr4", alias = "al1_Nr4")]
    Nr4,
    #[deser(rename = "r5 A", alias = "al0_A")]
    A,
    #[deser(rename = "r5 Five5Five", alias = "al0_Five5Five")]
    Five5Five,
}
impl Names for E5 {
    fn rows() -> Vec<(E5, &'static str, Vec<&'static str>)> { vec![(E5::Two, "r5 Two", vec![]), (E5::ThreeWords, "three-words", vec![]), (E5::Ok, "ok", vec![]), (E5::Nr4, "nr4", vec!["al0_Nr4", "al1_Nr4"]), (E5::A, "r5 A", vec!["al0_A"]), (E5::Five5Five, "r5 Five5Five", vec!["al0_Five5Five"])] }
}
enum_model!(E5);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E6 {
    #[deser(rename = "r6 Ok")]
    Ok,
}
impl Names for E6 {
    fn rows() -> Vec<(E6, &'static str, Vec<&'static str>)> { vec![(E6::Ok, "r6 Ok", vec![])] }
}
enum_model!(E6);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum E7 {
    #[deser(rename = "r7 Two", alias = "al0_Two", alias = "al1_Two")]
    Two,
    #[deser(alias = "al0_A")]
    A,
}
impl Names for E7 {
    fn rows() -> Vec<(E7, &'static str, Vec<&'static str>)> { vec![(E7::Two, "r7 Two", vec!["al0_Two", "al1_Two"]), (E7::A, "A", vec!["al0_A"])] }
}
enum_model!(E7);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
pub struct S0 {
}
fn lit_S0() -> S0 { S0 {  } }
impl Strukt for S0 {
    fn lit() -> Self { lit_S0() }
    fn known(k: &str) -> bool { match k {  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec![];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k {  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        for (k, v) in e {
            match k.as_str() {
                _ => {}
            }
        }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S0 {  })
    }
}
strukt_model!(S0);
impl ToTree for S0 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S1 {
    #[deser(default = "dflt_S1_foo")]
    pub foo: Box<Wrap>,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub c: (),
}
fn dflt_S1_foo() -> Box<Wrap> { Box::new(Wrap(7)) }
fn lit_S1() -> S1 { S1 { foo: Box::new(Wrap(1)), c: () } }
impl Strukt for S1 {
    fn lit() -> Self { lit_S1() }
    fn known(k: &str) -> bool { match k { "FOO" => true, "C" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["FOO", "C"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "FOO" => <Box<Wrap> as Model>::gen(r, d), "C" => <() as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<Wrap>> = None;
        let mut v1: Option<()> = None;
        for (k, v) in e {
            match k.as_str() {
                "FOO" => match <Box<Wrap> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "C" => match <() as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(Wrap(7))));
        if v1.is_none() && !m.bad { m.names.push("C"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S1 { foo: v0.unwrap(), c: v1.unwrap() })
    }
}
strukt_model!(S1);
impl ToTree for S1 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("FOO".to_string(), self.foo.tree())); }
        if !crate::derive::skip_hash(&self.c) { o.push(("C".to_string(), self.c.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE", default, skip_serializing_optionals)]
pub struct S2 {
    #[deser(alias = "type", alias = "fooBar", skip_serializing_if = "crate::derive::skip_hash")]
    pub r#type: WrapPlain,
}
fn lit_S2() -> S2 { S2 { r#type: WrapPlain(lit_Plain()) } }
impl Default for S2 { fn default() -> Self { lit_S2() } }
impl Strukt for S2 {
    fn lit() -> Self { lit_S2() }
    fn known(k: &str) -> bool { match k { "TYPE" => true, "type" => true, "fooBar" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["TYPE", "type", "fooBar"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "TYPE" => <WrapPlain as Model>::gen(r, d), "type" => <WrapPlain as Model>::gen(r, d), "fooBar" => <WrapPlain as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<WrapPlain> = None;
        for (k, v) in e {
            match k.as_str() {
                "TYPE" | "type" | "fooBar" => match <WrapPlain as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| WrapPlain(lit_Plain())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S2 { r#type: v0.unwrap() })
    }
}
strukt_model!(S2);
impl ToTree for S2 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.r#type) && !self.r#type.absent() { o.push(("TYPE".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
pub struct S3 {
    #[deser(default)]
    pub value: Vec<u16>,
    #[deser(alias = "b3", skip_serializing_if = "crate::derive::skip_hash")]
    pub sink: u8,
    #[deser(alias = "type")]
    pub bar: Vec<u16>,
    #[deser(alias = "a3")]
    pub key: Wrap,
}
fn lit_S3() -> S3 { S3 { value: vec![], sink: 1, bar: vec![], key: Wrap(1) } }
impl Strukt for S3 {
    fn lit() -> Self { lit_S3() }
    fn known(k: &str) -> bool { match k { "value" => true, "sink" => true, "b3" => true, "bar" => true, "type" => true, "key" => true, "a3" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["value", "sink", "b3", "bar", "type", "key", "a3"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "value" => <Vec<u16> as Model>::gen(r, d), "sink" => <u8 as Model>::gen(r, d), "b3" => <u8 as Model>::gen(r, d), "bar" => <Vec<u16> as Model>::gen(r, d), "type" => <Vec<u16> as Model>::gen(r, d), "key" => <Wrap as Model>::gen(r, d), "a3" => <Wrap as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Vec<u16>> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<Vec<u16>> = None;
        let mut v3: Option<Wrap> = None;
        for (k, v) in e {
            match k.as_str() {
                "value" => match <Vec<u16> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "sink" | "b3" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "bar" | "type" => match <Vec<u16> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "key" | "a3" => match <Wrap as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        if v1.is_none() && !m.bad { m.names.push("sink"); }
        if v2.is_none() && !m.bad { m.names.push("bar"); }
        if v3.is_none() && !m.bad { m.names.push("key"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S3 { value: v0.unwrap(), sink: v1.unwrap(), bar: v2.unwrap(), key: v3.unwrap() })
    }
}
strukt_model!(S3);
impl ToTree for S3 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("value".to_string(), self.value.tree())); }
        if !crate::derive::skip_hash(&self.sink) { o.push(("sink".to_string(), self.sink.tree())); }
        { o.push(("bar".to_string(), self.bar.tree())); }
        { o.push(("key".to_string(), self.key.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase", rename = "Renamed4", skip_serializing_optionals)]
pub struct S4 {
    #[deser(default = "dflt_S4_type")]
    pub r#type: Box<S1>,
}
fn dflt_S4_type() -> Box<S1> { Box::new(lit_S1()) }
fn lit_S4() -> S4 { S4 { r#type: Box::new(lit_S1()) } }
impl Strukt for S4 {
    fn lit() -> Self { lit_S4() }
    fn known(k: &str) -> bool { match k { "type" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["type"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "type" => <Box<S1> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S1>> = None;
        for (k, v) in e {
            match k.as_str() {
                "type" => match <Box<S1> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(lit_S1())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S4 { r#type: v0.unwrap() })
    }
}
strukt_model!(S4);
impl ToTree for S4 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.r#type.absent() { o.push(("type".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase", default)]
pub struct S5 {
    #[deser(alias = "type", default = "dflt_S5_x1")]
    pub x1: Option<Vec<bool>>,
    pub slot: Vec<S0>,
    #[deser(default = "dflt_S5_y_2")]
    pub y_2: S2,
    pub foo: Vec<E7>,
}
fn dflt_S5_x1() -> Option<Vec<bool>> { Some(vec![]) }
fn dflt_S5_y_2() -> S2 { lit_S2() }
fn lit_S5() -> S5 { S5 { x1: None, slot: vec![lit_S0()], y_2: lit_S2(), foo: vec![E7::Two] } }
impl Default for S5 { fn default() -> Self { lit_S5() } }
impl Strukt for S5 {
    fn lit() -> Self { lit_S5() }
    fn known(k: &str) -> bool { match k { "x1" => true, "type" => true, "slot" => true, "y_2" => true, "foo" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["x1", "type", "slot", "y_2", "foo"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "x1" => <Option<Vec<bool>> as Model>::gen(r, d), "type" => <Option<Vec<bool>> as Model>::gen(r, d), "slot" => <Vec<S0> as Model>::gen(r, d), "y_2" => <S2 as Model>::gen(r, d), "foo" => <Vec<E7> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<Vec<bool>>> = None;
        let mut v1: Option<Vec<S0>> = None;
        let mut v2: Option<S2> = None;
        let mut v3: Option<Vec<E7>> = None;
        for (k, v) in e {
            match k.as_str() {
                "x1" | "type" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "slot" => match <Vec<S0> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "y_2" => match <S2 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "foo" => match <Vec<E7> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Some(vec![])));
        let v1 = Some(v1.unwrap_or_else(|| vec![lit_S0()]));
        let v2 = Some(v2.unwrap_or_else(|| lit_S2()));
        let v3 = Some(v3.unwrap_or_else(|| vec![E7::Two]));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S5 { x1: v0.unwrap(), slot: v1.unwrap(), y_2: v2.unwrap(), foo: v3.unwrap() })
    }
}
strukt_model!(S5);
impl ToTree for S5 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("x1".to_string(), self.x1.tree())); }
        { o.push(("slot".to_string(), self.slot.tree())); }
        { o.push(("y_2".to_string(), self.y_2.tree())); }
        { o.push(("foo".to_string(), self.foo.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE", default = "mk_S6")]
pub struct S6 {
    #[deser(default = "dflt_S6_a")]
    pub a: Color,
    pub data: String,
}
fn dflt_S6_a() -> Color { Color::Red }
fn lit_S6() -> S6 { S6 { a: Color::Red, data: "lit".to_string() } }
fn mk_S6() -> S6 { lit_S6() }
impl Strukt for S6 {
    fn lit() -> Self { lit_S6() }
    fn known(k: &str) -> bool { match k { "A" => true, "DATA" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["A", "DATA"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "A" => <Color as Model>::gen(r, d), "DATA" => <String as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Color> = None;
        let mut v1: Option<String> = None;
        for (k, v) in e {
            match k.as_str() {
                "A" => match <Color as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "DATA" => match <String as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Color::Red));
        let v1 = Some(v1.unwrap_or_else(|| "lit".to_string()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S6 { a: v0.unwrap(), data: v1.unwrap() })
    }
}
strukt_model!(S6);
impl ToTree for S6 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("A".to_string(), self.a.tree())); }
        { o.push(("DATA".to_string(), self.data.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "UPPERCASE")]
pub struct S7 {
    #[deser(alias = "alias7", skip_serializing_if = "crate::derive::skip_hash")]
    pub b: u64,
    #[deser(alias = "other-key", default, skip_serializing_if = "crate::derive::skip_hash")]
    pub index: i32,
    pub value: S6,
    #[deser(rename = "renamed7")]
    pub foo: bool,
}
fn lit_S7() -> S7 { S7 { b: 78, index: 2, value: lit_S6(), foo: false } }
impl Strukt for S7 {
    fn lit() -> Self { lit_S7() }
    fn known(k: &str) -> bool { match k { "B" => true, "alias7" => true, "INDEX" => true, "other-key" => true, "VALUE" => true, "renamed7" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["B", "alias7", "INDEX", "other-key", "VALUE", "renamed7"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "B" => <u64 as Model>::gen(r, d), "alias7" => <u64 as Model>::gen(r, d), "INDEX" => <i32 as Model>::gen(r, d), "other-key" => <i32 as Model>::gen(r, d), "VALUE" => <S6 as Model>::gen(r, d), "renamed7" => <bool as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u64> = None;
        let mut v1: Option<i32> = None;
        let mut v2: Option<S6> = None;
        let mut v3: Option<bool> = None;
        for (k, v) in e {
            match k.as_str() {
                "B" | "alias7" => match <u64 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "INDEX" | "other-key" => match <i32 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "VALUE" => match <S6 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "renamed7" => match <bool as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("B"); }
        let v1 = Some(v1.unwrap_or_default());
        if v2.is_none() && !m.bad { m.names.push("VALUE"); }
        if v3.is_none() && !m.bad { m.names.push("renamed7"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S7 { b: v0.unwrap(), index: v1.unwrap(), value: v2.unwrap(), foo: v3.unwrap() })
    }
}
strukt_model!(S7);
impl ToTree for S7 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.b) { o.push(("B".to_string(), self.b.tree())); }
        if !crate::derive::skip_hash(&self.index) { o.push(("INDEX".to_string(), self.index.tree())); }
        { o.push(("VALUE".to_string(), self.value.tree())); }
        { o.push(("renamed7".to_string(), self.foo.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "UPPERCASE")]
pub struct S8 {
    #[deser(alias = "b8", default)]
    pub b: [u8; 2],
}
fn lit_S8() -> S8 { S8 { b: [3, 4] } }
impl Strukt for S8 {
    fn lit() -> Self { lit_S8() }
    fn known(k: &str) -> bool { match k { "B" => true, "b8" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["B", "b8"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "B" => <[u8; 2] as Model>::gen(r, d), "b8" => <[u8; 2] as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<[u8; 2]> = None;
        for (k, v) in e {
            match k.as_str() {
                "B" | "b8" => match <[u8; 2] as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S8 { b: v0.unwrap() })
    }
}
strukt_model!(S8);
impl ToTree for S8 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("B".to_string(), self.b.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S9 {
    #[deser(flatten)]
    pub flat_a: S0,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub foo: Vec<S2>,
}
fn lit_S9() -> S9 { S9 { flat_a: lit_S0(), foo: vec![lit_S2()] } }
impl Strukt for S9 {
    fn lit() -> Self { lit_S9() }
    fn known(k: &str) -> bool { match k { "FOO" => true,  _ => <S0 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["FOO"]; v.extend(<S0 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "FOO" => <Vec<S2> as Model>::gen(r, d),  _ => { if <S0 as Strukt>::known(k) { return <S0 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<Vec<S2>> = None;
        for (k, v) in e {
            match k.as_str() {
                "FOO" => match <Vec<S2> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                x if <S0 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S0 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("FOO"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S9 { flat_a: v0.unwrap(), foo: v1.unwrap() })
    }
}
strukt_model!(S9);
impl ToTree for S9 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !crate::derive::skip_hash(&self.foo) { o.push(("FOO".to_string(), self.foo.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(default)]
pub struct S10 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub c: Box<WrapPlain>,
    #[deser(default = "dflt_S10_name")]
    pub name: char,
    #[deser(default = "dflt_S10_slot")]
    pub slot: Vec<u16>,
    #[deser(default = "dflt_S10_state")]
    pub state: Option<String>,
    pub index: [u8; 2],
    #[deser(alias = "a", alias = "other-key", default = "dflt_S10_type")]
    pub r#type: Option<S6>,
}
fn dflt_S10_name() -> char { 'd' }
fn dflt_S10_slot() -> Vec<u16> { vec![300] }
fn dflt_S10_state() -> Option<String> { None }
fn dflt_S10_type() -> Option<S6> { Some(lit_S6()) }
fn lit_S10() -> S10 { S10 { c: Box::new(WrapPlain(lit_Plain())), name: 'l', slot: vec![], state: Some(String::new()), index: [3, 4], r#type: Some(lit_S6()) } }
impl Default for S10 { fn default() -> Self { lit_S10() } }
impl Strukt for S10 {
    fn lit() -> Self { lit_S10() }
    fn known(k: &str) -> bool { match k { "C" => true, "Name" => true, "Slot" => true, "State" => true, "Index" => true, "Type" => true, "a" => true, "other-key" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["C", "Name", "Slot", "State", "Index", "Type", "a", "other-key"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "C" => <Box<WrapPlain> as Model>::gen(r, d), "Name" => <char as Model>::gen(r, d), "Slot" => <Vec<u16> as Model>::gen(r, d), "State" => <Option<String> as Model>::gen(r, d), "Index" => <[u8; 2] as Model>::gen(r, d), "Type" => <Option<S6> as Model>::gen(r, d), "a" => <Option<S6> as Model>::gen(r, d), "other-key" => <Option<S6> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<WrapPlain>> = None;
        let mut v1: Option<char> = None;
        let mut v2: Option<Vec<u16>> = None;
        let mut v3: Option<Option<String>> = None;
        let mut v4: Option<[u8; 2]> = None;
        let mut v5: Option<Option<S6>> = None;
        for (k, v) in e {
            match k.as_str() {
                "C" => match <Box<WrapPlain> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "Name" => match <char as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "Slot" => match <Vec<u16> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "State" => match <Option<String> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "Index" => match <[u8; 2] as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "Type" | "a" | "other-key" => match <Option<S6> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(WrapPlain(lit_Plain()))));
        let v1 = Some(v1.unwrap_or_else(|| 'd'));
        let v2 = Some(v2.unwrap_or_else(|| vec![300]));
        let v3 = Some(v3.unwrap_or_else(|| None));
        let v4 = Some(v4.unwrap_or_else(|| [3, 4]));
        let v5 = Some(v5.unwrap_or_else(|| Some(lit_S6())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S10 { c: v0.unwrap(), name: v1.unwrap(), slot: v2.unwrap(), state: v3.unwrap(), index: v4.unwrap(), r#type: v5.unwrap() })
    }
}
strukt_model!(S10);
impl ToTree for S10 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.c) { o.push(("C".to_string(), self.c.tree())); }
        { o.push(("Name".to_string(), self.name.tree())); }
        { o.push(("Slot".to_string(), self.slot.tree())); }
        { o.push(("State".to_string(), self.state.tree())); }
        { o.push(("Index".to_string(), self.index.tree())); }
        { o.push(("Type".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename = "Renamed11")]
#[deser(skip_serializing_optionals)]
pub struct S11 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub long_name_here: Vec<u8>,
    #[deser(alias = "fooBar", default = "dflt_S11_key")]
    pub key: S2,
}
fn dflt_S11_key() -> S2 { lit_S2() }
fn lit_S11() -> S11 { S11 { long_name_here: vec![3], key: lit_S2() } }
impl Strukt for S11 {
    fn lit() -> Self { lit_S11() }
    fn known(k: &str) -> bool { match k { "long_name_here" => true, "key" => true, "fooBar" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["long_name_here", "key", "fooBar"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "long_name_here" => <Vec<u8> as Model>::gen(r, d), "key" => <S2 as Model>::gen(r, d), "fooBar" => <S2 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Vec<u8>> = None;
        let mut v1: Option<S2> = None;
        for (k, v) in e {
            match k.as_str() {
                "long_name_here" => match <Vec<u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "key" | "fooBar" => match <S2 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("long_name_here"); }
        let v1 = Some(v1.unwrap_or_else(|| lit_S2()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S11 { long_name_here: v0.unwrap(), key: v1.unwrap() })
    }
}
strukt_model!(S11);
impl ToTree for S11 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.long_name_here) && !self.long_name_here.absent() { o.push(("long_name_here".to_string(), self.long_name_here.tree())); }
        if !self.key.absent() { o.push(("key".to_string(), self.key.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename = "Renamed12")]
pub struct S12 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub y_2: BTreeMap<String, u8>,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub a: Box<u8>,
}
fn lit_S12() -> S12 { S12 { y_2: BTreeMap::from([("k".to_string(), 3)]), a: Box::new(4) } }
impl Strukt for S12 {
    fn lit() -> Self { lit_S12() }
    fn known(k: &str) -> bool { match k { "y_2" => true, "a" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["y_2", "a"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "y_2" => <BTreeMap<String, u8> as Model>::gen(r, d), "a" => <Box<u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<BTreeMap<String, u8>> = None;
        let mut v1: Option<Box<u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "y_2" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "a" => match <Box<u8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("y_2"); }
        if v1.is_none() && !m.bad { m.names.push("a"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S12 { y_2: v0.unwrap(), a: v1.unwrap() })
    }
}
strukt_model!(S12);
impl ToTree for S12 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.y_2) { o.push(("y_2".to_string(), self.y_2.tree())); }
        if !crate::derive::skip_hash(&self.a) { o.push(("a".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
#[deser(rename = "Renamed13")]
pub struct S13 {
    #[deser(alias = "b13", alias = "ALIAS")]
    pub name: [u8; 2],
    #[deser(flatten)]
    pub flat_a: S12,
    pub data: Option<S0>,
}
fn lit_S13() -> S13 { S13 { name: [3, 4], flat_a: lit_S12(), data: Some(lit_S0()) } }
impl Strukt for S13 {
    fn lit() -> Self { lit_S13() }
    fn known(k: &str) -> bool { match k { "NAME" => true, "b13" => true, "ALIAS" => true, "DATA" => true,  _ => <S12 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["NAME", "b13", "ALIAS", "DATA"]; v.extend(<S12 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "NAME" => <[u8; 2] as Model>::gen(r, d), "b13" => <[u8; 2] as Model>::gen(r, d), "ALIAS" => <[u8; 2] as Model>::gen(r, d), "DATA" => <Option<S0> as Model>::gen(r, d),  _ => { if <S12 as Strukt>::known(k) { return <S12 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<[u8; 2]> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Option<Option<S0>> = None;
        for (k, v) in e {
            match k.as_str() {
                "NAME" | "b13" | "ALIAS" => match <[u8; 2] as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "DATA" => match <Option<S0> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                x if <S12 as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("NAME"); }
        let v1 = m.sub(<S12 as Strukt>::build(&v1));
        let v2 = Some(v2.unwrap_or(None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S13 { name: v0.unwrap(), flat_a: v1.unwrap(), data: v2.unwrap() })
    }
}
strukt_model!(S13);
impl ToTree for S13 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("NAME".to_string(), self.name.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("DATA".to_string(), self.data.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(skip_serializing_optionals)]
pub struct S14 {
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub foo_bar: i32,
    pub state: Option<WrapPlain>,
}
fn lit_S14() -> S14 { S14 { foo_bar: 2, state: Some(WrapPlain(lit_Plain())) } }
impl Strukt for S14 {
    fn lit() -> Self { lit_S14() }
    fn known(k: &str) -> bool { match k { "foo_bar" => true, "state" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["foo_bar", "state"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "foo_bar" => <i32 as Model>::gen(r, d), "state" => <Option<WrapPlain> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<i32> = None;
        let mut v1: Option<Option<WrapPlain>> = None;
        for (k, v) in e {
            match k.as_str() {
                "foo_bar" => match <i32 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "state" => match <Option<WrapPlain> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        let v1 = Some(v1.unwrap_or(None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S14 { foo_bar: v0.unwrap(), state: v1.unwrap() })
    }
}
strukt_model!(S14);
impl ToTree for S14 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.foo_bar) && !self.foo_bar.absent() { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        if !self.state.absent() { o.push(("state".to_string(), self.state.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
#[deser(default)]
#[deser(skip_serializing_optionals)]
pub struct S15 {
    #[deser(rename = "type15", alias = "type", skip_serializing_if = "crate::derive::skip_hash")]
    pub foo_bar: i32,
    pub a: S1,
}
fn lit_S15() -> S15 { S15 { foo_bar: 2, a: lit_S1() } }
impl Default for S15 { fn default() -> Self { lit_S15() } }
impl Strukt for S15 {
    fn lit() -> Self { lit_S15() }
    fn known(k: &str) -> bool { match k { "type15" => true, "type" => true, "A" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["type15", "type", "A"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "type15" => <i32 as Model>::gen(r, d), "type" => <i32 as Model>::gen(r, d), "A" => <S1 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<i32> = None;
        let mut v1: Option<S1> = None;
        for (k, v) in e {
            match k.as_str() {
                "type15" | "type" => match <i32 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "A" => match <S1 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| 2));
        let v1 = Some(v1.unwrap_or_else(|| lit_S1()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S15 { foo_bar: v0.unwrap(), a: v1.unwrap() })
    }
}
strukt_model!(S15);
impl ToTree for S15 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.foo_bar) && !self.foo_bar.absent() { o.push(("type15".to_string(), self.foo_bar.tree())); }
        if !self.a.absent() { o.push(("A".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct S16 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub slot: Box<S5>,
    #[deser(rename = "renamed16")]
    pub x1: Box<S11>,
    #[deser(default = "dflt_S16_name")]
    pub name: Box<S5>,
}
fn dflt_S16_name() -> Box<S5> { Box::new(lit_S5()) }
fn lit_S16() -> S16 { S16 { slot: Box::new(lit_S5()), x1: Box::new(lit_S11()), name: Box::new(lit_S5()) } }
impl Strukt for S16 {
    fn lit() -> Self { lit_S16() }
    fn known(k: &str) -> bool { match k { "slot" => true, "renamed16" => true, "name" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["slot", "renamed16", "name"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "slot" => <Box<S5> as Model>::gen(r, d), "renamed16" => <Box<S11> as Model>::gen(r, d), "name" => <Box<S5> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S5>> = None;
        let mut v1: Option<Box<S11>> = None;
        let mut v2: Option<Box<S5>> = None;
        for (k, v) in e {
            match k.as_str() {
                "slot" => match <Box<S5> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "renamed16" => match <Box<S11> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "name" => match <Box<S5> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("slot"); }
        if v1.is_none() && !m.bad { m.names.push("renamed16"); }
        let v2 = Some(v2.unwrap_or_else(|| Box::new(lit_S5())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S16 { slot: v0.unwrap(), x1: v1.unwrap(), name: v2.unwrap() })
    }
}
strukt_model!(S16);
impl ToTree for S16 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.slot) { o.push(("slot".to_string(), self.slot.tree())); }
        { o.push(("renamed16".to_string(), self.x1.tree())); }
        { o.push(("name".to_string(), self.name.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
#[deser(default)]
pub struct S17 {
    #[deser(rename = "with space17", default = "dflt_S17_long_name_here")]
    pub long_name_here: bool,
    #[deser(alias = "a", skip_serializing_if = "crate::derive::skip_hash")]
    pub slot: BTreeMap<String, u8>,
    #[deser(rename = "ä17", default = "dflt_S17_name", skip_serializing_if = "crate::derive::skip_hash")]
    pub name: Option<String>,
}
fn dflt_S17_long_name_here() -> bool { true }
fn dflt_S17_name() -> Option<String> { None }
fn lit_S17() -> S17 { S17 { long_name_here: false, slot: BTreeMap::from([("k".to_string(), 3)]), name: Some(String::new()) } }
impl Default for S17 { fn default() -> Self { lit_S17() } }
impl Strukt for S17 {
    fn lit() -> Self { lit_S17() }
    fn known(k: &str) -> bool { match k { "with space17" => true, "slot" => true, "a" => true, "ä17" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["with space17", "slot", "a", "ä17"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "with space17" => <bool as Model>::gen(r, d), "slot" => <BTreeMap<String, u8> as Model>::gen(r, d), "a" => <BTreeMap<String, u8> as Model>::gen(r, d), "ä17" => <Option<String> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<bool> = None;
        let mut v1: Option<BTreeMap<String, u8>> = None;
        let mut v2: Option<Option<String>> = None;
        for (k, v) in e {
            match k.as_str() {
                "with space17" => match <bool as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "slot" | "a" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "ä17" => match <Option<String> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| true));
        let v1 = Some(v1.unwrap_or_else(|| BTreeMap::from([("k".to_string(), 3)])));
        let v2 = Some(v2.unwrap_or_else(|| None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S17 { long_name_here: v0.unwrap(), slot: v1.unwrap(), name: v2.unwrap() })
    }
}
strukt_model!(S17);
impl ToTree for S17 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("with space17".to_string(), self.long_name_here.tree())); }
        if !crate::derive::skip_hash(&self.slot) { o.push(("slot".to_string(), self.slot.tree())); }
        if !crate::derive::skip_hash(&self.name) { o.push(("ä17".to_string(), self.name.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(rename = "Renamed18")]
pub struct S18 {
    #[deser(rename = "Ren-amed18", alias = "type18", alias = "alias18", default = "dflt_S18_value", skip_serializing_if = "crate::derive::skip_hash")]
    pub value: Vec<u16>,
    #[deser(flatten)]
    pub flat_a: S10,
    #[deser(default = "dflt_S18_foo")]
    pub foo: u64,
    #[deser(rename = "with space18", alias = "ALIAS")]
    pub bar: WrapPlain,
    #[deser(alias = "b18")]
    pub state: (u8, bool),
}
fn dflt_S18_value() -> Vec<u16> { vec![300] }
fn dflt_S18_foo() -> u64 { 77 }
fn lit_S18() -> S18 { S18 { value: vec![], flat_a: lit_S10(), foo: 78, bar: WrapPlain(lit_Plain()), state: (5, false) } }
impl Strukt for S18 {
    fn lit() -> Self { lit_S18() }
    fn known(k: &str) -> bool { match k { "Ren-amed18" => true, "type18" => true, "alias18" => true, "FOO" => true, "with space18" => true, "ALIAS" => true, "STATE" => true, "b18" => true,  _ => <S10 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Ren-amed18", "type18", "alias18", "FOO", "with space18", "ALIAS", "STATE", "b18"]; v.extend(<S10 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Ren-amed18" => <Vec<u16> as Model>::gen(r, d), "type18" => <Vec<u16> as Model>::gen(r, d), "alias18" => <Vec<u16> as Model>::gen(r, d), "FOO" => <u64 as Model>::gen(r, d), "with space18" => <WrapPlain as Model>::gen(r, d), "ALIAS" => <WrapPlain as Model>::gen(r, d), "STATE" => <(u8, bool) as Model>::gen(r, d), "b18" => <(u8, bool) as Model>::gen(r, d),  _ => { if <S10 as Strukt>::known(k) { return <S10 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Vec<u16>> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Option<u64> = None;
        let mut v3: Option<WrapPlain> = None;
        let mut v4: Option<(u8, bool)> = None;
        for (k, v) in e {
            match k.as_str() {
                "Ren-amed18" | "type18" | "alias18" => match <Vec<u16> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "FOO" => match <u64 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "with space18" | "ALIAS" => match <WrapPlain as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "STATE" | "b18" => match <(u8, bool) as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S10 as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| vec![300]));
        let v1 = m.sub(<S10 as Strukt>::build(&v1));
        let v2 = Some(v2.unwrap_or_else(|| 77));
        if v3.is_none() && !m.bad { m.names.push("with space18"); }
        if v4.is_none() && !m.bad { m.names.push("STATE"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S18 { value: v0.unwrap(), flat_a: v1.unwrap(), foo: v2.unwrap(), bar: v3.unwrap(), state: v4.unwrap() })
    }
}
strukt_model!(S18);
impl ToTree for S18 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.value) { o.push(("Ren-amed18".to_string(), self.value.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("FOO".to_string(), self.foo.tree())); }
        { o.push(("with space18".to_string(), self.bar.tree())); }
        { o.push(("STATE".to_string(), self.state.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
#[deser(rename = "Renamed19")]
#[deser(skip_serializing_optionals)]
pub struct S19 {
    #[deser(alias = "foo19", alias = "a19")]
    pub state: Vec<S12>,
    #[deser(default = "dflt_S19_f0")]
    pub f0: Box<S5>,
    pub b: S18,
    pub value: Vec<S9>,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub slot: u64,
    #[deser(flatten)]
    pub flat_a: S2,
    #[deser(flatten)]
    pub flat_b: S7,
}
fn dflt_S19_f0() -> Box<S5> { Box::new(lit_S5()) }
fn lit_S19() -> S19 { S19 { state: vec![lit_S12()], f0: Box::new(lit_S5()), b: lit_S18(), value: vec![lit_S9()], slot: 78, flat_a: lit_S2(), flat_b: lit_S7() } }
impl Strukt for S19 {
    fn lit() -> Self { lit_S19() }
    fn known(k: &str) -> bool { match k { "state" => true, "foo19" => true, "a19" => true, "f0" => true, "b" => true, "value" => true, "slot" => true,  _ => <S2 as Strukt>::known(k) || <S7 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["state", "foo19", "a19", "f0", "b", "value", "slot"]; v.extend(<S2 as Strukt>::keys()); v.extend(<S7 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "state" => <Vec<S12> as Model>::gen(r, d), "foo19" => <Vec<S12> as Model>::gen(r, d), "a19" => <Vec<S12> as Model>::gen(r, d), "f0" => <Box<S5> as Model>::gen(r, d), "b" => <S18 as Model>::gen(r, d), "value" => <Vec<S9> as Model>::gen(r, d), "slot" => <u64 as Model>::gen(r, d),  _ => { if <S2 as Strukt>::known(k) { return <S2 as Strukt>::gen_value(k, r, d); } if <S7 as Strukt>::known(k) { return <S7 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Vec<S12>> = None;
        let mut v1: Option<Box<S5>> = None;
        let mut v2: Option<S18> = None;
        let mut v3: Option<Vec<S9>> = None;
        let mut v4: Option<u64> = None;
        let mut v5: Vec<(String, Tree)> = vec![];
        let mut v6: Vec<(String, Tree)> = vec![];
        for (k, v) in e {
            match k.as_str() {
                "state" | "foo19" | "a19" => match <Vec<S12> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "f0" => match <Box<S5> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "b" => match <S18 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "value" => match <Vec<S9> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "slot" => match <u64 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S2 as Strukt>::known(x) => v5.push((k.clone(), v.clone())),
                x if <S7 as Strukt>::known(x) => v6.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("state"); }
        let v1 = Some(v1.unwrap_or_else(|| Box::new(lit_S5())));
        if v2.is_none() && !m.bad { m.names.push("b"); }
        if v3.is_none() && !m.bad { m.names.push("value"); }
        if v4.is_none() && !m.bad { m.names.push("slot"); }
        let v5 = m.sub(<S2 as Strukt>::build(&v5));
        let v6 = m.sub(<S7 as Strukt>::build(&v6));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S19 { state: v0.unwrap(), f0: v1.unwrap(), b: v2.unwrap(), value: v3.unwrap(), slot: v4.unwrap(), flat_a: v5.unwrap(), flat_b: v6.unwrap() })
    }
}
strukt_model!(S19);
impl ToTree for S19 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.state.absent() { o.push(("state".to_string(), self.state.tree())); }
        if !self.f0.absent() { o.push(("f0".to_string(), self.f0.tree())); }
        if !self.b.absent() { o.push(("b".to_string(), self.b.tree())); }
        if !self.value.absent() { o.push(("value".to_string(), self.value.tree())); }
        if !crate::derive::skip_hash(&self.slot) && !self.slot.absent() { o.push(("slot".to_string(), self.slot.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { crate::derive::splice(&mut o, self.flat_b.tree()); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S20 {
    #[deser(alias = "type20", alias = "ALIAS")]
    pub a: BTreeMap<String, u8>,
}
fn lit_S20() -> S20 { S20 { a: BTreeMap::from([("k".to_string(), 3)]) } }
impl Strukt for S20 {
    fn lit() -> Self { lit_S20() }
    fn known(k: &str) -> bool { match k { "A" => true, "type20" => true, "ALIAS" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["A", "type20", "ALIAS"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "A" => <BTreeMap<String, u8> as Model>::gen(r, d), "type20" => <BTreeMap<String, u8> as Model>::gen(r, d), "ALIAS" => <BTreeMap<String, u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<BTreeMap<String, u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "A" | "type20" | "ALIAS" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("A"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S20 { a: v0.unwrap() })
    }
}
strukt_model!(S20);
impl ToTree for S20 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("A".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "UPPERCASE")]
#[deser(skip_serializing_optionals)]
pub struct S21 {
    #[deser(rename = "a.b21", default, skip_serializing_if = "crate::derive::skip_hash")]
    pub c: char,
    #[deser(alias = "type21", skip_serializing_if = "crate::derive::skip_hash")]
    pub long_name_here: Box<S9>,
    pub x1: (),
    #[deser(flatten)]
    pub flat_b: S6,
    pub foo_bar: (u8, bool),
    pub slot: u8,
    #[deser(flatten)]
    pub flat_a: S3,
}
fn lit_S21() -> S21 { S21 { c: 'l', long_name_here: Box::new(lit_S9()), x1: (), flat_b: lit_S6(), foo_bar: (5, false), slot: 1, flat_a: lit_S3() } }
impl Strukt for S21 {
    fn lit() -> Self { lit_S21() }
    fn known(k: &str) -> bool { match k { "a.b21" => true, "LONG_NAME_HERE" => true, "type21" => true, "X1" => true, "FOO_BAR" => true, "SLOT" => true,  _ => <S6 as Strukt>::known(k) || <S3 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["a.b21", "LONG_NAME_HERE", "type21", "X1", "FOO_BAR", "SLOT"]; v.extend(<S6 as Strukt>::keys()); v.extend(<S3 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "a.b21" => <char as Model>::gen(r, d), "LONG_NAME_HERE" => <Box<S9> as Model>::gen(r, d), "type21" => <Box<S9> as Model>::gen(r, d), "X1" => <() as Model>::gen(r, d), "FOO_BAR" => <(u8, bool) as Model>::gen(r, d), "SLOT" => <u8 as Model>::gen(r, d),  _ => { if <S6 as Strukt>::known(k) { return <S6 as Strukt>::gen_value(k, r, d); } if <S3 as Strukt>::known(k) { return <S3 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<char> = None;
        let mut v1: Option<Box<S9>> = None;
        let mut v2: Option<()> = None;
        let mut v3: Vec<(String, Tree)> = vec![];
        let mut v4: Option<(u8, bool)> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Vec<(String, Tree)> = vec![];
        for (k, v) in e {
            match k.as_str() {
                "a.b21" => match <char as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "LONG_NAME_HERE" | "type21" => match <Box<S9> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "X1" => match <() as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "FOO_BAR" => match <(u8, bool) as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "SLOT" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                x if <S6 as Strukt>::known(x) => v3.push((k.clone(), v.clone())),
                x if <S3 as Strukt>::known(x) => v6.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        if v1.is_none() && !m.bad { m.names.push("LONG_NAME_HERE"); }
        if v2.is_none() && !m.bad { m.names.push("X1"); }
        let v3 = m.sub(<S6 as Strukt>::build(&v3));
        if v4.is_none() && !m.bad { m.names.push("FOO_BAR"); }
        if v5.is_none() && !m.bad { m.names.push("SLOT"); }
        let v6 = m.sub(<S3 as Strukt>::build(&v6));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S21 { c: v0.unwrap(), long_name_here: v1.unwrap(), x1: v2.unwrap(), flat_b: v3.unwrap(), foo_bar: v4.unwrap(), slot: v5.unwrap(), flat_a: v6.unwrap() })
    }
}
strukt_model!(S21);
impl ToTree for S21 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.c) && !self.c.absent() { o.push(("a.b21".to_string(), self.c.tree())); }
        if !crate::derive::skip_hash(&self.long_name_here) && !self.long_name_here.absent() { o.push(("LONG_NAME_HERE".to_string(), self.long_name_here.tree())); }
        if !self.x1.absent() { o.push(("X1".to_string(), self.x1.tree())); }
        { crate::derive::splice(&mut o, self.flat_b.tree()); }
        if !self.foo_bar.absent() { o.push(("FOO_BAR".to_string(), self.foo_bar.tree())); }
        if !self.slot.absent() { o.push(("SLOT".to_string(), self.slot.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(default)]
pub struct S22 {
    #[deser(default = "dflt_S22_type")]
    pub r#type: u8,
}
fn dflt_S22_type() -> u8 { 7 }
fn lit_S22() -> S22 { S22 { r#type: 1 } }
impl Default for S22 { fn default() -> Self { lit_S22() } }
impl Strukt for S22 {
    fn lit() -> Self { lit_S22() }
    fn known(k: &str) -> bool { match k { "TYPE" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["TYPE"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "TYPE" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "TYPE" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| 7));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S22 { r#type: v0.unwrap() })
    }
}
strukt_model!(S22);
impl ToTree for S22 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("TYPE".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(rename = "Renamed23")]
pub struct S23 {
    pub index: (u8, bool),
}
fn lit_S23() -> S23 { S23 { index: (5, false) } }
impl Strukt for S23 {
    fn lit() -> Self { lit_S23() }
    fn known(k: &str) -> bool { match k { "Index" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Index"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Index" => <(u8, bool) as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<(u8, bool)> = None;
        for (k, v) in e {
            match k.as_str() {
                "Index" => match <(u8, bool) as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("Index"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S23 { index: v0.unwrap() })
    }
}
strukt_model!(S23);
impl ToTree for S23 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("Index".to_string(), self.index.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(skip_serializing_optionals)]
pub struct S24 {
    #[deser(rename = "ä24", alias = "fooBar", alias = "fooBar24", skip_serializing_if = "crate::derive::skip_hash")]
    pub c: (),
    #[deser(flatten)]
    pub flat_a: S3,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub data: BTreeMap<String, u8>,
}
fn lit_S24() -> S24 { S24 { c: (), flat_a: lit_S3(), data: BTreeMap::from([("k".to_string(), 3)]) } }
impl Strukt for S24 {
    fn lit() -> Self { lit_S24() }
    fn known(k: &str) -> bool { match k { "ä24" => true, "fooBar" => true, "fooBar24" => true, "DATA" => true,  _ => <S3 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["ä24", "fooBar", "fooBar24", "DATA"]; v.extend(<S3 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "ä24" => <() as Model>::gen(r, d), "fooBar" => <() as Model>::gen(r, d), "fooBar24" => <() as Model>::gen(r, d), "DATA" => <BTreeMap<String, u8> as Model>::gen(r, d),  _ => { if <S3 as Strukt>::known(k) { return <S3 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<()> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Option<BTreeMap<String, u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "ä24" | "fooBar" | "fooBar24" => match <() as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "DATA" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                x if <S3 as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("ä24"); }
        let v1 = m.sub(<S3 as Strukt>::build(&v1));
        if v2.is_none() && !m.bad { m.names.push("DATA"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S24 { c: v0.unwrap(), flat_a: v1.unwrap(), data: v2.unwrap() })
    }
}
strukt_model!(S24);
impl ToTree for S24 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.c) && !self.c.absent() { o.push(("ä24".to_string(), self.c.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !crate::derive::skip_hash(&self.data) && !self.data.absent() { o.push(("DATA".to_string(), self.data.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
#[deser(default)]
#[deser(skip_serializing_optionals)]
pub struct S25 {
    #[deser(rename = "Ren-amed25")]
    pub value: i32,
    #[deser(default)]
    pub foo_bar: Option<u8>,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub name: u8,
}
fn lit_S25() -> S25 { S25 { value: 2, foo_bar: None, name: 1 } }
impl Default for S25 { fn default() -> Self { lit_S25() } }
impl Strukt for S25 {
    fn lit() -> Self { lit_S25() }
    fn known(k: &str) -> bool { match k { "Ren-amed25" => true, "foo_bar" => true, "name" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Ren-amed25", "foo_bar", "name"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Ren-amed25" => <i32 as Model>::gen(r, d), "foo_bar" => <Option<u8> as Model>::gen(r, d), "name" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<i32> = None;
        let mut v1: Option<Option<u8>> = None;
        let mut v2: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "Ren-amed25" => match <i32 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <Option<u8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "name" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| 2));
        let v1 = Some(v1.unwrap_or_default());
        let v2 = Some(v2.unwrap_or_else(|| 1));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S25 { value: v0.unwrap(), foo_bar: v1.unwrap(), name: v2.unwrap() })
    }
}
strukt_model!(S25);
impl ToTree for S25 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.value.absent() { o.push(("Ren-amed25".to_string(), self.value.tree())); }
        if !self.foo_bar.absent() { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        if !crate::derive::skip_hash(&self.name) && !self.name.absent() { o.push(("name".to_string(), self.name.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(default)]
pub struct S26 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub index: bool,
}
fn lit_S26() -> S26 { S26 { index: false } }
impl Default for S26 { fn default() -> Self { lit_S26() } }
impl Strukt for S26 {
    fn lit() -> Self { lit_S26() }
    fn known(k: &str) -> bool { match k { "INDEX" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["INDEX"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "INDEX" => <bool as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<bool> = None;
        for (k, v) in e {
            match k.as_str() {
                "INDEX" => match <bool as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| false));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S26 { index: v0.unwrap() })
    }
}
strukt_model!(S26);
impl ToTree for S26 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.index) { o.push(("INDEX".to_string(), self.index.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
#[deser(skip_serializing_optionals)]
pub struct S27 {
    #[deser(alias = "fooBar27")]
    pub b: Box<S22>,
    #[deser(alias = "a", alias = "b")]
    pub state: [u8; 2],
    #[deser(alias = "other-key")]
    pub key: Option<S13>,
    #[deser(default = "dflt_S27_name")]
    pub name: Vec<u16>,
    #[deser(flatten, skip_serializing_if = "crate::derive::skip_hash")]
    pub flat_a: S11,
    pub long_name_here: u8,
    pub value: E7,
    #[deser(alias = "ALIAS", default = "dflt_S27_type", skip_serializing_if = "crate::derive::skip_hash")]
    pub r#type: Option<String>,
    pub c: Vec<S2>,
}
fn dflt_S27_name() -> Vec<u16> { vec![300] }
fn dflt_S27_type() -> Option<String> { None }
fn lit_S27() -> S27 { S27 { b: Box::new(lit_S22()), state: [3, 4], key: Some(lit_S13()), name: vec![], flat_a: lit_S11(), long_name_here: 1, value: E7::Two, r#type: Some(String::new()), c: vec![lit_S2()] } }
impl Strukt for S27 {
    fn lit() -> Self { lit_S27() }
    fn known(k: &str) -> bool { match k { "B" => true, "fooBar27" => true, "STATE" => true, "a" => true, "b" => true, "KEY" => true, "other-key" => true, "NAME" => true, "LONG_NAME_HERE" => true, "VALUE" => true, "TYPE" => true, "ALIAS" => true, "C" => true,  _ => <S11 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["B", "fooBar27", "STATE", "a", "b", "KEY", "other-key", "NAME", "LONG_NAME_HERE", "VALUE", "TYPE", "ALIAS", "C"]; v.extend(<S11 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "B" => <Box<S22> as Model>::gen(r, d), "fooBar27" => <Box<S22> as Model>::gen(r, d), "STATE" => <[u8; 2] as Model>::gen(r, d), "a" => <[u8; 2] as Model>::gen(r, d), "b" => <[u8; 2] as Model>::gen(r, d), "KEY" => <Option<S13> as Model>::gen(r, d), "other-key" => <Option<S13> as Model>::gen(r, d), "NAME" => <Vec<u16> as Model>::gen(r, d), "LONG_NAME_HERE" => <u8 as Model>::gen(r, d), "VALUE" => <E7 as Model>::gen(r, d), "TYPE" => <Option<String> as Model>::gen(r, d), "ALIAS" => <Option<String> as Model>::gen(r, d), "C" => <Vec<S2> as Model>::gen(r, d),  _ => { if <S11 as Strukt>::known(k) { return <S11 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S22>> = None;
        let mut v1: Option<[u8; 2]> = None;
        let mut v2: Option<Option<S13>> = None;
        let mut v3: Option<Vec<u16>> = None;
        let mut v4: Vec<(String, Tree)> = vec![];
        let mut v5: Option<u8> = None;
        let mut v6: Option<E7> = None;
        let mut v7: Option<Option<String>> = None;
        let mut v8: Option<Vec<S2>> = None;
        for (k, v) in e {
            match k.as_str() {
                "B" | "fooBar27" => match <Box<S22> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "STATE" | "a" | "b" => match <[u8; 2] as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "KEY" | "other-key" => match <Option<S13> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "NAME" => match <Vec<u16> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "LONG_NAME_HERE" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "VALUE" => match <E7 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "TYPE" | "ALIAS" => match <Option<String> as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "C" => match <Vec<S2> as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                x if <S11 as Strukt>::known(x) => v4.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("B"); }
        if v1.is_none() && !m.bad { m.names.push("STATE"); }
        let v2 = Some(v2.unwrap_or(None));
        let v3 = Some(v3.unwrap_or_else(|| vec![300]));
        let v4 = m.sub(<S11 as Strukt>::build(&v4));
        if v5.is_none() && !m.bad { m.names.push("LONG_NAME_HERE"); }
        if v6.is_none() && !m.bad { m.names.push("VALUE"); }
        let v7 = Some(v7.unwrap_or_else(|| None));
        if v8.is_none() && !m.bad { m.names.push("C"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S27 { b: v0.unwrap(), state: v1.unwrap(), key: v2.unwrap(), name: v3.unwrap(), flat_a: v4.unwrap(), long_name_here: v5.unwrap(), value: v6.unwrap(), r#type: v7.unwrap(), c: v8.unwrap() })
    }
}
strukt_model!(S27);
impl ToTree for S27 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.b.absent() { o.push(("B".to_string(), self.b.tree())); }
        if !self.state.absent() { o.push(("STATE".to_string(), self.state.tree())); }
        if !self.key.absent() { o.push(("KEY".to_string(), self.key.tree())); }
        if !self.name.absent() { o.push(("NAME".to_string(), self.name.tree())); }
        if !crate::derive::skip_hash(&self.flat_a) { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !self.long_name_here.absent() { o.push(("LONG_NAME_HERE".to_string(), self.long_name_here.tree())); }
        if !self.value.absent() { o.push(("VALUE".to_string(), self.value.tree())); }
        if !crate::derive::skip_hash(&self.r#type) && !self.r#type.absent() { o.push(("TYPE".to_string(), self.r#type.tree())); }
        if !self.c.absent() { o.push(("C".to_string(), self.c.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
#[deser(default = "mk_S28")]
#[deser(skip_serializing_optionals)]
pub struct S28 {
    #[deser(default)]
    pub f0: String,
}
fn lit_S28() -> S28 { S28 { f0: "lit".to_string() } }
fn mk_S28() -> S28 { lit_S28() }
impl Strukt for S28 {
    fn lit() -> Self { lit_S28() }
    fn known(k: &str) -> bool { match k { "f0" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["f0"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "f0" => <String as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<String> = None;
        for (k, v) in e {
            match k.as_str() {
                "f0" => match <String as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S28 { f0: v0.unwrap() })
    }
}
strukt_model!(S28);
impl ToTree for S28 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.f0.absent() { o.push(("f0".to_string(), self.f0.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
pub struct S29 {
    #[deser(alias = "other-key29", default = "dflt_S29_key")]
    pub key: S17,
}
fn dflt_S29_key() -> S17 { lit_S17() }
fn lit_S29() -> S29 { S29 { key: lit_S17() } }
impl Strukt for S29 {
    fn lit() -> Self { lit_S29() }
    fn known(k: &str) -> bool { match k { "Key" => true, "other-key29" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Key", "other-key29"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Key" => <S17 as Model>::gen(r, d), "other-key29" => <S17 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<S17> = None;
        for (k, v) in e {
            match k.as_str() {
                "Key" | "other-key29" => match <S17 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| lit_S17()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S29 { key: v0.unwrap() })
    }
}
strukt_model!(S29);
impl ToTree for S29 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("Key".to_string(), self.key.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(skip_serializing_optionals)]
pub struct S30 {
    #[deser(flatten)]
    pub flat_a: S7,
    pub data: Vec<S16>,
    pub f0: (u8, bool),
    pub foo_bar: String,
    #[deser(rename = "ä30", alias = "foo")]
    pub key: Option<Vec<bool>>,
    #[deser(rename = "renamed30")]
    pub state: Option<Vec<bool>>,
    pub bar: Option<u8>,
    #[deser(alias = "type", default)]
    pub y_2: Vec<u8>,
    #[deser(default = "dflt_S30_long_name_here")]
    pub long_name_here: [u8; 2],
}
fn dflt_S30_long_name_here() -> [u8; 2] { [1, 2] }
fn lit_S30() -> S30 { S30 { flat_a: lit_S7(), data: vec![lit_S16()], f0: (5, false), foo_bar: "lit".to_string(), key: None, state: None, bar: None, y_2: vec![3], long_name_here: [3, 4] } }
impl Strukt for S30 {
    fn lit() -> Self { lit_S30() }
    fn known(k: &str) -> bool { match k { "data" => true, "f0" => true, "foo_bar" => true, "ä30" => true, "foo" => true, "renamed30" => true, "bar" => true, "y_2" => true, "type" => true, "long_name_here" => true,  _ => <S7 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["data", "f0", "foo_bar", "ä30", "foo", "renamed30", "bar", "y_2", "type", "long_name_here"]; v.extend(<S7 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "data" => <Vec<S16> as Model>::gen(r, d), "f0" => <(u8, bool) as Model>::gen(r, d), "foo_bar" => <String as Model>::gen(r, d), "ä30" => <Option<Vec<bool>> as Model>::gen(r, d), "foo" => <Option<Vec<bool>> as Model>::gen(r, d), "renamed30" => <Option<Vec<bool>> as Model>::gen(r, d), "bar" => <Option<u8> as Model>::gen(r, d), "y_2" => <Vec<u8> as Model>::gen(r, d), "type" => <Vec<u8> as Model>::gen(r, d), "long_name_here" => <[u8; 2] as Model>::gen(r, d),  _ => { if <S7 as Strukt>::known(k) { return <S7 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<Vec<S16>> = None;
        let mut v2: Option<(u8, bool)> = None;
        let mut v3: Option<String> = None;
        let mut v4: Option<Option<Vec<bool>>> = None;
        let mut v5: Option<Option<Vec<bool>>> = None;
        let mut v6: Option<Option<u8>> = None;
        let mut v7: Option<Vec<u8>> = None;
        let mut v8: Option<[u8; 2]> = None;
        for (k, v) in e {
            match k.as_str() {
                "data" => match <Vec<S16> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "f0" => match <(u8, bool) as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <String as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "ä30" | "foo" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "renamed30" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "bar" => match <Option<u8> as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "y_2" | "type" => match <Vec<u8> as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "long_name_here" => match <[u8; 2] as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                x if <S7 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S7 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("data"); }
        if v2.is_none() && !m.bad { m.names.push("f0"); }
        if v3.is_none() && !m.bad { m.names.push("foo_bar"); }
        let v4 = Some(v4.unwrap_or(None));
        let v5 = Some(v5.unwrap_or(None));
        let v6 = Some(v6.unwrap_or(None));
        let v7 = Some(v7.unwrap_or_default());
        let v8 = Some(v8.unwrap_or_else(|| [1, 2]));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S30 { flat_a: v0.unwrap(), data: v1.unwrap(), f0: v2.unwrap(), foo_bar: v3.unwrap(), key: v4.unwrap(), state: v5.unwrap(), bar: v6.unwrap(), y_2: v7.unwrap(), long_name_here: v8.unwrap() })
    }
}
strukt_model!(S30);
impl ToTree for S30 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !self.data.absent() { o.push(("data".to_string(), self.data.tree())); }
        if !self.f0.absent() { o.push(("f0".to_string(), self.f0.tree())); }
        if !self.foo_bar.absent() { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        if !self.key.absent() { o.push(("ä30".to_string(), self.key.tree())); }
        if !self.state.absent() { o.push(("renamed30".to_string(), self.state.tree())); }
        if !self.bar.absent() { o.push(("bar".to_string(), self.bar.tree())); }
        if !self.y_2.absent() { o.push(("y_2".to_string(), self.y_2.tree())); }
        if !self.long_name_here.absent() { o.push(("long_name_here".to_string(), self.long_name_here.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(default = "mk_S31")]
pub struct S31 {
    #[deser(alias = "b")]
    pub f0: Box<Plain>,
    pub x1: Box<S8>,
    #[deser(alias = "type", default = "dflt_S31_long_name_here")]
    pub long_name_here: Option<Vec<bool>>,
    #[deser(alias = "other-key", skip_serializing_if = "crate::derive::skip_hash")]
    pub name: String,
    #[deser(alias = "ALIAS")]
    pub sink: (),
    #[deser(default = "dflt_S31_foo_bar", skip_serializing_if = "crate::derive::skip_hash")]
    pub foo_bar: Option<Vec<bool>>,
    #[deser(rename = "131", alias = "foo", alias = "alias31")]
    pub y_2: (u8, bool),
    pub slot: BTreeMap<String, u8>,
}
fn dflt_S31_long_name_here() -> Option<Vec<bool>> { Some(vec![]) }
fn dflt_S31_foo_bar() -> Option<Vec<bool>> { Some(vec![]) }
fn lit_S31() -> S31 { S31 { f0: Box::new(lit_Plain()), x1: Box::new(lit_S8()), long_name_here: None, name: "lit".to_string(), sink: (), foo_bar: None, y_2: (5, false), slot: BTreeMap::from([("k".to_string(), 3)]) } }
fn mk_S31() -> S31 { lit_S31() }
impl Strukt for S31 {
    fn lit() -> Self { lit_S31() }
    fn known(k: &str) -> bool { match k { "F0" => true, "b" => true, "X1" => true, "LongNameHere" => true, "type" => true, "Name" => true, "other-key" => true, "Sink" => true, "ALIAS" => true, "FooBar" => true, "131" => true, "foo" => true, "alias31" => true, "Slot" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["F0", "b", "X1", "LongNameHere", "type", "Name", "other-key", "Sink", "ALIAS", "FooBar", "131", "foo", "alias31", "Slot"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "F0" => <Box<Plain> as Model>::gen(r, d), "b" => <Box<Plain> as Model>::gen(r, d), "X1" => <Box<S8> as Model>::gen(r, d), "LongNameHere" => <Option<Vec<bool>> as Model>::gen(r, d), "type" => <Option<Vec<bool>> as Model>::gen(r, d), "Name" => <String as Model>::gen(r, d), "other-key" => <String as Model>::gen(r, d), "Sink" => <() as Model>::gen(r, d), "ALIAS" => <() as Model>::gen(r, d), "FooBar" => <Option<Vec<bool>> as Model>::gen(r, d), "131" => <(u8, bool) as Model>::gen(r, d), "foo" => <(u8, bool) as Model>::gen(r, d), "alias31" => <(u8, bool) as Model>::gen(r, d), "Slot" => <BTreeMap<String, u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<Plain>> = None;
        let mut v1: Option<Box<S8>> = None;
        let mut v2: Option<Option<Vec<bool>>> = None;
        let mut v3: Option<String> = None;
        let mut v4: Option<()> = None;
        let mut v5: Option<Option<Vec<bool>>> = None;
        let mut v6: Option<(u8, bool)> = None;
        let mut v7: Option<BTreeMap<String, u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "F0" | "b" => match <Box<Plain> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "X1" => match <Box<S8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "LongNameHere" | "type" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "Name" | "other-key" => match <String as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "Sink" | "ALIAS" => match <() as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "FooBar" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "131" | "foo" | "alias31" => match <(u8, bool) as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "Slot" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(lit_Plain())));
        let v1 = Some(v1.unwrap_or_else(|| Box::new(lit_S8())));
        let v2 = Some(v2.unwrap_or_else(|| Some(vec![])));
        let v3 = Some(v3.unwrap_or_else(|| "lit".to_string()));
        let v4 = Some(v4.unwrap_or_else(|| ()));
        let v5 = Some(v5.unwrap_or_else(|| Some(vec![])));
        let v6 = Some(v6.unwrap_or_else(|| (5, false)));
        let v7 = Some(v7.unwrap_or_else(|| BTreeMap::from([("k".to_string(), 3)])));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S31 { f0: v0.unwrap(), x1: v1.unwrap(), long_name_here: v2.unwrap(), name: v3.unwrap(), sink: v4.unwrap(), foo_bar: v5.unwrap(), y_2: v6.unwrap(), slot: v7.unwrap() })
    }
}
strukt_model!(S31);
impl ToTree for S31 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("F0".to_string(), self.f0.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("LongNameHere".to_string(), self.long_name_here.tree())); }
        if !crate::derive::skip_hash(&self.name) { o.push(("Name".to_string(), self.name.tree())); }
        { o.push(("Sink".to_string(), self.sink.tree())); }
        if !crate::derive::skip_hash(&self.foo_bar) { o.push(("FooBar".to_string(), self.foo_bar.tree())); }
        { o.push(("131".to_string(), self.y_2.tree())); }
        { o.push(("Slot".to_string(), self.slot.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
#[deser(default)]
#[deser(skip_serializing_optionals)]
pub struct S32 {
    #[deser(alias = "fooBar32", default = "dflt_S32_long_name_here")]
    pub long_name_here: Color,
    #[deser(alias = "alias32", alias = "a")]
    pub r#type: Vec<S31>,
    #[deser(default = "dflt_S32_foo")]
    pub foo: Vec<S7>,
    pub bar: String,
    #[deser(alias = "foo32", default = "dflt_S32_foo_bar")]
    pub foo_bar: S10,
    #[deser(default = "dflt_S32_name", skip_serializing_if = "crate::derive::skip_hash")]
    pub name: Option<Vec<bool>>,
}
fn dflt_S32_long_name_here() -> Color { Color::Red }
fn dflt_S32_foo() -> Vec<S7> { vec![lit_S7()] }
fn dflt_S32_foo_bar() -> S10 { lit_S10() }
fn dflt_S32_name() -> Option<Vec<bool>> { Some(vec![]) }
fn lit_S32() -> S32 { S32 { long_name_here: Color::Red, r#type: vec![lit_S31()], foo: vec![lit_S7()], bar: "lit".to_string(), foo_bar: lit_S10(), name: None } }
impl Default for S32 { fn default() -> Self { lit_S32() } }
impl Strukt for S32 {
    fn lit() -> Self { lit_S32() }
    fn known(k: &str) -> bool { match k { "longNameHere" => true, "fooBar32" => true, "type" => true, "alias32" => true, "a" => true, "foo" => true, "bar" => true, "fooBar" => true, "foo32" => true, "name" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["longNameHere", "fooBar32", "type", "alias32", "a", "foo", "bar", "fooBar", "foo32", "name"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "longNameHere" => <Color as Model>::gen(r, d), "fooBar32" => <Color as Model>::gen(r, d), "type" => <Vec<S31> as Model>::gen(r, d), "alias32" => <Vec<S31> as Model>::gen(r, d), "a" => <Vec<S31> as Model>::gen(r, d), "foo" => <Vec<S7> as Model>::gen(r, d), "bar" => <String as Model>::gen(r, d), "fooBar" => <S10 as Model>::gen(r, d), "foo32" => <S10 as Model>::gen(r, d), "name" => <Option<Vec<bool>> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Color> = None;
        let mut v1: Option<Vec<S31>> = None;
        let mut v2: Option<Vec<S7>> = None;
        let mut v3: Option<String> = None;
        let mut v4: Option<S10> = None;
        let mut v5: Option<Option<Vec<bool>>> = None;
        for (k, v) in e {
            match k.as_str() {
                "longNameHere" | "fooBar32" => match <Color as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "type" | "alias32" | "a" => match <Vec<S31> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "foo" => match <Vec<S7> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "bar" => match <String as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "fooBar" | "foo32" => match <S10 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "name" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Color::Red));
        let v1 = Some(v1.unwrap_or_else(|| vec![lit_S31()]));
        let v2 = Some(v2.unwrap_or_else(|| vec![lit_S7()]));
        let v3 = Some(v3.unwrap_or_else(|| "lit".to_string()));
        let v4 = Some(v4.unwrap_or_else(|| lit_S10()));
        let v5 = Some(v5.unwrap_or_else(|| Some(vec![])));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S32 { long_name_here: v0.unwrap(), r#type: v1.unwrap(), foo: v2.unwrap(), bar: v3.unwrap(), foo_bar: v4.unwrap(), name: v5.unwrap() })
    }
}
strukt_model!(S32);
impl ToTree for S32 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.long_name_here.absent() { o.push(("longNameHere".to_string(), self.long_name_here.tree())); }
        if !self.r#type.absent() { o.push(("type".to_string(), self.r#type.tree())); }
        if !self.foo.absent() { o.push(("foo".to_string(), self.foo.tree())); }
        if !self.bar.absent() { o.push(("bar".to_string(), self.bar.tree())); }
        if !self.foo_bar.absent() { o.push(("fooBar".to_string(), self.foo_bar.tree())); }
        if !crate::derive::skip_hash(&self.name) && !self.name.absent() { o.push(("name".to_string(), self.name.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(default)]
pub struct S33 {
    #[deser(alias = "alias33", alias = "other-key")]
    pub value: [u8; 2],
    #[deser(default = "dflt_S33_a")]
    pub a: Vec<S14>,
}
fn dflt_S33_a() -> Vec<S14> { vec![lit_S14()] }
fn lit_S33() -> S33 { S33 { value: [3, 4], a: vec![lit_S14()] } }
impl Default for S33 { fn default() -> Self { lit_S33() } }
impl Strukt for S33 {
    fn lit() -> Self { lit_S33() }
    fn known(k: &str) -> bool { match k { "value" => true, "alias33" => true, "other-key" => true, "a" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["value", "alias33", "other-key", "a"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "value" => <[u8; 2] as Model>::gen(r, d), "alias33" => <[u8; 2] as Model>::gen(r, d), "other-key" => <[u8; 2] as Model>::gen(r, d), "a" => <Vec<S14> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<[u8; 2]> = None;
        let mut v1: Option<Vec<S14>> = None;
        for (k, v) in e {
            match k.as_str() {
                "value" | "alias33" | "other-key" => match <[u8; 2] as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "a" => match <Vec<S14> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| [3, 4]));
        let v1 = Some(v1.unwrap_or_else(|| vec![lit_S14()]));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S33 { value: v0.unwrap(), a: v1.unwrap() })
    }
}
strukt_model!(S33);
impl ToTree for S33 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("value".to_string(), self.value.tree())); }
        { o.push(("a".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
#[deser(skip_serializing_optionals)]
pub struct S34 {
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub key: [u8; 2],
    #[deser(alias = "alias", skip_serializing_if = "crate::derive::skip_hash")]
    pub b: (u8, bool),
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub index: Vec<u16>,
}
fn lit_S34() -> S34 { S34 { key: [3, 4], b: (5, false), index: vec![] } }
impl Strukt for S34 {
    fn lit() -> Self { lit_S34() }
    fn known(k: &str) -> bool { match k { "key" => true, "b" => true, "alias" => true, "index" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["key", "b", "alias", "index"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "key" => <[u8; 2] as Model>::gen(r, d), "b" => <(u8, bool) as Model>::gen(r, d), "alias" => <(u8, bool) as Model>::gen(r, d), "index" => <Vec<u16> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<[u8; 2]> = None;
        let mut v1: Option<(u8, bool)> = None;
        let mut v2: Option<Vec<u16>> = None;
        for (k, v) in e {
            match k.as_str() {
                "key" => match <[u8; 2] as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "b" | "alias" => match <(u8, bool) as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "index" => match <Vec<u16> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("key"); }
        if v1.is_none() && !m.bad { m.names.push("b"); }
        if v2.is_none() && !m.bad { m.names.push("index"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S34 { key: v0.unwrap(), b: v1.unwrap(), index: v2.unwrap() })
    }
}
strukt_model!(S34);
impl ToTree for S34 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.key) && !self.key.absent() { o.push(("key".to_string(), self.key.tree())); }
        if !crate::derive::skip_hash(&self.b) && !self.b.absent() { o.push(("b".to_string(), self.b.tree())); }
        if !crate::derive::skip_hash(&self.index) && !self.index.absent() { o.push(("index".to_string(), self.index.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
#[deser(default)]
pub struct S35 {
}
fn lit_S35() -> S35 { S35 {  } }
impl Default for S35 { fn default() -> Self { lit_S35() } }
impl Strukt for S35 {
    fn lit() -> Self { lit_S35() }
    fn known(k: &str) -> bool { match k {  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec![];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k {  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        for (k, v) in e {
            match k.as_str() {
                _ => {}
            }
        }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S35 {  })
    }
}
strukt_model!(S35);
impl ToTree for S35 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S36 {
    #[deser(flatten)]
    pub flat_a: S28,
    #[deser(alias = "ALIAS", alias = "a")]
    pub r#type: [u8; 2],
}
fn lit_S36() -> S36 { S36 { flat_a: lit_S28(), r#type: [3, 4] } }
impl Strukt for S36 {
    fn lit() -> Self { lit_S36() }
    fn known(k: &str) -> bool { match k { "TYPE" => true, "ALIAS" => true, "a" => true,  _ => <S28 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["TYPE", "ALIAS", "a"]; v.extend(<S28 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "TYPE" => <[u8; 2] as Model>::gen(r, d), "ALIAS" => <[u8; 2] as Model>::gen(r, d), "a" => <[u8; 2] as Model>::gen(r, d),  _ => { if <S28 as Strukt>::known(k) { return <S28 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<[u8; 2]> = None;
        for (k, v) in e {
            match k.as_str() {
                "TYPE" | "ALIAS" | "a" => match <[u8; 2] as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                x if <S28 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S28 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("TYPE"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S36 { flat_a: v0.unwrap(), r#type: v1.unwrap() })
    }
}
strukt_model!(S36);
impl ToTree for S36 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("TYPE".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S37 {
    #[deser(alias = "foo37", alias = "a", skip_serializing_if = "crate::derive::skip_hash")]
    pub name: Vec<S23>,
    #[deser(rename = "Ren-amed37")]
    pub bar: u8,
    #[deser(alias = "alias37", alias = "fooBar")]
    pub data: (u8, bool),
    pub c: S31,
    #[deser(rename = "renamed37")]
    pub sink: Box<Plain>,
    pub x1: Option<Vec<bool>>,
    pub b: [u8; 2],
    #[deser(flatten, skip_serializing_if = "crate::derive::skip_hash")]
    pub flat_a: S32,
    #[deser(alias = "alias", default)]
    pub state: bool,
}
fn lit_S37() -> S37 { S37 { name: vec![lit_S23()], bar: 1, data: (5, false), c: lit_S31(), sink: Box::new(lit_Plain()), x1: None, b: [3, 4], flat_a: lit_S32(), state: false } }
impl Strukt for S37 {
    fn lit() -> Self { lit_S37() }
    fn known(k: &str) -> bool { match k { "NAME" => true, "foo37" => true, "a" => true, "Ren-amed37" => true, "DATA" => true, "alias37" => true, "fooBar" => true, "C" => true, "renamed37" => true, "X1" => true, "B" => true, "STATE" => true, "alias" => true,  _ => <S32 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["NAME", "foo37", "a", "Ren-amed37", "DATA", "alias37", "fooBar", "C", "renamed37", "X1", "B", "STATE", "alias"]; v.extend(<S32 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "NAME" => <Vec<S23> as Model>::gen(r, d), "foo37" => <Vec<S23> as Model>::gen(r, d), "a" => <Vec<S23> as Model>::gen(r, d), "Ren-amed37" => <u8 as Model>::gen(r, d), "DATA" => <(u8, bool) as Model>::gen(r, d), "alias37" => <(u8, bool) as Model>::gen(r, d), "fooBar" => <(u8, bool) as Model>::gen(r, d), "C" => <S31 as Model>::gen(r, d), "renamed37" => <Box<Plain> as Model>::gen(r, d), "X1" => <Option<Vec<bool>> as Model>::gen(r, d), "B" => <[u8; 2] as Model>::gen(r, d), "STATE" => <bool as Model>::gen(r, d), "alias" => <bool as Model>::gen(r, d),  _ => { if <S32 as Strukt>::known(k) { return <S32 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Vec<S23>> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<(u8, bool)> = None;
        let mut v3: Option<S31> = None;
        let mut v4: Option<Box<Plain>> = None;
        let mut v5: Option<Option<Vec<bool>>> = None;
        let mut v6: Option<[u8; 2]> = None;
        let mut v7: Vec<(String, Tree)> = vec![];
        let mut v8: Option<bool> = None;
        for (k, v) in e {
            match k.as_str() {
                "NAME" | "foo37" | "a" => match <Vec<S23> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "Ren-amed37" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "DATA" | "alias37" | "fooBar" => match <(u8, bool) as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "C" => match <S31 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "renamed37" => match <Box<Plain> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "X1" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "B" => match <[u8; 2] as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "STATE" | "alias" => match <bool as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                x if <S32 as Strukt>::known(x) => v7.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("NAME"); }
        if v1.is_none() && !m.bad { m.names.push("Ren-amed37"); }
        if v2.is_none() && !m.bad { m.names.push("DATA"); }
        if v3.is_none() && !m.bad { m.names.push("C"); }
        if v4.is_none() && !m.bad { m.names.push("renamed37"); }
        let v5 = Some(v5.unwrap_or(None));
        if v6.is_none() && !m.bad { m.names.push("B"); }
        let v7 = m.sub(<S32 as Strukt>::build(&v7));
        let v8 = Some(v8.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S37 { name: v0.unwrap(), bar: v1.unwrap(), data: v2.unwrap(), c: v3.unwrap(), sink: v4.unwrap(), x1: v5.unwrap(), b: v6.unwrap(), flat_a: v7.unwrap(), state: v8.unwrap() })
    }
}
strukt_model!(S37);
impl ToTree for S37 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.name) { o.push(("NAME".to_string(), self.name.tree())); }
        { o.push(("Ren-amed37".to_string(), self.bar.tree())); }
        { o.push(("DATA".to_string(), self.data.tree())); }
        { o.push(("C".to_string(), self.c.tree())); }
        { o.push(("renamed37".to_string(), self.sink.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        { o.push(("B".to_string(), self.b.tree())); }
        if !crate::derive::skip_hash(&self.flat_a) { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("STATE".to_string(), self.state.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
#[deser(rename = "Renamed38")]
pub struct S38 {
    pub name: Box<S5>,
    #[deser(flatten)]
    pub flat_a: S9,
    #[deser(flatten)]
    pub flat_b: S9,
    pub bar: Vec<Wrap>,
}
fn lit_S38() -> S38 { S38 { name: Box::new(lit_S5()), flat_a: lit_S9(), flat_b: lit_S9(), bar: vec![Wrap(1)] } }
impl Strukt for S38 {
    fn lit() -> Self { lit_S38() }
    fn known(k: &str) -> bool { match k { "name" => true, "bar" => true,  _ => <S9 as Strukt>::known(k) || <S9 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["name", "bar"]; v.extend(<S9 as Strukt>::keys()); v.extend(<S9 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "name" => <Box<S5> as Model>::gen(r, d), "bar" => <Vec<Wrap> as Model>::gen(r, d),  _ => { if <S9 as Strukt>::known(k) { return <S9 as Strukt>::gen_value(k, r, d); } if <S9 as Strukt>::known(k) { return <S9 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S5>> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Vec<(String, Tree)> = vec![];
        let mut v3: Option<Vec<Wrap>> = None;
        for (k, v) in e {
            match k.as_str() {
                "name" => match <Box<S5> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "bar" => match <Vec<Wrap> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                x if <S9 as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                x if <S9 as Strukt>::known(x) => v2.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("name"); }
        let v1 = m.sub(<S9 as Strukt>::build(&v1));
        let v2 = m.sub(<S9 as Strukt>::build(&v2));
        if v3.is_none() && !m.bad { m.names.push("bar"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S38 { name: v0.unwrap(), flat_a: v1.unwrap(), flat_b: v2.unwrap(), bar: v3.unwrap() })
    }
}
strukt_model!(S38);
impl ToTree for S38 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("name".to_string(), self.name.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { crate::derive::splice(&mut o, self.flat_b.tree()); }
        { o.push(("bar".to_string(), self.bar.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "snake_case")]
#[deser(default = "mk_S39")]
pub struct S39 {
    #[deser(default = "dflt_S39_y_2")]
    pub y_2: S12,
}
fn dflt_S39_y_2() -> S12 { lit_S12() }
fn lit_S39() -> S39 { S39 { y_2: lit_S12() } }
fn mk_S39() -> S39 { lit_S39() }
impl Strukt for S39 {
    fn lit() -> Self { lit_S39() }
    fn known(k: &str) -> bool { match k { "y_2" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["y_2"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "y_2" => <S12 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<S12> = None;
        for (k, v) in e {
            match k.as_str() {
                "y_2" => match <S12 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| lit_S12()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S39 { y_2: v0.unwrap() })
    }
}
strukt_model!(S39);
impl ToTree for S39 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("y_2".to_string(), self.y_2.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "snake_case")]
#[deser(default)]
pub struct S40 {
    #[deser(rename = "Ren-amed40")]
    pub a: S29,
    pub value: S18,
    #[deser(default = "dflt_S40_f0")]
    pub f0: Vec<u16>,
    #[deser(rename = "with space40", alias = "type40", alias = "other-key", default = "dflt_S40_slot", skip_serializing_if = "crate::derive::skip_hash")]
    pub slot: i32,
    #[deser(default = "dflt_S40_y_2", skip_serializing_if = "crate::derive::skip_hash")]
    pub y_2: Option<String>,
}
fn dflt_S40_f0() -> Vec<u16> { vec![300] }
fn dflt_S40_slot() -> i32 { -70 }
fn dflt_S40_y_2() -> Option<String> { None }
fn lit_S40() -> S40 { S40 { a: lit_S29(), value: lit_S18(), f0: vec![], slot: 2, y_2: Some(String::new()) } }
impl Default for S40 { fn default() -> Self { lit_S40() } }
impl Strukt for S40 {
    fn lit() -> Self { lit_S40() }
    fn known(k: &str) -> bool { match k { "Ren-amed40" => true, "value" => true, "f0" => true, "with space40" => true, "type40" => true, "other-key" => true, "y_2" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Ren-amed40", "value", "f0", "with space40", "type40", "other-key", "y_2"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Ren-amed40" => <S29 as Model>::gen(r, d), "value" => <S18 as Model>::gen(r, d), "f0" => <Vec<u16> as Model>::gen(r, d), "with space40" => <i32 as Model>::gen(r, d), "type40" => <i32 as Model>::gen(r, d), "other-key" => <i32 as Model>::gen(r, d), "y_2" => <Option<String> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<S29> = None;
        let mut v1: Option<S18> = None;
        let mut v2: Option<Vec<u16>> = None;
        let mut v3: Option<i32> = None;
        let mut v4: Option<Option<String>> = None;
        for (k, v) in e {
            match k.as_str() {
                "Ren-amed40" => match <S29 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "value" => match <S18 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "f0" => match <Vec<u16> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "with space40" | "type40" | "other-key" => match <i32 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "y_2" => match <Option<String> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| lit_S29()));
        let v1 = Some(v1.unwrap_or_else(|| lit_S18()));
        let v2 = Some(v2.unwrap_or_else(|| vec![300]));
        let v3 = Some(v3.unwrap_or_else(|| -70));
        let v4 = Some(v4.unwrap_or_else(|| None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S40 { a: v0.unwrap(), value: v1.unwrap(), f0: v2.unwrap(), slot: v3.unwrap(), y_2: v4.unwrap() })
    }
}
strukt_model!(S40);
impl ToTree for S40 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("Ren-amed40".to_string(), self.a.tree())); }
        { o.push(("value".to_string(), self.value.tree())); }
        { o.push(("f0".to_string(), self.f0.tree())); }
        if !crate::derive::skip_hash(&self.slot) { o.push(("with space40".to_string(), self.slot.tree())); }
        if !crate::derive::skip_hash(&self.y_2) { o.push(("y_2".to_string(), self.y_2.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S41 {
    #[deser(default = "dflt_S41_type", skip_serializing_if = "crate::derive::skip_hash")]
    pub r#type: Option<S25>,
    #[deser(rename = "renamed41")]
    pub a: S13,
    #[deser(flatten, skip_serializing_if = "crate::derive::skip_hash")]
    pub flat_b: WrapPlain,
    #[deser(flatten)]
    pub flat_a: S3,
    #[deser(alias = "ALIAS41", default = "dflt_S41_f0")]
    pub f0: S10,
    pub x1: (u8, bool),
    #[deser(alias = "alias41", skip_serializing_if = "crate::derive::skip_hash")]
    pub sink: char,
}
fn dflt_S41_type() -> Option<S25> { Some(lit_S25()) }
fn dflt_S41_f0() -> S10 { lit_S10() }
fn lit_S41() -> S41 { S41 { r#type: Some(lit_S25()), a: lit_S13(), flat_b: WrapPlain(lit_Plain()), flat_a: lit_S3(), f0: lit_S10(), x1: (5, false), sink: 'l' } }
impl Strukt for S41 {
    fn lit() -> Self { lit_S41() }
    fn known(k: &str) -> bool { match k { "TYPE" => true, "renamed41" => true, "F0" => true, "ALIAS41" => true, "X1" => true, "SINK" => true, "alias41" => true,  _ => <WrapPlain as Strukt>::known(k) || <S3 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["TYPE", "renamed41", "F0", "ALIAS41", "X1", "SINK", "alias41"]; v.extend(<WrapPlain as Strukt>::keys()); v.extend(<S3 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "TYPE" => <Option<S25> as Model>::gen(r, d), "renamed41" => <S13 as Model>::gen(r, d), "F0" => <S10 as Model>::gen(r, d), "ALIAS41" => <S10 as Model>::gen(r, d), "X1" => <(u8, bool) as Model>::gen(r, d), "SINK" => <char as Model>::gen(r, d), "alias41" => <char as Model>::gen(r, d),  _ => { if <WrapPlain as Strukt>::known(k) { return <WrapPlain as Strukt>::gen_value(k, r, d); } if <S3 as Strukt>::known(k) { return <S3 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<S25>> = None;
        let mut v1: Option<S13> = None;
        let mut v2: Vec<(String, Tree)> = vec![];
        let mut v3: Vec<(String, Tree)> = vec![];
        let mut v4: Option<S10> = None;
        let mut v5: Option<(u8, bool)> = None;
        let mut v6: Option<char> = None;
        for (k, v) in e {
            match k.as_str() {
                "TYPE" => match <Option<S25> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "renamed41" => match <S13 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "F0" | "ALIAS41" => match <S10 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "X1" => match <(u8, bool) as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "SINK" | "alias41" => match <char as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                x if <WrapPlain as Strukt>::known(x) => v2.push((k.clone(), v.clone())),
                x if <S3 as Strukt>::known(x) => v3.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Some(lit_S25())));
        if v1.is_none() && !m.bad { m.names.push("renamed41"); }
        let v2 = m.sub(<WrapPlain as Strukt>::build(&v2));
        let v3 = m.sub(<S3 as Strukt>::build(&v3));
        let v4 = Some(v4.unwrap_or_else(|| lit_S10()));
        if v5.is_none() && !m.bad { m.names.push("X1"); }
        if v6.is_none() && !m.bad { m.names.push("SINK"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S41 { r#type: v0.unwrap(), a: v1.unwrap(), flat_b: v2.unwrap(), flat_a: v3.unwrap(), f0: v4.unwrap(), x1: v5.unwrap(), sink: v6.unwrap() })
    }
}
strukt_model!(S41);
impl ToTree for S41 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.r#type) { o.push(("TYPE".to_string(), self.r#type.tree())); }
        { o.push(("renamed41".to_string(), self.a.tree())); }
        if !crate::derive::skip_hash(&self.flat_b) { crate::derive::splice(&mut o, self.flat_b.tree()); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("F0".to_string(), self.f0.tree())); }
        { o.push(("X1".to_string(), self.x1.tree())); }
        if !crate::derive::skip_hash(&self.sink) { o.push(("SINK".to_string(), self.sink.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S42 {
    #[deser(alias = "b", skip_serializing_if = "crate::derive::skip_hash")]
    pub value: Option<u8>,
    #[deser(rename = "ä42", alias = "alias")]
    pub a: (),
    #[deser(alias = "foo42")]
    pub f0: (),
    #[deser(rename = "type42", default)]
    pub foo: BTreeMap<String, u8>,
}
fn lit_S42() -> S42 { S42 { value: None, a: (), f0: (), foo: BTreeMap::from([("k".to_string(), 3)]) } }
impl Strukt for S42 {
    fn lit() -> Self { lit_S42() }
    fn known(k: &str) -> bool { match k { "VALUE" => true, "b" => true, "ä42" => true, "alias" => true, "F0" => true, "foo42" => true, "type42" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["VALUE", "b", "ä42", "alias", "F0", "foo42", "type42"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "VALUE" => <Option<u8> as Model>::gen(r, d), "b" => <Option<u8> as Model>::gen(r, d), "ä42" => <() as Model>::gen(r, d), "alias" => <() as Model>::gen(r, d), "F0" => <() as Model>::gen(r, d), "foo42" => <() as Model>::gen(r, d), "type42" => <BTreeMap<String, u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<u8>> = None;
        let mut v1: Option<()> = None;
        let mut v2: Option<()> = None;
        let mut v3: Option<BTreeMap<String, u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "VALUE" | "b" => match <Option<u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "ä42" | "alias" => match <() as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "F0" | "foo42" => match <() as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "type42" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or(None));
        if v1.is_none() && !m.bad { m.names.push("ä42"); }
        if v2.is_none() && !m.bad { m.names.push("F0"); }
        let v3 = Some(v3.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S42 { value: v0.unwrap(), a: v1.unwrap(), f0: v2.unwrap(), foo: v3.unwrap() })
    }
}
strukt_model!(S42);
impl ToTree for S42 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.value) { o.push(("VALUE".to_string(), self.value.tree())); }
        { o.push(("ä42".to_string(), self.a.tree())); }
        { o.push(("F0".to_string(), self.f0.tree())); }
        { o.push(("type42".to_string(), self.foo.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(default)]
#[deser(skip_serializing_optionals)]
pub struct S43 {
    #[deser(alias = "b")]
    pub data: BTreeMap<String, u8>,
}
fn lit_S43() -> S43 { S43 { data: BTreeMap::from([("k".to_string(), 3)]) } }
impl Default for S43 { fn default() -> Self { lit_S43() } }
impl Strukt for S43 {
    fn lit() -> Self { lit_S43() }
    fn known(k: &str) -> bool { match k { "Data" => true, "b" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Data", "b"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Data" => <BTreeMap<String, u8> as Model>::gen(r, d), "b" => <BTreeMap<String, u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<BTreeMap<String, u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "Data" | "b" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| BTreeMap::from([("k".to_string(), 3)])));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S43 { data: v0.unwrap() })
    }
}
strukt_model!(S43);
impl ToTree for S43 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.data.absent() { o.push(("Data".to_string(), self.data.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct S44 {
    #[deser(rename = "renamed44", alias = "type")]
    pub index: S0,
    #[deser(default = "dflt_S44_f0")]
    pub f0: (u8, bool),
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub long_name_here: Option<S25>,
    pub name: Box<S10>,
    #[deser(alias = "other-key44", skip_serializing_if = "crate::derive::skip_hash")]
    pub a: Flat,
}
fn dflt_S44_f0() -> (u8, bool) { (4, true) }
fn lit_S44() -> S44 { S44 { index: lit_S0(), f0: (5, false), long_name_here: Some(lit_S25()), name: Box::new(lit_S10()), a: lit_Flat() } }
impl Strukt for S44 {
    fn lit() -> Self { lit_S44() }
    fn known(k: &str) -> bool { match k { "renamed44" => true, "type" => true, "f0" => true, "long_name_here" => true, "name" => true, "a" => true, "other-key44" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["renamed44", "type", "f0", "long_name_here", "name", "a", "other-key44"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "renamed44" => <S0 as Model>::gen(r, d), "type" => <S0 as Model>::gen(r, d), "f0" => <(u8, bool) as Model>::gen(r, d), "long_name_here" => <Option<S25> as Model>::gen(r, d), "name" => <Box<S10> as Model>::gen(r, d), "a" => <Flat as Model>::gen(r, d), "other-key44" => <Flat as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<S0> = None;
        let mut v1: Option<(u8, bool)> = None;
        let mut v2: Option<Option<S25>> = None;
        let mut v3: Option<Box<S10>> = None;
        let mut v4: Option<Flat> = None;
        for (k, v) in e {
            match k.as_str() {
                "renamed44" | "type" => match <S0 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "f0" => match <(u8, bool) as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "long_name_here" => match <Option<S25> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "name" => match <Box<S10> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "a" | "other-key44" => match <Flat as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("renamed44"); }
        let v1 = Some(v1.unwrap_or_else(|| (4, true)));
        let v2 = Some(v2.unwrap_or(None));
        if v3.is_none() && !m.bad { m.names.push("name"); }
        if v4.is_none() && !m.bad { m.names.push("a"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S44 { index: v0.unwrap(), f0: v1.unwrap(), long_name_here: v2.unwrap(), name: v3.unwrap(), a: v4.unwrap() })
    }
}
strukt_model!(S44);
impl ToTree for S44 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("renamed44".to_string(), self.index.tree())); }
        { o.push(("f0".to_string(), self.f0.tree())); }
        if !crate::derive::skip_hash(&self.long_name_here) { o.push(("long_name_here".to_string(), self.long_name_here.tree())); }
        { o.push(("name".to_string(), self.name.tree())); }
        if !crate::derive::skip_hash(&self.a) { o.push(("a".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "camelCase")]
#[deser(skip_serializing_optionals)]
pub struct S45 {
    #[deser(alias = "other-key", default = "dflt_S45_sink")]
    pub sink: Option<String>,
    pub bar: Option<u8>,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub data: Box<S4>,
    pub c: [u8; 2],
    pub a: Vec<u8>,
    #[deser(flatten)]
    pub flat_a: S6,
}
fn dflt_S45_sink() -> Option<String> { None }
fn lit_S45() -> S45 { S45 { sink: Some(String::new()), bar: None, data: Box::new(lit_S4()), c: [3, 4], a: vec![3], flat_a: lit_S6() } }
impl Strukt for S45 {
    fn lit() -> Self { lit_S45() }
    fn known(k: &str) -> bool { match k { "sink" => true, "other-key" => true, "bar" => true, "data" => true, "c" => true, "a" => true,  _ => <S6 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["sink", "other-key", "bar", "data", "c", "a"]; v.extend(<S6 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "sink" => <Option<String> as Model>::gen(r, d), "other-key" => <Option<String> as Model>::gen(r, d), "bar" => <Option<u8> as Model>::gen(r, d), "data" => <Box<S4> as Model>::gen(r, d), "c" => <[u8; 2] as Model>::gen(r, d), "a" => <Vec<u8> as Model>::gen(r, d),  _ => { if <S6 as Strukt>::known(k) { return <S6 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<String>> = None;
        let mut v1: Option<Option<u8>> = None;
        let mut v2: Option<Box<S4>> = None;
        let mut v3: Option<[u8; 2]> = None;
        let mut v4: Option<Vec<u8>> = None;
        let mut v5: Vec<(String, Tree)> = vec![];
        for (k, v) in e {
            match k.as_str() {
                "sink" | "other-key" => match <Option<String> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "bar" => match <Option<u8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "data" => match <Box<S4> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "c" => match <[u8; 2] as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "a" => match <Vec<u8> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S6 as Strukt>::known(x) => v5.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| None));
        let v1 = Some(v1.unwrap_or(None));
        if v2.is_none() && !m.bad { m.names.push("data"); }
        if v3.is_none() && !m.bad { m.names.push("c"); }
        if v4.is_none() && !m.bad { m.names.push("a"); }
        let v5 = m.sub(<S6 as Strukt>::build(&v5));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S45 { sink: v0.unwrap(), bar: v1.unwrap(), data: v2.unwrap(), c: v3.unwrap(), a: v4.unwrap(), flat_a: v5.unwrap() })
    }
}
strukt_model!(S45);
impl ToTree for S45 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.sink.absent() { o.push(("sink".to_string(), self.sink.tree())); }
        if !self.bar.absent() { o.push(("bar".to_string(), self.bar.tree())); }
        if !crate::derive::skip_hash(&self.data) && !self.data.absent() { o.push(("data".to_string(), self.data.tree())); }
        if !self.c.absent() { o.push(("c".to_string(), self.c.tree())); }
        if !self.a.absent() { o.push(("a".to_string(), self.a.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
pub struct S46 {
    #[deser(flatten)]
    pub flat_a: S35,
    pub data: S24,
    #[deser(alias = "type", alias = "ALIAS46", default = "dflt_S46_value", skip_serializing_if = "crate::derive::skip_hash")]
    pub value: Vec<S23>,
    #[deser(rename = "ä46", skip_serializing_if = "crate::derive::skip_hash")]
    pub y_2: i32,
    pub key: String,
}
fn dflt_S46_value() -> Vec<S23> { vec![lit_S23()] }
fn lit_S46() -> S46 { S46 { flat_a: lit_S35(), data: lit_S24(), value: vec![lit_S23()], y_2: 2, key: "lit".to_string() } }
impl Strukt for S46 {
    fn lit() -> Self { lit_S46() }
    fn known(k: &str) -> bool { match k { "data" => true, "value" => true, "type" => true, "ALIAS46" => true, "ä46" => true, "key" => true,  _ => <S35 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["data", "value", "type", "ALIAS46", "ä46", "key"]; v.extend(<S35 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "data" => <S24 as Model>::gen(r, d), "value" => <Vec<S23> as Model>::gen(r, d), "type" => <Vec<S23> as Model>::gen(r, d), "ALIAS46" => <Vec<S23> as Model>::gen(r, d), "ä46" => <i32 as Model>::gen(r, d), "key" => <String as Model>::gen(r, d),  _ => { if <S35 as Strukt>::known(k) { return <S35 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<S24> = None;
        let mut v2: Option<Vec<S23>> = None;
        let mut v3: Option<i32> = None;
        let mut v4: Option<String> = None;
        for (k, v) in e {
            match k.as_str() {
                "data" => match <S24 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "value" | "type" | "ALIAS46" => match <Vec<S23> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "ä46" => match <i32 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "key" => match <String as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S35 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S35 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("data"); }
        let v2 = Some(v2.unwrap_or_else(|| vec![lit_S23()]));
        if v3.is_none() && !m.bad { m.names.push("ä46"); }
        if v4.is_none() && !m.bad { m.names.push("key"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S46 { flat_a: v0.unwrap(), data: v1.unwrap(), value: v2.unwrap(), y_2: v3.unwrap(), key: v4.unwrap() })
    }
}
strukt_model!(S46);
impl ToTree for S46 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("data".to_string(), self.data.tree())); }
        if !crate::derive::skip_hash(&self.value) { o.push(("value".to_string(), self.value.tree())); }
        if !crate::derive::skip_hash(&self.y_2) { o.push(("ä46".to_string(), self.y_2.tree())); }
        { o.push(("key".to_string(), self.key.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(default = "mk_S47")]
pub struct S47 {
    #[deser(rename = "ä47", default = "dflt_S47_x1")]
    pub x1: Box<S16>,
    pub b: String,
    #[deser(alias = "type47", alias = "b")]
    pub foo: String,
    #[deser(default)]
    pub state: String,
    #[deser(default = "dflt_S47_data")]
    pub data: Option<String>,
    pub f0: Vec<S39>,
}
fn dflt_S47_x1() -> Box<S16> { Box::new(lit_S16()) }
fn dflt_S47_data() -> Option<String> { None }
fn lit_S47() -> S47 { S47 { x1: Box::new(lit_S16()), b: "lit".to_string(), foo: "lit".to_string(), state: "lit".to_string(), data: Some(String::new()), f0: vec![lit_S39()] } }
fn mk_S47() -> S47 { lit_S47() }
impl Strukt for S47 {
    fn lit() -> Self { lit_S47() }
    fn known(k: &str) -> bool { match k { "ä47" => true, "B" => true, "Foo" => true, "type47" => true, "b" => true, "State" => true, "Data" => true, "F0" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["ä47", "B", "Foo", "type47", "b", "State", "Data", "F0"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "ä47" => <Box<S16> as Model>::gen(r, d), "B" => <String as Model>::gen(r, d), "Foo" => <String as Model>::gen(r, d), "type47" => <String as Model>::gen(r, d), "b" => <String as Model>::gen(r, d), "State" => <String as Model>::gen(r, d), "Data" => <Option<String> as Model>::gen(r, d), "F0" => <Vec<S39> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S16>> = None;
        let mut v1: Option<String> = None;
        let mut v2: Option<String> = None;
        let mut v3: Option<String> = None;
        let mut v4: Option<Option<String>> = None;
        let mut v5: Option<Vec<S39>> = None;
        for (k, v) in e {
            match k.as_str() {
                "ä47" => match <Box<S16> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "B" => match <String as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "Foo" | "type47" | "b" => match <String as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "State" => match <String as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "Data" => match <Option<String> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "F0" => match <Vec<S39> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(lit_S16())));
        let v1 = Some(v1.unwrap_or_else(|| "lit".to_string()));
        let v2 = Some(v2.unwrap_or_else(|| "lit".to_string()));
        let v3 = Some(v3.unwrap_or_default());
        let v4 = Some(v4.unwrap_or_else(|| None));
        let v5 = Some(v5.unwrap_or_else(|| vec![lit_S39()]));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S47 { x1: v0.unwrap(), b: v1.unwrap(), foo: v2.unwrap(), state: v3.unwrap(), data: v4.unwrap(), f0: v5.unwrap() })
    }
}
strukt_model!(S47);
impl ToTree for S47 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("ä47".to_string(), self.x1.tree())); }
        { o.push(("B".to_string(), self.b.tree())); }
        { o.push(("Foo".to_string(), self.foo.tree())); }
        { o.push(("State".to_string(), self.state.tree())); }
        { o.push(("Data".to_string(), self.data.tree())); }
        { o.push(("F0".to_string(), self.f0.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename = "Renamed48")]
#[deser(skip_serializing_optionals)]
pub struct S48 {
    #[deser(flatten, skip_serializing_if = "crate::derive::skip_hash")]
    pub flat_a: S23,
    pub r#type: (),
}
fn lit_S48() -> S48 { S48 { flat_a: lit_S23(), r#type: () } }
impl Strukt for S48 {
    fn lit() -> Self { lit_S48() }
    fn known(k: &str) -> bool { match k { "type" => true,  _ => <S23 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["type"]; v.extend(<S23 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "type" => <() as Model>::gen(r, d),  _ => { if <S23 as Strukt>::known(k) { return <S23 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<()> = None;
        for (k, v) in e {
            match k.as_str() {
                "type" => match <() as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                x if <S23 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S23 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("type"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S48 { flat_a: v0.unwrap(), r#type: v1.unwrap() })
    }
}
strukt_model!(S48);
impl ToTree for S48 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.flat_a) { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !self.r#type.absent() { o.push(("type".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
#[deser(default)]
pub struct S49 {
    #[deser(default = "dflt_S49_type")]
    pub r#type: Option<S16>,
    #[deser(alias = "ALIAS49", default = "dflt_S49_sink")]
    pub sink: i32,
    pub long_name_here: Box<S22>,
}
fn dflt_S49_type() -> Option<S16> { Some(lit_S16()) }
fn dflt_S49_sink() -> i32 { -70 }
fn lit_S49() -> S49 { S49 { r#type: Some(lit_S16()), sink: 2, long_name_here: Box::new(lit_S22()) } }
impl Default for S49 { fn default() -> Self { lit_S49() } }
impl Strukt for S49 {
    fn lit() -> Self { lit_S49() }
    fn known(k: &str) -> bool { match k { "type" => true, "sink" => true, "ALIAS49" => true, "long-name-here" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["type", "sink", "ALIAS49", "long-name-here"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "type" => <Option<S16> as Model>::gen(r, d), "sink" => <i32 as Model>::gen(r, d), "ALIAS49" => <i32 as Model>::gen(r, d), "long-name-here" => <Box<S22> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<S16>> = None;
        let mut v1: Option<i32> = None;
        let mut v2: Option<Box<S22>> = None;
        for (k, v) in e {
            match k.as_str() {
                "type" => match <Option<S16> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "sink" | "ALIAS49" => match <i32 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "long-name-here" => match <Box<S22> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Some(lit_S16())));
        let v1 = Some(v1.unwrap_or_else(|| -70));
        let v2 = Some(v2.unwrap_or_else(|| Box::new(lit_S22())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S49 { r#type: v0.unwrap(), sink: v1.unwrap(), long_name_here: v2.unwrap() })
    }
}
strukt_model!(S49);
impl ToTree for S49 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("sink".to_string(), self.sink.tree())); }
        { o.push(("long-name-here".to_string(), self.long_name_here.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "UPPERCASE")]
#[deser(rename = "Renamed50")]
pub struct S50 {
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub b: [u8; 2],
    #[deser(default)]
    pub long_name_here: u8,
    pub name: [u8; 2],
    #[deser(alias = "alias50", alias = "other-key50", default)]
    pub c: Vec<u8>,
    #[deser(flatten, skip_serializing_if = "crate::derive::skip_hash")]
    pub flat_a: S36,
}
fn lit_S50() -> S50 { S50 { b: [3, 4], long_name_here: 1, name: [3, 4], c: vec![3], flat_a: lit_S36() } }
impl Strukt for S50 {
    fn lit() -> Self { lit_S50() }
    fn known(k: &str) -> bool { match k { "B" => true, "LONG_NAME_HERE" => true, "NAME" => true, "C" => true, "alias50" => true, "other-key50" => true,  _ => <S36 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["B", "LONG_NAME_HERE", "NAME", "C", "alias50", "other-key50"]; v.extend(<S36 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "B" => <[u8; 2] as Model>::gen(r, d), "LONG_NAME_HERE" => <u8 as Model>::gen(r, d), "NAME" => <[u8; 2] as Model>::gen(r, d), "C" => <Vec<u8> as Model>::gen(r, d), "alias50" => <Vec<u8> as Model>::gen(r, d), "other-key50" => <Vec<u8> as Model>::gen(r, d),  _ => { if <S36 as Strukt>::known(k) { return <S36 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<[u8; 2]> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<[u8; 2]> = None;
        let mut v3: Option<Vec<u8>> = None;
        let mut v4: Vec<(String, Tree)> = vec![];
        for (k, v) in e {
            match k.as_str() {
                "B" => match <[u8; 2] as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "LONG_NAME_HERE" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "NAME" => match <[u8; 2] as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "C" | "alias50" | "other-key50" => match <Vec<u8> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                x if <S36 as Strukt>::known(x) => v4.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        let v1 = Some(v1.unwrap_or_default());
        if v2.is_none() && !m.bad { m.names.push("NAME"); }
        let v3 = Some(v3.unwrap_or_default());
        let v4 = m.sub(<S36 as Strukt>::build(&v4));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S50 { b: v0.unwrap(), long_name_here: v1.unwrap(), name: v2.unwrap(), c: v3.unwrap(), flat_a: v4.unwrap() })
    }
}
strukt_model!(S50);
impl ToTree for S50 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !crate::derive::skip_hash(&self.b) { o.push(("B".to_string(), self.b.tree())); }
        { o.push(("LONG_NAME_HERE".to_string(), self.long_name_here.tree())); }
        { o.push(("NAME".to_string(), self.name.tree())); }
        { o.push(("C".to_string(), self.c.tree())); }
        if !crate::derive::skip_hash(&self.flat_a) { crate::derive::splice(&mut o, self.flat_a.tree()); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct S51 {
    pub y_2: Option<String>,
    pub long_name_here: S34,
    #[deser(alias = "other-key51", default)]
    pub slot: BTreeMap<String, u8>,
    pub value: bool,
}
fn lit_S51() -> S51 { S51 { y_2: Some(String::new()), long_name_here: lit_S34(), slot: BTreeMap::from([("k".to_string(), 3)]), value: false } }
impl Strukt for S51 {
    fn lit() -> Self { lit_S51() }
    fn known(k: &str) -> bool { match k { "y_2" => true, "long_name_here" => true, "slot" => true, "other-key51" => true, "value" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["y_2", "long_name_here", "slot", "other-key51", "value"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "y_2" => <Option<String> as Model>::gen(r, d), "long_name_here" => <S34 as Model>::gen(r, d), "slot" => <BTreeMap<String, u8> as Model>::gen(r, d), "other-key51" => <BTreeMap<String, u8> as Model>::gen(r, d), "value" => <bool as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<String>> = None;
        let mut v1: Option<S34> = None;
        let mut v2: Option<BTreeMap<String, u8>> = None;
        let mut v3: Option<bool> = None;
        for (k, v) in e {
            match k.as_str() {
                "y_2" => match <Option<String> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "long_name_here" => match <S34 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "slot" | "other-key51" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "value" => match <bool as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or(None));
        if v1.is_none() && !m.bad { m.names.push("long_name_here"); }
        let v2 = Some(v2.unwrap_or_default());
        if v3.is_none() && !m.bad { m.names.push("value"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S51 { y_2: v0.unwrap(), long_name_here: v1.unwrap(), slot: v2.unwrap(), value: v3.unwrap() })
    }
}
strukt_model!(S51);
impl ToTree for S51 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("y_2".to_string(), self.y_2.tree())); }
        { o.push(("long_name_here".to_string(), self.long_name_here.tree())); }
        { o.push(("slot".to_string(), self.slot.tree())); }
        { o.push(("value".to_string(), self.value.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct S52 {
    #[deser(rename = "renamed52", default = "dflt_S52_slot")]
    pub slot: Option<u8>,
    pub data: Vec<u8>,
    pub foo_bar: [u8; 2],
    #[deser(alias = "alias")]
    pub long_name_here: S36,
    #[deser(flatten)]
    pub flat_a: S14,
}
fn dflt_S52_slot() -> Option<u8> { Some(9) }
fn lit_S52() -> S52 { S52 { slot: None, data: vec![3], foo_bar: [3, 4], long_name_here: lit_S36(), flat_a: lit_S14() } }
impl Strukt for S52 {
    fn lit() -> Self { lit_S52() }
    fn known(k: &str) -> bool { match k { "renamed52" => true, "DATA" => true, "FOO-BAR" => true, "LONG-NAME-HERE" => true, "alias" => true,  _ => <S14 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["renamed52", "DATA", "FOO-BAR", "LONG-NAME-HERE", "alias"]; v.extend(<S14 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "renamed52" => <Option<u8> as Model>::gen(r, d), "DATA" => <Vec<u8> as Model>::gen(r, d), "FOO-BAR" => <[u8; 2] as Model>::gen(r, d), "LONG-NAME-HERE" => <S36 as Model>::gen(r, d), "alias" => <S36 as Model>::gen(r, d),  _ => { if <S14 as Strukt>::known(k) { return <S14 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<u8>> = None;
        let mut v1: Option<Vec<u8>> = None;
        let mut v2: Option<[u8; 2]> = None;
        let mut v3: Option<S36> = None;
        let mut v4: Vec<(String, Tree)> = vec![];
        for (k, v) in e {
            match k.as_str() {
                "renamed52" => match <Option<u8> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "DATA" => match <Vec<u8> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "FOO-BAR" => match <[u8; 2] as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "LONG-NAME-HERE" | "alias" => match <S36 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                x if <S14 as Strukt>::known(x) => v4.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Some(9)));
        if v1.is_none() && !m.bad { m.names.push("DATA"); }
        if v2.is_none() && !m.bad { m.names.push("FOO-BAR"); }
        if v3.is_none() && !m.bad { m.names.push("LONG-NAME-HERE"); }
        let v4 = m.sub(<S14 as Strukt>::build(&v4));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S52 { slot: v0.unwrap(), data: v1.unwrap(), foo_bar: v2.unwrap(), long_name_here: v3.unwrap(), flat_a: v4.unwrap() })
    }
}
strukt_model!(S52);
impl ToTree for S52 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("renamed52".to_string(), self.slot.tree())); }
        { o.push(("DATA".to_string(), self.data.tree())); }
        { o.push(("FOO-BAR".to_string(), self.foo_bar.tree())); }
        { o.push(("LONG-NAME-HERE".to_string(), self.long_name_here.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "snake_case")]
#[deser(rename = "Renamed53")]
pub struct S53 {
    pub name: Option<String>,
}
fn lit_S53() -> S53 { S53 { name: Some(String::new()) } }
impl Strukt for S53 {
    fn lit() -> Self { lit_S53() }
    fn known(k: &str) -> bool { match k { "name" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["name"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "name" => <Option<String> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<String>> = None;
        for (k, v) in e {
            match k.as_str() {
                "name" => match <Option<String> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or(None));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S53 { name: v0.unwrap() })
    }
}
strukt_model!(S53);
impl ToTree for S53 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("name".to_string(), self.name.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
#[deser(default = "mk_S54")]
pub struct S54 {
    pub data: Color,
    #[deser(alias = "foo54", default = "dflt_S54_bar")]
    pub bar: u8,
    pub index: BTreeMap<String, u8>,
    pub value: S53,
    #[deser(alias = "ALIAS")]
    pub b: BTreeMap<String, u8>,
    #[deser(alias = "type54", skip_serializing_if = "crate::derive::skip_hash")]
    pub r#type: Vec<S23>,
    #[deser(rename = "renamed54", default = "dflt_S54_slot")]
    pub slot: Option<S31>,
    #[deser(rename = "ä54")]
    pub foo_bar: (),
}
fn dflt_S54_bar() -> u8 { 7 }
fn dflt_S54_slot() -> Option<S31> { Some(lit_S31()) }
fn lit_S54() -> S54 { S54 { data: Color::Red, bar: 1, index: BTreeMap::from([("k".to_string(), 3)]), value: lit_S53(), b: BTreeMap::from([("k".to_string(), 3)]), r#type: vec![lit_S23()], slot: Some(lit_S31()), foo_bar: () } }
fn mk_S54() -> S54 { lit_S54() }
impl Strukt for S54 {
    fn lit() -> Self { lit_S54() }
    fn known(k: &str) -> bool { match k { "data" => true, "bar" => true, "foo54" => true, "index" => true, "value" => true, "b" => true, "ALIAS" => true, "type" => true, "type54" => true, "renamed54" => true, "ä54" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["data", "bar", "foo54", "index", "value", "b", "ALIAS", "type", "type54", "renamed54", "ä54"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "data" => <Color as Model>::gen(r, d), "bar" => <u8 as Model>::gen(r, d), "foo54" => <u8 as Model>::gen(r, d), "index" => <BTreeMap<String, u8> as Model>::gen(r, d), "value" => <S53 as Model>::gen(r, d), "b" => <BTreeMap<String, u8> as Model>::gen(r, d), "ALIAS" => <BTreeMap<String, u8> as Model>::gen(r, d), "type" => <Vec<S23> as Model>::gen(r, d), "type54" => <Vec<S23> as Model>::gen(r, d), "renamed54" => <Option<S31> as Model>::gen(r, d), "ä54" => <() as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Color> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<BTreeMap<String, u8>> = None;
        let mut v3: Option<S53> = None;
        let mut v4: Option<BTreeMap<String, u8>> = None;
        let mut v5: Option<Vec<S23>> = None;
        let mut v6: Option<Option<S31>> = None;
        let mut v7: Option<()> = None;
        for (k, v) in e {
            match k.as_str() {
                "data" => match <Color as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "bar" | "foo54" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "index" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "value" => match <S53 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "b" | "ALIAS" => match <BTreeMap<String, u8> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "type" | "type54" => match <Vec<S23> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "renamed54" => match <Option<S31> as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "ä54" => match <() as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Color::Red));
        let v1 = Some(v1.unwrap_or_else(|| 7));
        let v2 = Some(v2.unwrap_or_else(|| BTreeMap::from([("k".to_string(), 3)])));
        let v3 = Some(v3.unwrap_or_else(|| lit_S53()));
        let v4 = Some(v4.unwrap_or_else(|| BTreeMap::from([("k".to_string(), 3)])));
        let v5 = Some(v5.unwrap_or_else(|| vec![lit_S23()]));
        let v6 = Some(v6.unwrap_or_else(|| Some(lit_S31())));
        let v7 = Some(v7.unwrap_or_else(|| ()));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S54 { data: v0.unwrap(), bar: v1.unwrap(), index: v2.unwrap(), value: v3.unwrap(), b: v4.unwrap(), r#type: v5.unwrap(), slot: v6.unwrap(), foo_bar: v7.unwrap() })
    }
}
strukt_model!(S54);
impl ToTree for S54 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("data".to_string(), self.data.tree())); }
        { o.push(("bar".to_string(), self.bar.tree())); }
        { o.push(("index".to_string(), self.index.tree())); }
        { o.push(("value".to_string(), self.value.tree())); }
        { o.push(("b".to_string(), self.b.tree())); }
        if !crate::derive::skip_hash(&self.r#type) { o.push(("type".to_string(), self.r#type.tree())); }
        { o.push(("renamed54".to_string(), self.slot.tree())); }
        { o.push(("ä54".to_string(), self.foo_bar.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct S55 {
    #[deser(default = "dflt_S55_b")]
    pub b: Option<String>,
    #[deser(flatten)]
    pub flat_a: S28,
    #[deser(alias = "alias")]
    pub key: char,
    pub bar: [u8; 2],
    #[deser(alias = "type")]
    pub index: S8,
}
fn dflt_S55_b() -> Option<String> { None }
fn lit_S55() -> S55 { S55 { b: Some(String::new()), flat_a: lit_S28(), key: 'l', bar: [3, 4], index: lit_S8() } }
impl Strukt for S55 {
    fn lit() -> Self { lit_S55() }
    fn known(k: &str) -> bool { match k { "B" => true, "KEY" => true, "alias" => true, "BAR" => true, "INDEX" => true, "type" => true,  _ => <S28 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["B", "KEY", "alias", "BAR", "INDEX", "type"]; v.extend(<S28 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "B" => <Option<String> as Model>::gen(r, d), "KEY" => <char as Model>::gen(r, d), "alias" => <char as Model>::gen(r, d), "BAR" => <[u8; 2] as Model>::gen(r, d), "INDEX" => <S8 as Model>::gen(r, d), "type" => <S8 as Model>::gen(r, d),  _ => { if <S28 as Strukt>::known(k) { return <S28 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Option<String>> = None;
        let mut v1: Vec<(String, Tree)> = vec![];
        let mut v2: Option<char> = None;
        let mut v3: Option<[u8; 2]> = None;
        let mut v4: Option<S8> = None;
        for (k, v) in e {
            match k.as_str() {
                "B" => match <Option<String> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "KEY" | "alias" => match <char as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "BAR" => match <[u8; 2] as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "INDEX" | "type" => match <S8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S28 as Strukt>::known(x) => v1.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| None));
        let v1 = m.sub(<S28 as Strukt>::build(&v1));
        if v2.is_none() && !m.bad { m.names.push("KEY"); }
        if v3.is_none() && !m.bad { m.names.push("BAR"); }
        if v4.is_none() && !m.bad { m.names.push("INDEX"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S55 { b: v0.unwrap(), flat_a: v1.unwrap(), key: v2.unwrap(), bar: v3.unwrap(), index: v4.unwrap() })
    }
}
strukt_model!(S55);
impl ToTree for S55 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("B".to_string(), self.b.tree())); }
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        { o.push(("KEY".to_string(), self.key.tree())); }
        { o.push(("BAR".to_string(), self.bar.tree())); }
        { o.push(("INDEX".to_string(), self.index.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "PascalCase")]
#[deser(rename = "Renamed56")]
#[deser(default)]
#[deser(skip_serializing_optionals)]
pub struct S56 {
    #[deser(default = "dflt_S56_sink")]
    pub sink: Box<Plain>,
}
fn dflt_S56_sink() -> Box<Plain> { Box::new(lit_Plain()) }
fn lit_S56() -> S56 { S56 { sink: Box::new(lit_Plain()) } }
impl Default for S56 { fn default() -> Self { lit_S56() } }
impl Strukt for S56 {
    fn lit() -> Self { lit_S56() }
    fn known(k: &str) -> bool { match k { "Sink" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["Sink"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "Sink" => <Box<Plain> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<Plain>> = None;
        for (k, v) in e {
            match k.as_str() {
                "Sink" => match <Box<Plain> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_else(|| Box::new(lit_Plain())));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S56 { sink: v0.unwrap() })
    }
}
strukt_model!(S56);
impl ToTree for S56 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.sink.absent() { o.push(("Sink".to_string(), self.sink.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename = "Renamed57")]
#[deser(skip_serializing_optionals)]
pub struct S57 {
    #[deser(default)]
    pub x1: String,
    #[deser(rename = "with space57", default = "dflt_S57_c")]
    pub c: u64,
    #[deser(alias = "b", skip_serializing_if = "crate::derive::skip_hash")]
    pub value: i32,
    pub index: Vec<S23>,
    pub foo_bar: S1,
    #[deser(default)]
    pub a: Vec<u8>,
}
fn dflt_S57_c() -> u64 { 77 }
fn lit_S57() -> S57 { S57 { x1: "lit".to_string(), c: 78, value: 2, index: vec![lit_S23()], foo_bar: lit_S1(), a: vec![3] } }
impl Strukt for S57 {
    fn lit() -> Self { lit_S57() }
    fn known(k: &str) -> bool { match k { "x1" => true, "with space57" => true, "value" => true, "b" => true, "index" => true, "foo_bar" => true, "a" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["x1", "with space57", "value", "b", "index", "foo_bar", "a"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "x1" => <String as Model>::gen(r, d), "with space57" => <u64 as Model>::gen(r, d), "value" => <i32 as Model>::gen(r, d), "b" => <i32 as Model>::gen(r, d), "index" => <Vec<S23> as Model>::gen(r, d), "foo_bar" => <S1 as Model>::gen(r, d), "a" => <Vec<u8> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<String> = None;
        let mut v1: Option<u64> = None;
        let mut v2: Option<i32> = None;
        let mut v3: Option<Vec<S23>> = None;
        let mut v4: Option<S1> = None;
        let mut v5: Option<Vec<u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "x1" => match <String as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "with space57" => match <u64 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "value" | "b" => match <i32 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "index" => match <Vec<S23> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "foo_bar" => match <S1 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "a" => match <Vec<u8> as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        let v0 = Some(v0.unwrap_or_default());
        let v1 = Some(v1.unwrap_or_else(|| 77));
        if v2.is_none() && !m.bad { m.names.push("value"); }
        if v3.is_none() && !m.bad { m.names.push("index"); }
        if v4.is_none() && !m.bad { m.names.push("foo_bar"); }
        let v5 = Some(v5.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S57 { x1: v0.unwrap(), c: v1.unwrap(), value: v2.unwrap(), index: v3.unwrap(), foo_bar: v4.unwrap(), a: v5.unwrap() })
    }
}
strukt_model!(S57);
impl ToTree for S57 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        if !self.x1.absent() { o.push(("x1".to_string(), self.x1.tree())); }
        if !self.c.absent() { o.push(("with space57".to_string(), self.c.tree())); }
        if !crate::derive::skip_hash(&self.value) && !self.value.absent() { o.push(("value".to_string(), self.value.tree())); }
        if !self.index.absent() { o.push(("index".to_string(), self.index.tree())); }
        if !self.foo_bar.absent() { o.push(("foo_bar".to_string(), self.foo_bar.tree())); }
        if !self.a.absent() { o.push(("a".to_string(), self.a.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "kebab-case")]
pub struct S58 {
    #[deser(rename = "ä58", alias = "other-key58")]
    pub bar: Box<S49>,
    #[deser(rename = "with space58")]
    pub name: (u8, bool),
    #[deser(alias = "a", default = "dflt_S58_b")]
    pub b: Option<Vec<bool>>,
    #[deser(rename = "type58", default = "dflt_S58_sink", skip_serializing_if = "crate::derive::skip_hash")]
    pub sink: Vec<u16>,
}
fn dflt_S58_b() -> Option<Vec<bool>> { Some(vec![]) }
fn dflt_S58_sink() -> Vec<u16> { vec![300] }
fn lit_S58() -> S58 { S58 { bar: Box::new(lit_S49()), name: (5, false), b: None, sink: vec![] } }
impl Strukt for S58 {
    fn lit() -> Self { lit_S58() }
    fn known(k: &str) -> bool { match k { "ä58" => true, "other-key58" => true, "with space58" => true, "b" => true, "a" => true, "type58" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["ä58", "other-key58", "with space58", "b", "a", "type58"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "ä58" => <Box<S49> as Model>::gen(r, d), "other-key58" => <Box<S49> as Model>::gen(r, d), "with space58" => <(u8, bool) as Model>::gen(r, d), "b" => <Option<Vec<bool>> as Model>::gen(r, d), "a" => <Option<Vec<bool>> as Model>::gen(r, d), "type58" => <Vec<u16> as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<Box<S49>> = None;
        let mut v1: Option<(u8, bool)> = None;
        let mut v2: Option<Option<Vec<bool>>> = None;
        let mut v3: Option<Vec<u16>> = None;
        for (k, v) in e {
            match k.as_str() {
                "ä58" | "other-key58" => match <Box<S49> as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "with space58" => match <(u8, bool) as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "b" | "a" => match <Option<Vec<bool>> as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "type58" => match <Vec<u16> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("ä58"); }
        if v1.is_none() && !m.bad { m.names.push("with space58"); }
        let v2 = Some(v2.unwrap_or_else(|| Some(vec![])));
        let v3 = Some(v3.unwrap_or_else(|| vec![300]));
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S58 { bar: v0.unwrap(), name: v1.unwrap(), b: v2.unwrap(), sink: v3.unwrap() })
    }
}
strukt_model!(S58);
impl ToTree for S58 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("ä58".to_string(), self.bar.tree())); }
        { o.push(("with space58".to_string(), self.name.tree())); }
        { o.push(("b".to_string(), self.b.tree())); }
        if !crate::derive::skip_hash(&self.sink) { o.push(("type58".to_string(), self.sink.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser(rename_all = "lowercase")]
pub struct S59 {
    #[deser(flatten)]
    pub flat_a: S43,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub bar: Box<S32>,
    pub value: (),
    #[deser(rename = "renamed59", alias = "b", alias = "ALIAS59", default)]
    pub sink: Option<u8>,
    #[deser(alias = "alias")]
    pub r#type: Box<u8>,
}
fn lit_S59() -> S59 { S59 { flat_a: lit_S43(), bar: Box::new(lit_S32()), value: (), sink: None, r#type: Box::new(4) } }
impl Strukt for S59 {
    fn lit() -> Self { lit_S59() }
    fn known(k: &str) -> bool { match k { "bar" => true, "value" => true, "renamed59" => true, "b" => true, "ALIAS59" => true, "type" => true, "alias" => true,  _ => <S43 as Strukt>::known(k) } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["bar", "value", "renamed59", "b", "ALIAS59", "type", "alias"]; v.extend(<S43 as Strukt>::keys()); v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "bar" => <Box<S32> as Model>::gen(r, d), "value" => <() as Model>::gen(r, d), "renamed59" => <Option<u8> as Model>::gen(r, d), "b" => <Option<u8> as Model>::gen(r, d), "ALIAS59" => <Option<u8> as Model>::gen(r, d), "type" => <Box<u8> as Model>::gen(r, d), "alias" => <Box<u8> as Model>::gen(r, d),  _ => { if <S43 as Strukt>::known(k) { return <S43 as Strukt>::gen_value(k, r, d); } unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Vec<(String, Tree)> = vec![];
        let mut v1: Option<Box<S32>> = None;
        let mut v2: Option<()> = None;
        let mut v3: Option<Option<u8>> = None;
        let mut v4: Option<Box<u8>> = None;
        for (k, v) in e {
            match k.as_str() {
                "bar" => match <Box<S32> as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "value" => match <() as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "renamed59" | "b" | "ALIAS59" => match <Option<u8> as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "type" | "alias" => match <Box<u8> as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                x if <S43 as Strukt>::known(x) => v0.push((k.clone(), v.clone())),
                _ => {}
            }
        }
        let v0 = m.sub(<S43 as Strukt>::build(&v0));
        if v1.is_none() && !m.bad { m.names.push("bar"); }
        if v2.is_none() && !m.bad { m.names.push("value"); }
        let v3 = Some(v3.unwrap_or_default());
        if v4.is_none() && !m.bad { m.names.push("type"); }
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(S59 { flat_a: v0.unwrap(), bar: v1.unwrap(), value: v2.unwrap(), sink: v3.unwrap(), r#type: v4.unwrap() })
    }
}
strukt_model!(S59);
impl ToTree for S59 {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { crate::derive::splice(&mut o, self.flat_a.tree()); }
        if !crate::derive::skip_hash(&self.bar) { o.push(("bar".to_string(), self.bar.tree())); }
        { o.push(("value".to_string(), self.value.tree())); }
        { o.push(("renamed59".to_string(), self.sink.tree())); }
        { o.push(("type".to_string(), self.r#type.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Many {
    pub m0: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m1: u8,
    pub m2: u8,
    #[deser(default)]
    pub m3: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m4: u8,
    #[deser(default)]
    pub m5: u8,
    pub m6: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m7: u8,
    pub m8: u8,
    #[deser(default)]
    pub m9: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m10: u8,
    #[deser(default)]
    pub m11: u8,
    pub m12: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m13: u8,
    pub m14: u8,
    #[deser(default)]
    pub m15: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m16: u8,
    #[deser(default)]
    pub m17: u8,
    pub m18: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m19: u8,
    pub m20: u8,
    #[deser(default)]
    pub m21: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m22: u8,
    #[deser(default)]
    pub m23: u8,
    pub m24: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m25: u8,
    pub m26: u8,
    #[deser(default)]
    pub m27: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m28: u8,
    #[deser(default)]
    pub m29: u8,
    pub m30: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m31: u8,
    pub m32: u8,
    #[deser(default)]
    pub m33: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m34: u8,
    #[deser(default)]
    pub m35: u8,
    pub m36: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m37: u8,
    pub m38: u8,
    #[deser(default)]
    pub m39: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m40: u8,
    #[deser(default)]
    pub m41: u8,
    pub m42: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m43: u8,
    pub m44: u8,
    #[deser(default)]
    pub m45: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m46: u8,
    #[deser(default)]
    pub m47: u8,
    pub m48: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m49: u8,
    pub m50: u8,
    #[deser(default)]
    pub m51: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m52: u8,
    #[deser(default)]
    pub m53: u8,
    pub m54: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m55: u8,
    pub m56: u8,
    #[deser(default)]
    pub m57: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m58: u8,
    #[deser(default)]
    pub m59: u8,
    pub m60: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m61: u8,
    pub m62: u8,
    #[deser(default)]
    pub m63: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m64: u8,
    #[deser(default)]
    pub m65: u8,
    pub m66: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m67: u8,
    pub m68: u8,
    #[deser(default)]
    pub m69: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m70: u8,
    #[deser(default)]
    pub m71: u8,
    pub m72: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m73: u8,
    pub m74: u8,
    #[deser(default)]
    pub m75: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m76: u8,
    #[deser(default)]
    pub m77: u8,
    pub m78: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m79: u8,
    pub m80: u8,
    #[deser(default)]
    pub m81: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m82: u8,
    #[deser(default)]
    pub m83: u8,
    pub m84: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m85: u8,
    pub m86: u8,
    #[deser(default)]
    pub m87: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m88: u8,
    #[deser(default)]
    pub m89: u8,
    pub m90: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m91: u8,
    pub m92: u8,
    #[deser(default)]
    pub m93: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m94: u8,
    #[deser(default)]
    pub m95: u8,
    pub m96: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m97: u8,
    pub m98: u8,
    #[deser(default)]
    pub m99: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m100: u8,
    #[deser(default)]
    pub m101: u8,
    pub m102: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m103: u8,
    pub m104: u8,
    #[deser(default)]
    pub m105: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m106: u8,
    #[deser(default)]
    pub m107: u8,
    pub m108: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m109: u8,
    pub m110: u8,
    #[deser(default)]
    pub m111: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m112: u8,
    #[deser(default)]
    pub m113: u8,
    pub m114: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m115: u8,
    pub m116: u8,
    #[deser(default)]
    pub m117: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m118: u8,
    #[deser(default)]
    pub m119: u8,
    pub m120: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m121: u8,
    pub m122: u8,
    #[deser(default)]
    pub m123: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m124: u8,
    #[deser(default)]
    pub m125: u8,
    pub m126: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m127: u8,
    pub m128: u8,
    #[deser(default)]
    pub m129: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m130: u8,
    #[deser(default)]
    pub m131: u8,
    pub m132: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m133: u8,
    pub m134: u8,
    #[deser(default)]
    pub m135: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m136: u8,
    #[deser(default)]
    pub m137: u8,
    pub m138: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m139: u8,
    pub m140: u8,
    #[deser(default)]
    pub m141: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m142: u8,
    #[deser(default)]
    pub m143: u8,
    pub m144: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m145: u8,
    pub m146: u8,
    #[deser(default)]
    pub m147: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m148: u8,
    #[deser(default)]
    pub m149: u8,
    pub m150: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m151: u8,
    pub m152: u8,
    #[deser(default)]
    pub m153: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m154: u8,
    #[deser(default)]
    pub m155: u8,
    pub m156: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m157: u8,
    pub m158: u8,
    #[deser(default)]
    pub m159: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m160: u8,
    #[deser(default)]
    pub m161: u8,
    pub m162: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m163: u8,
    pub m164: u8,
    #[deser(default)]
    pub m165: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m166: u8,
    #[deser(default)]
    pub m167: u8,
    pub m168: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m169: u8,
    pub m170: u8,
    #[deser(default)]
    pub m171: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m172: u8,
    #[deser(default)]
    pub m173: u8,
    pub m174: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m175: u8,
    pub m176: u8,
    #[deser(default)]
    pub m177: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m178: u8,
    #[deser(default)]
    pub m179: u8,
    pub m180: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m181: u8,
    pub m182: u8,
    #[deser(default)]
    pub m183: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m184: u8,
    #[deser(default)]
    pub m185: u8,
    pub m186: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m187: u8,
    pub m188: u8,
    #[deser(default)]
    pub m189: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m190: u8,
    #[deser(default)]
    pub m191: u8,
    pub m192: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m193: u8,
    pub m194: u8,
    #[deser(default)]
    pub m195: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m196: u8,
    #[deser(default)]
    pub m197: u8,
    pub m198: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m199: u8,
    pub m200: u8,
    #[deser(default)]
    pub m201: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m202: u8,
    #[deser(default)]
    pub m203: u8,
    pub m204: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m205: u8,
    pub m206: u8,
    #[deser(default)]
    pub m207: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m208: u8,
    #[deser(default)]
    pub m209: u8,
    pub m210: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m211: u8,
    pub m212: u8,
    #[deser(default)]
    pub m213: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m214: u8,
    #[deser(default)]
    pub m215: u8,
    pub m216: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m217: u8,
    pub m218: u8,
    #[deser(default)]
    pub m219: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m220: u8,
    #[deser(default)]
    pub m221: u8,
    pub m222: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m223: u8,
    pub m224: u8,
    #[deser(default)]
    pub m225: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m226: u8,
    #[deser(default)]
    pub m227: u8,
    pub m228: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m229: u8,
    pub m230: u8,
    #[deser(default)]
    pub m231: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m232: u8,
    #[deser(default)]
    pub m233: u8,
    pub m234: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m235: u8,
    pub m236: u8,
    #[deser(default)]
    pub m237: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m238: u8,
    #[deser(default)]
    pub m239: u8,
    pub m240: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m241: u8,
    pub m242: u8,
    #[deser(default)]
    pub m243: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m244: u8,
    #[deser(default)]
    pub m245: u8,
    pub m246: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m247: u8,
    pub m248: u8,
    #[deser(default)]
    pub m249: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m250: u8,
    #[deser(default)]
    pub m251: u8,
    pub m252: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m253: u8,
    pub m254: u8,
    #[deser(default)]
    pub m255: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m256: u8,
    #[deser(default)]
    pub m257: u8,
    pub m258: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m259: u8,
    pub m260: u8,
    #[deser(default)]
    pub m261: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m262: u8,
    #[deser(default)]
    pub m263: u8,
    pub m264: u8,
    #[deser(default, skip_serializing_if = "crate::derive::skip_hash")]
    pub m265: u8,
    pub m266: u8,
    #[deser(default)]
    pub m267: u8,
    #[deser(skip_serializing_if = "crate::derive::skip_hash")]
    pub m268: u8,
    #[deser(default)]
    pub m269: u8,
}
fn lit_Many() -> Many { Many { m0: 1, m1: 1, m2: 1, m3: 1, m4: 1, m5: 1, m6: 1, m7: 1, m8: 1, m9: 1, m10: 1, m11: 1, m12: 1, m13: 1, m14: 1, m15: 1, m16: 1, m17: 1, m18: 1, m19: 1, m20: 1, m21: 1, m22: 1, m23: 1, m24: 1, m25: 1, m26: 1, m27: 1, m28: 1, m29: 1, m30: 1, m31: 1, m32: 1, m33: 1, m34: 1, m35: 1, m36: 1, m37: 1, m38: 1, m39: 1, m40: 1, m41: 1, m42: 1, m43: 1, m44: 1, m45: 1, m46: 1, m47: 1, m48: 1, m49: 1, m50: 1, m51: 1, m52: 1, m53: 1, m54: 1, m55: 1, m56: 1, m57: 1, m58: 1, m59: 1, m60: 1, m61: 1, m62: 1, m63: 1, m64: 1, m65: 1, m66: 1, m67: 1, m68: 1, m69: 1, m70: 1, m71: 1, m72: 1, m73: 1, m74: 1, m75: 1, m76: 1, m77: 1, m78: 1, m79: 1, m80: 1, m81: 1, m82: 1, m83: 1, m84: 1, m85: 1, m86: 1, m87: 1, m88: 1, m89: 1, m90: 1, m91: 1, m92: 1, m93: 1, m94: 1, m95: 1, m96: 1, m97: 1, m98: 1, m99: 1, m100: 1, m101: 1, m102: 1, m103: 1, m104: 1, m105: 1, m106: 1, m107: 1, m108: 1, m109: 1, m110: 1, m111: 1, m112: 1, m113: 1, m114: 1, m115: 1, m116: 1, m117: 1, m118: 1, m119: 1, m120: 1, m121: 1, m122: 1, m123: 1, m124: 1, m125: 1, m126: 1, m127: 1, m128: 1, m129: 1, m130: 1, m131: 1, m132: 1, m133: 1, m134: 1, m135: 1, m136: 1, m137: 1, m138: 1, m139: 1, m140: 1, m141: 1, m142: 1, m143: 1, m144: 1, m145: 1, m146: 1, m147: 1, m148: 1, m149: 1, m150: 1, m151: 1, m152: 1, m153: 1, m154: 1, m155: 1, m156: 1, m157: 1, m158: 1, m159: 1, m160: 1, m161: 1, m162: 1, m163: 1, m164: 1, m165: 1, m166: 1, m167: 1, m168: 1, m169: 1, m170: 1, m171: 1, m172: 1, m173: 1, m174: 1, m175: 1, m176: 1, m177: 1, m178: 1, m179: 1, m180: 1, m181: 1, m182: 1, m183: 1, m184: 1, m185: 1, m186: 1, m187: 1, m188: 1, m189: 1, m190: 1, m191: 1, m192: 1, m193: 1, m194: 1, m195: 1, m196: 1, m197: 1, m198: 1, m199: 1, m200: 1, m201: 1, m202: 1, m203: 1, m204: 1, m205: 1, m206: 1, m207: 1, m208: 1, m209: 1, m210: 1, m211: 1, m212: 1, m213: 1, m214: 1, m215: 1, m216: 1, m217: 1, m218: 1, m219: 1, m220: 1, m221: 1, m222: 1, m223: 1, m224: 1, m225: 1, m226: 1, m227: 1, m228: 1, m229: 1, m230: 1, m231: 1, m232: 1, m233: 1, m234: 1, m235: 1, m236: 1, m237: 1, m238: 1, m239: 1, m240: 1, m241: 1, m242: 1, m243: 1, m244: 1, m245: 1, m246: 1, m247: 1, m248: 1, m249: 1, m250: 1, m251: 1, m252: 1, m253: 1, m254: 1, m255: 1, m256: 1, m257: 1, m258: 1, m259: 1, m260: 1, m261: 1, m262: 1, m263: 1, m264: 1, m265: 1, m266: 1, m267: 1, m268: 1, m269: 1 } }
impl Strukt for Many {
    fn lit() -> Self { lit_Many() }
    fn known(k: &str) -> bool { match k { "m0" => true, "m1" => true, "m2" => true, "m3" => true, "m4" => true, "m5" => true, "m6" => true, "m7" => true, "m8" => true, "m9" => true, "m10" => true, "m11" => true, "m12" => true, "m13" => true, "m14" => true, "m15" => true, "m16" => true, "m17" => true, "m18" => true, "m19" => true, "m20" => true, "m21" => true, "m22" => true, "m23" => true, "m24" => true, "m25" => true, "m26" => true, "m27" => true, "m28" => true, "m29" => true, "m30" => true, "m31" => true, "m32" => true, "m33" => true, "m34" => true, "m35" => true, "m36" => true, "m37" => true, "m38" => true, "m39" => true, "m40" => true, "m41" => true, "m42" => true, "m43" => true, "m44" => true, "m45" => true, "m46" => true, "m47" => true, "m48" => true, "m49" => true, "m50" => true, "m51" => true, "m52" => true, "m53" => true, "m54" => true, "m55" => true, "m56" => true, "m57" => true, "m58" => true, "m59" => true, "m60" => true, "m61" => true, "m62" => true, "m63" => true, "m64" => true, "m65" => true, "m66" => true, "m67" => true, "m68" => true, "m69" => true, "m70" => true, "m71" => true, "m72" => true, "m73" => true, "m74" => true, "m75" => true, "m76" => true, "m77" => true, "m78" => true, "m79" => true, "m80" => true, "m81" => true, "m82" => true, "m83" => true, "m84" => true, "m85" => true, "m86" => true, "m87" => true, "m88" => true, "m89" => true, "m90" => true, "m91" => true, "m92" => true, "m93" => true, "m94" => true, "m95" => true, "m96" => true, "m97" => true, "m98" => true, "m99" => true, "m100" => true, "m101" => true, "m102" => true, "m103" => true, "m104" => true, "m105" => true, "m106" => true, "m107" => true, "m108" => true, "m109" => true, "m110" => true, "m111" => true, "m112" => true, "m113" => true, "m114" => true, "m115" => true, "m116" => true, "m117" => true, "m118" => true, "m119" => true, "m120" => true, "m121" => true, "m122" => true, "m123" => true, "m124" => true, "m125" => true, "m126" => true, "m127" => true, "m128" => true, "m129" => true, "m130" => true, "m131" => true, "m132" => true, "m133" => true, "m134" => true, "m135" => true, "m136" => true, "m137" => true, "m138" => true, "m139" => true, "m140" => true, "m141" => true, "m142" => true, "m143" => true, "m144" => true, "m145" => true, "m146" => true, "m147" => true, "m148" => true, "m149" => true, "m150" => true, "m151" => true, "m152" => true, "m153" => true, "m154" => true, "m155" => true, "m156" => true, "m157" => true, "m158" => true, "m159" => true, "m160" => true, "m161" => true, "m162" => true, "m163" => true, "m164" => true, "m165" => true, "m166" => true, "m167" => true, "m168" => true, "m169" => true, "m170" => true, "m171" => true, "m172" => true, "m173" => true, "m174" => true, "m175" => true, "m176" => true, "m177" => true, "m178" => true, "m179" => true, "m180" => true, "m181" => true, "m182" => true, "m183" => true, "m184" => true, "m185" => true, "m186" => true, "m187" => true, "m188" => true, "m189" => true, "m190" => true, "m191" => true, "m192" => true, "m193" => true, "m194" => true, "m195" => true, "m196" => true, "m197" => true, "m198" => true, "m199" => true, "m200" => true, "m201" => true, "m202" => true, "m203" => true, "m204" => true, "m205" => true, "m206" => true, "m207" => true, "m208" => true, "m209" => true, "m210" => true, "m211" => true, "m212" => true, "m213" => true, "m214" => true, "m215" => true, "m216" => true, "m217" => true, "m218" => true, "m219" => true, "m220" => true, "m221" => true, "m222" => true, "m223" => true, "m224" => true, "m225" => true, "m226" => true, "m227" => true, "m228" => true, "m229" => true, "m230" => true, "m231" => true, "m232" => true, "m233" => true, "m234" => true, "m235" => true, "m236" => true, "m237" => true, "m238" => true, "m239" => true, "m240" => true, "m241" => true, "m242" => true, "m243" => true, "m244" => true, "m245" => true, "m246" => true, "m247" => true, "m248" => true, "m249" => true, "m250" => true, "m251" => true, "m252" => true, "m253" => true, "m254" => true, "m255" => true, "m256" => true, "m257" => true, "m258" => true, "m259" => true, "m260" => true, "m261" => true, "m262" => true, "m263" => true, "m264" => true, "m265" => true, "m266" => true, "m267" => true, "m268" => true, "m269" => true,  _ => false } }
    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec!["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "m21", "m22", "m23", "m24", "m25", "m26", "m27", "m28", "m29", "m30", "m31", "m32", "m33", "m34", "m35", "m36", "m37", "m38", "m39", "m40", "m41", "m42", "m43", "m44", "m45", "m46", "m47", "m48", "m49", "m50", "m51", "m52", "m53", "m54", "m55", "m56", "m57", "m58", "m59", "m60", "m61", "m62", "m63", "m64", "m65", "m66", "m67", "m68", "m69", "m70", "m71", "m72", "m73", "m74", "m75", "m76", "m77", "m78", "m79", "m80", "m81", "m82", "m83", "m84", "m85", "m86", "m87", "m88", "m89", "m90", "m91", "m92", "m93", "m94", "m95", "m96", "m97", "m98", "m99", "m100", "m101", "m102", "m103", "m104", "m105", "m106", "m107", "m108", "m109", "m110", "m111", "m112", "m113", "m114", "m115", "m116", "m117", "m118", "m119", "m120", "m121", "m122", "m123", "m124", "m125", "m126", "m127", "m128", "m129", "m130", "m131", "m132", "m133", "m134", "m135", "m136", "m137", "m138", "m139", "m140", "m141", "m142", "m143", "m144", "m145", "m146", "m147", "m148", "m149", "m150", "m151", "m152", "m153", "m154", "m155", "m156", "m157", "m158", "m159", "m160", "m161", "m162", "m163", "m164", "m165", "m166", "m167", "m168", "m169", "m170", "m171", "m172", "m173", "m174", "m175", "m176", "m177", "m178", "m179", "m180", "m181", "m182", "m183", "m184", "m185", "m186", "m187", "m188", "m189", "m190", "m191", "m192", "m193", "m194", "m195", "m196", "m197", "m198", "m199", "m200", "m201", "m202", "m203", "m204", "m205", "m206", "m207", "m208", "m209", "m210", "m211", "m212", "m213", "m214", "m215", "m216", "m217", "m218", "m219", "m220", "m221", "m222", "m223", "m224", "m225", "m226", "m227", "m228", "m229", "m230", "m231", "m232", "m233", "m234", "m235", "m236", "m237", "m238", "m239", "m240", "m241", "m242", "m243", "m244", "m245", "m246", "m247", "m248", "m249", "m250", "m251", "m252", "m253", "m254", "m255", "m256", "m257", "m258", "m259", "m260", "m261", "m262", "m263", "m264", "m265", "m266", "m267", "m268", "m269"];  v }
    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { "m0" => <u8 as Model>::gen(r, d), "m1" => <u8 as Model>::gen(r, d), "m2" => <u8 as Model>::gen(r, d), "m3" => <u8 as Model>::gen(r, d), "m4" => <u8 as Model>::gen(r, d), "m5" => <u8 as Model>::gen(r, d), "m6" => <u8 as Model>::gen(r, d), "m7" => <u8 as Model>::gen(r, d), "m8" => <u8 as Model>::gen(r, d), "m9" => <u8 as Model>::gen(r, d), "m10" => <u8 as Model>::gen(r, d), "m11" => <u8 as Model>::gen(r, d), "m12" => <u8 as Model>::gen(r, d), "m13" => <u8 as Model>::gen(r, d), "m14" => <u8 as Model>::gen(r, d), "m15" => <u8 as Model>::gen(r, d), "m16" => <u8 as Model>::gen(r, d), "m17" => <u8 as Model>::gen(r, d), "m18" => <u8 as Model>::gen(r, d), "m19" => <u8 as Model>::gen(r, d), "m20" => <u8 as Model>::gen(r, d), "m21" => <u8 as Model>::gen(r, d), "m22" => <u8 as Model>::gen(r, d), "m23" => <u8 as Model>::gen(r, d), "m24" => <u8 as Model>::gen(r, d), "m25" => <u8 as Model>::gen(r, d), "m26" => <u8 as Model>::gen(r, d), "m27" => <u8 as Model>::gen(r, d), "m28" => <u8 as Model>::gen(r, d), "m29" => <u8 as Model>::gen(r, d), "m30" => <u8 as Model>::gen(r, d), "m31" => <u8 as Model>::gen(r, d), "m32" => <u8 as Model>::gen(r, d), "m33" => <u8 as Model>::gen(r, d), "m34" => <u8 as Model>::gen(r, d), "m35" => <u8 as Model>::gen(r, d), "m36" => <u8 as Model>::gen(r, d), "m37" => <u8 as Model>::gen(r, d), "m38" => <u8 as Model>::gen(r, d), "m39" => <u8 as Model>::gen(r, d), "m40" => <u8 as Model>::gen(r, d), "m41" => <u8 as Model>::gen(r, d), "m42" => <u8 as Model>::gen(r, d), "m43" => <u8 as Model>::gen(r, d), "m44" => <u8 as Model>::gen(r, d), "m45" => <u8 as Model>::gen(r, d), "m46" => <u8 as Model>::gen(r, d), "m47" => <u8 as Model>::gen(r, d), "m48" => <u8 as Model>::gen(r, d), "m49" => <u8 as Model>::gen(r, d), "m50" => <u8 as Model>::gen(r, d), "m51" => <u8 as Model>::gen(r, d), "m52" => <u8 as Model>::gen(r, d), "m53" => <u8 as Model>::gen(r, d), "m54" => <u8 as Model>::gen(r, d), "m55" => <u8 as Model>::gen(r, d), "m56" => <u8 as Model>::gen(r, d), "m57" => <u8 as Model>::gen(r, d), "m58" => <u8 as Model>::gen(r, d), "m59" => <u8 as Model>::gen(r, d), "m60" => <u8 as Model>::gen(r, d), "m61" => <u8 as Model>::gen(r, d), "m62" => <u8 as Model>::gen(r, d), "m63" => <u8 as Model>::gen(r, d), "m64" => <u8 as Model>::gen(r, d), "m65" => <u8 as Model>::gen(r, d), "m66" => <u8 as Model>::gen(r, d), "m67" => <u8 as Model>::gen(r, d), "m68" => <u8 as Model>::gen(r, d), "m69" => <u8 as Model>::gen(r, d), "m70" => <u8 as Model>::gen(r, d), "m71" => <u8 as Model>::gen(r, d), "m72" => <u8 as Model>::gen(r, d), "m73" => <u8 as Model>::gen(r, d), "m74" => <u8 as Model>::gen(r, d), "m75" => <u8 as Model>::gen(r, d), "m76" => <u8 as Model>::gen(r, d), "m77" => <u8 as Model>::gen(r, d), "m78" => <u8 as Model>::gen(r, d), "m79" => <u8 as Model>::gen(r, d), "m80" => <u8 as Model>::gen(r, d), "m81" => <u8 as Model>::gen(r, d), "m82" => <u8 as Model>::gen(r, d), "m83" => <u8 as Model>::gen(r, d), "m84" => <u8 as Model>::gen(r, d), "m85" => <u8 as Model>::gen(r, d), "m86" => <u8 as Model>::gen(r, d), "m87" => <u8 as Model>::gen(r, d), "m88" => <u8 as Model>::gen(r, d), "m89" => <u8 as Model>::gen(r, d), "m90" => <u8 as Model>::gen(r, d), "m91" => <u8 as Model>::gen(r, d), "m92" => <u8 as Model>::gen(r, d), "m93" => <u8 as Model>::gen(r, d), "m94" => <u8 as Model>::gen(r, d), "m95" => <u8 as Model>::gen(r, d), "m96" => <u8 as Model>::gen(r, d), "m97" => <u8 as Model>::gen(r, d), "m98" => <u8 as Model>::gen(r, d), "m99" => <u8 as Model>::gen(r, d), "m100" => <u8 as Model>::gen(r, d), "m101" => <u8 as Model>::gen(r, d), "m102" => <u8 as Model>::gen(r, d), "m103" => <u8 as Model>::gen(r, d), "m104" => <u8 as Model>::gen(r, d), "m105" => <u8 as Model>::gen(r, d), "m106" => <u8 as Model>::gen(r, d), "m107" => <u8 as Model>::gen(r, d), "m108" => <u8 as Model>::gen(r, d), "m109" => <u8 as Model>::gen(r, d), "m110" => <u8 as Model>::gen(r, d), "m111" => <u8 as Model>::gen(r, d), "m112" => <u8 as Model>::gen(r, d), "m113" => <u8 as Model>::gen(r, d), "m114" => <u8 as Model>::gen(r, d), "m115" => <u8 as Model>::gen(r, d), "m116" => <u8 as Model>::gen(r, d), "m117" => <u8 as Model>::gen(r, d), "m118" => <u8 as Model>::gen(r, d), "m119" => <u8 as Model>::gen(r, d), "m120" => <u8 as Model>::gen(r, d), "m121" => <u8 as Model>::gen(r, d), "m122" => <u8 as Model>::gen(r, d), "m123" => <u8 as Model>::gen(r, d), "m124" => <u8 as Model>::gen(r, d), "m125" => <u8 as Model>::gen(r, d), "m126" => <u8 as Model>::gen(r, d), "m127" => <u8 as Model>::gen(r, d), "m128" => <u8 as Model>::gen(r, d), "m129" => <u8 as Model>::gen(r, d), "m130" => <u8 as Model>::gen(r, d), "m131" => <u8 as Model>::gen(r, d), "m132" => <u8 as Model>::gen(r, d), "m133" => <u8 as Model>::gen(r, d), "m134" => <u8 as Model>::gen(r, d), "m135" => <u8 as Model>::gen(r, d), "m136" => <u8 as Model>::gen(r, d), "m137" => <u8 as Model>::gen(r, d), "m138" => <u8 as Model>::gen(r, d), "m139" => <u8 as Model>::gen(r, d), "m140" => <u8 as Model>::gen(r, d), "m141" => <u8 as Model>::gen(r, d), "m142" => <u8 as Model>::gen(r, d), "m143" => <u8 as Model>::gen(r, d), "m144" => <u8 as Model>::gen(r, d), "m145" => <u8 as Model>::gen(r, d), "m146" => <u8 as Model>::gen(r, d), "m147" => <u8 as Model>::gen(r, d), "m148" => <u8 as Model>::gen(r, d), "m149" => <u8 as Model>::gen(r, d), "m150" => <u8 as Model>::gen(r, d), "m151" => <u8 as Model>::gen(r, d), "m152" => <u8 as Model>::gen(r, d), "m153" => <u8 as Model>::gen(r, d), "m154" => <u8 as Model>::gen(r, d), "m155" => <u8 as Model>::gen(r, d), "m156" => <u8 as Model>::gen(r, d), "m157" => <u8 as Model>::gen(r, d), "m158" => <u8 as Model>::gen(r, d), "m159" => <u8 as Model>::gen(r, d), "m160" => <u8 as Model>::gen(r, d), "m161" => <u8 as Model>::gen(r, d), "m162" => <u8 as Model>::gen(r, d), "m163" => <u8 as Model>::gen(r, d), "m164" => <u8 as Model>::gen(r, d), "m165" => <u8 as Model>::gen(r, d), "m166" => <u8 as Model>::gen(r, d), "m167" => <u8 as Model>::gen(r, d), "m168" => <u8 as Model>::gen(r, d), "m169" => <u8 as Model>::gen(r, d), "m170" => <u8 as Model>::gen(r, d), "m171" => <u8 as Model>::gen(r, d), "m172" => <u8 as Model>::gen(r, d), "m173" => <u8 as Model>::gen(r, d), "m174" => <u8 as Model>::gen(r, d), "m175" => <u8 as Model>::gen(r, d), "m176" => <u8 as Model>::gen(r, d), "m177" => <u8 as Model>::gen(r, d), "m178" => <u8 as Model>::gen(r, d), "m179" => <u8 as Model>::gen(r, d), "m180" => <u8 as Model>::gen(r, d), "m181" => <u8 as Model>::gen(r, d), "m182" => <u8 as Model>::gen(r, d), "m183" => <u8 as Model>::gen(r, d), "m184" => <u8 as Model>::gen(r, d), "m185" => <u8 as Model>::gen(r, d), "m186" => <u8 as Model>::gen(r, d), "m187" => <u8 as Model>::gen(r, d), "m188" => <u8 as Model>::gen(r, d), "m189" => <u8 as Model>::gen(r, d), "m190" => <u8 as Model>::gen(r, d), "m191" => <u8 as Model>::gen(r, d), "m192" => <u8 as Model>::gen(r, d), "m193" => <u8 as Model>::gen(r, d), "m194" => <u8 as Model>::gen(r, d), "m195" => <u8 as Model>::gen(r, d), "m196" => <u8 as Model>::gen(r, d), "m197" => <u8 as Model>::gen(r, d), "m198" => <u8 as Model>::gen(r, d), "m199" => <u8 as Model>::gen(r, d), "m200" => <u8 as Model>::gen(r, d), "m201" => <u8 as Model>::gen(r, d), "m202" => <u8 as Model>::gen(r, d), "m203" => <u8 as Model>::gen(r, d), "m204" => <u8 as Model>::gen(r, d), "m205" => <u8 as Model>::gen(r, d), "m206" => <u8 as Model>::gen(r, d), "m207" => <u8 as Model>::gen(r, d), "m208" => <u8 as Model>::gen(r, d), "m209" => <u8 as Model>::gen(r, d), "m210" => <u8 as Model>::gen(r, d), "m211" => <u8 as Model>::gen(r, d), "m212" => <u8 as Model>::gen(r, d), "m213" => <u8 as Model>::gen(r, d), "m214" => <u8 as Model>::gen(r, d), "m215" => <u8 as Model>::gen(r, d), "m216" => <u8 as Model>::gen(r, d), "m217" => <u8 as Model>::gen(r, d), "m218" => <u8 as Model>::gen(r, d), "m219" => <u8 as Model>::gen(r, d), "m220" => <u8 as Model>::gen(r, d), "m221" => <u8 as Model>::gen(r, d), "m222" => <u8 as Model>::gen(r, d), "m223" => <u8 as Model>::gen(r, d), "m224" => <u8 as Model>::gen(r, d), "m225" => <u8 as Model>::gen(r, d), "m226" => <u8 as Model>::gen(r, d), "m227" => <u8 as Model>::gen(r, d), "m228" => <u8 as Model>::gen(r, d), "m229" => <u8 as Model>::gen(r, d), "m230" => <u8 as Model>::gen(r, d), "m231" => <u8 as Model>::gen(r, d), "m232" => <u8 as Model>::gen(r, d), "m233" => <u8 as Model>::gen(r, d), "m234" => <u8 as Model>::gen(r, d), "m235" => <u8 as Model>::gen(r, d), "m236" => <u8 as Model>::gen(r, d), "m237" => <u8 as Model>::gen(r, d), "m238" => <u8 as Model>::gen(r, d), "m239" => <u8 as Model>::gen(r, d), "m240" => <u8 as Model>::gen(r, d), "m241" => <u8 as Model>::gen(r, d), "m242" => <u8 as Model>::gen(r, d), "m243" => <u8 as Model>::gen(r, d), "m244" => <u8 as Model>::gen(r, d), "m245" => <u8 as Model>::gen(r, d), "m246" => <u8 as Model>::gen(r, d), "m247" => <u8 as Model>::gen(r, d), "m248" => <u8 as Model>::gen(r, d), "m249" => <u8 as Model>::gen(r, d), "m250" => <u8 as Model>::gen(r, d), "m251" => <u8 as Model>::gen(r, d), "m252" => <u8 as Model>::gen(r, d), "m253" => <u8 as Model>::gen(r, d), "m254" => <u8 as Model>::gen(r, d), "m255" => <u8 as Model>::gen(r, d), "m256" => <u8 as Model>::gen(r, d), "m257" => <u8 as Model>::gen(r, d), "m258" => <u8 as Model>::gen(r, d), "m259" => <u8 as Model>::gen(r, d), "m260" => <u8 as Model>::gen(r, d), "m261" => <u8 as Model>::gen(r, d), "m262" => <u8 as Model>::gen(r, d), "m263" => <u8 as Model>::gen(r, d), "m264" => <u8 as Model>::gen(r, d), "m265" => <u8 as Model>::gen(r, d), "m266" => <u8 as Model>::gen(r, d), "m267" => <u8 as Model>::gen(r, d), "m268" => <u8 as Model>::gen(r, d), "m269" => <u8 as Model>::gen(r, d),  _ => {  unreachable!() } } }
    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {
        let mut m = Miss::default();
        let mut v0: Option<u8> = None;
        let mut v1: Option<u8> = None;
        let mut v2: Option<u8> = None;
        let mut v3: Option<u8> = None;
        let mut v4: Option<u8> = None;
        let mut v5: Option<u8> = None;
        let mut v6: Option<u8> = None;
        let mut v7: Option<u8> = None;
        let mut v8: Option<u8> = None;
        let mut v9: Option<u8> = None;
        let mut v10: Option<u8> = None;
        let mut v11: Option<u8> = None;
        let mut v12: Option<u8> = None;
        let mut v13: Option<u8> = None;
        let mut v14: Option<u8> = None;
        let mut v15: Option<u8> = None;
        let mut v16: Option<u8> = None;
        let mut v17: Option<u8> = None;
        let mut v18: Option<u8> = None;
        let mut v19: Option<u8> = None;
        let mut v20: Option<u8> = None;
        let mut v21: Option<u8> = None;
        let mut v22: Option<u8> = None;
        let mut v23: Option<u8> = None;
        let mut v24: Option<u8> = None;
        let mut v25: Option<u8> = None;
        let mut v26: Option<u8> = None;
        let mut v27: Option<u8> = None;
        let mut v28: Option<u8> = None;
        let mut v29: Option<u8> = None;
        let mut v30: Option<u8> = None;
        let mut v31: Option<u8> = None;
        let mut v32: Option<u8> = None;
        let mut v33: Option<u8> = None;
        let mut v34: Option<u8> = None;
        let mut v35: Option<u8> = None;
        let mut v36: Option<u8> = None;
        let mut v37: Option<u8> = None;
        let mut v38: Option<u8> = None;
        let mut v39: Option<u8> = None;
        let mut v40: Option<u8> = None;
        let mut v41: Option<u8> = None;
        let mut v42: Option<u8> = None;
        let mut v43: Option<u8> = None;
        let mut v44: Option<u8> = None;
        let mut v45: Option<u8> = None;
        let mut v46: Option<u8> = None;
        let mut v47: Option<u8> = None;
        let mut v48: Option<u8> = None;
        let mut v49: Option<u8> = None;
        let mut v50: Option<u8> = None;
        let mut v51: Option<u8> = None;
        let mut v52: Option<u8> = None;
        let mut v53: Option<u8> = None;
        let mut v54: Option<u8> = None;
        let mut v55: Option<u8> = None;
        let mut v56: Option<u8> = None;
        let mut v57: Option<u8> = None;
        let mut v58: Option<u8> = None;
        let mut v59: Option<u8> = None;
        let mut v60: Option<u8> = None;
        let mut v61: Option<u8> = None;
        let mut v62: Option<u8> = None;
        let mut v63: Option<u8> = None;
        let mut v64: Option<u8> = None;
        let mut v65: Option<u8> = None;
        let mut v66: Option<u8> = None;
        let mut v67: Option<u8> = None;
        let mut v68: Option<u8> = None;
        let mut v69: Option<u8> = None;
        let mut v70: Option<u8> = None;
        let mut v71: Option<u8> = None;
        let mut v72: Option<u8> = None;
        let mut v73: Option<u8> = None;
        let mut v74: Option<u8> = None;
        let mut v75: Option<u8> = None;
        let mut v76: Option<u8> = None;
        let mut v77: Option<u8> = None;
        let mut v78: Option<u8> = None;
        let mut v79: Option<u8> = None;
        let mut v80: Option<u8> = None;
        let mut v81: Option<u8> = None;
        let mut v82: Option<u8> = None;
        let mut v83: Option<u8> = None;
        let mut v84: Option<u8> = None;
        let mut v85: Option<u8> = None;
        let mut v86: Option<u8> = None;
        let mut v87: Option<u8> = None;
        let mut v88: Option<u8> = None;
        let mut v89: Option<u8> = None;
        let mut v90: Option<u8> = None;
        let mut v91: Option<u8> = None;
        let mut v92: Option<u8> = None;
        let mut v93: Option<u8> = None;
        let mut v94: Option<u8> = None;
        let mut v95: Option<u8> = None;
        let mut v96: Option<u8> = None;
        let mut v97: Option<u8> = None;
        let mut v98: Option<u8> = None;
        let mut v99: Option<u8> = None;
        let mut v100: Option<u8> = None;
        let mut v101: Option<u8> = None;
        let mut v102: Option<u8> = None;
        let mut v103: Option<u8> = None;
        let mut v104: Option<u8> = None;
        let mut v105: Option<u8> = None;
        let mut v106: Option<u8> = None;
        let mut v107: Option<u8> = None;
        let mut v108: Option<u8> = None;
        let mut v109: Option<u8> = None;
        let mut v110: Option<u8> = None;
        let mut v111: Option<u8> = None;
        let mut v112: Option<u8> = None;
        let mut v113: Option<u8> = None;
        let mut v114: Option<u8> = None;
        let mut v115: Option<u8> = None;
        let mut v116: Option<u8> = None;
        let mut v117: Option<u8> = None;
        let mut v118: Option<u8> = None;
        let mut v119: Option<u8> = None;
        let mut v120: Option<u8> = None;
        let mut v121: Option<u8> = None;
        let mut v122: Option<u8> = None;
        let mut v123: Option<u8> = None;
        let mut v124: Option<u8> = None;
        let mut v125: Option<u8> = None;
        let mut v126: Option<u8> = None;
        let mut v127: Option<u8> = None;
        let mut v128: Option<u8> = None;
        let mut v129: Option<u8> = None;
        let mut v130: Option<u8> = None;
        let mut v131: Option<u8> = None;
        let mut v132: Option<u8> = None;
        let mut v133: Option<u8> = None;
        let mut v134: Option<u8> = None;
        let mut v135: Option<u8> = None;
        let mut v136: Option<u8> = None;
        let mut v137: Option<u8> = None;
        let mut v138: Option<u8> = None;
        let mut v139: Option<u8> = None;
        let mut v140: Option<u8> = None;
        let mut v141: Option<u8> = None;
        let mut v142: Option<u8> = None;
        let mut v143: Option<u8> = None;
        let mut v144: Option<u8> = None;
        let mut v145: Option<u8> = None;
        let mut v146: Option<u8> = None;
        let mut v147: Option<u8> = None;
        let mut v148: Option<u8> = None;
        let mut v149: Option<u8> = None;
        let mut v150: Option<u8> = None;
        let mut v151: Option<u8> = None;
        let mut v152: Option<u8> = None;
        let mut v153: Option<u8> = None;
        let mut v154: Option<u8> = None;
        let mut v155: Option<u8> = None;
        let mut v156: Option<u8> = None;
        let mut v157: Option<u8> = None;
        let mut v158: Option<u8> = None;
        let mut v159: Option<u8> = None;
        let mut v160: Option<u8> = None;
        let mut v161: Option<u8> = None;
        let mut v162: Option<u8> = None;
        let mut v163: Option<u8> = None;
        let mut v164: Option<u8> = None;
        let mut v165: Option<u8> = None;
        let mut v166: Option<u8> = None;
        let mut v167: Option<u8> = None;
        let mut v168: Option<u8> = None;
        let mut v169: Option<u8> = None;
        let mut v170: Option<u8> = None;
        let mut v171: Option<u8> = None;
        let mut v172: Option<u8> = None;
        let mut v173: Option<u8> = None;
        let mut v174: Option<u8> = None;
        let mut v175: Option<u8> = None;
        let mut v176: Option<u8> = None;
        let mut v177: Option<u8> = None;
        let mut v178: Option<u8> = None;
        let mut v179: Option<u8> = None;
        let mut v180: Option<u8> = None;
        let mut v181: Option<u8> = None;
        let mut v182: Option<u8> = None;
        let mut v183: Option<u8> = None;
        let mut v184: Option<u8> = None;
        let mut v185: Option<u8> = None;
        let mut v186: Option<u8> = None;
        let mut v187: Option<u8> = None;
        let mut v188: Option<u8> = None;
        let mut v189: Option<u8> = None;
        let mut v190: Option<u8> = None;
        let mut v191: Option<u8> = None;
        let mut v192: Option<u8> = None;
        let mut v193: Option<u8> = None;
        let mut v194: Option<u8> = None;
        let mut v195: Option<u8> = None;
        let mut v196: Option<u8> = None;
        let mut v197: Option<u8> = None;
        let mut v198: Option<u8> = None;
        let mut v199: Option<u8> = None;
        let mut v200: Option<u8> = None;
        let mut v201: Option<u8> = None;
        let mut v202: Option<u8> = None;
        let mut v203: Option<u8> = None;
        let mut v204: Option<u8> = None;
        let mut v205: Option<u8> = None;
        let mut v206: Option<u8> = None;
        let mut v207: Option<u8> = None;
        let mut v208: Option<u8> = None;
        let mut v209: Option<u8> = None;
        let mut v210: Option<u8> = None;
        let mut v211: Option<u8> = None;
        let mut v212: Option<u8> = None;
        let mut v213: Option<u8> = None;
        let mut v214: Option<u8> = None;
        let mut v215: Option<u8> = None;
        let mut v216: Option<u8> = None;
        let mut v217: Option<u8> = None;
        let mut v218: Option<u8> = None;
        let mut v219: Option<u8> = None;
        let mut v220: Option<u8> = None;
        let mut v221: Option<u8> = None;
        let mut v222: Option<u8> = None;
        let mut v223: Option<u8> = None;
        let mut v224: Option<u8> = None;
        let mut v225: Option<u8> = None;
        let mut v226: Option<u8> = None;
        let mut v227: Option<u8> = None;
        let mut v228: Option<u8> = None;
        let mut v229: Option<u8> = None;
        let mut v230: Option<u8> = None;
        let mut v231: Option<u8> = None;
        let mut v232: Option<u8> = None;
        let mut v233: Option<u8> = None;
        let mut v234: Option<u8> = None;
        let mut v235: Option<u8> = None;
        let mut v236: Option<u8> = None;
        let mut v237: Option<u8> = None;
        let mut v238: Option<u8> = None;
        let mut v239: Option<u8> = None;
        let mut v240: Option<u8> = None;
        let mut v241: Option<u8> = None;
        let mut v242: Option<u8> = None;
        let mut v243: Option<u8> = None;
        let mut v244: Option<u8> = None;
        let mut v245: Option<u8> = None;
        let mut v246: Option<u8> = None;
        let mut v247: Option<u8> = None;
        let mut v248: Option<u8> = None;
        let mut v249: Option<u8> = None;
        let mut v250: Option<u8> = None;
        let mut v251: Option<u8> = None;
        let mut v252: Option<u8> = None;
        let mut v253: Option<u8> = None;
        let mut v254: Option<u8> = None;
        let mut v255: Option<u8> = None;
        let mut v256: Option<u8> = None;
        let mut v257: Option<u8> = None;
        let mut v258: Option<u8> = None;
        let mut v259: Option<u8> = None;
        let mut v260: Option<u8> = None;
        let mut v261: Option<u8> = None;
        let mut v262: Option<u8> = None;
        let mut v263: Option<u8> = None;
        let mut v264: Option<u8> = None;
        let mut v265: Option<u8> = None;
        let mut v266: Option<u8> = None;
        let mut v267: Option<u8> = None;
        let mut v268: Option<u8> = None;
        let mut v269: Option<u8> = None;
        for (k, v) in e {
            match k.as_str() {
                "m0" => match <u8 as Model>::model(v) { Ok(x) => v0 = Some(x), Err(_) => m.bad = true },
                "m1" => match <u8 as Model>::model(v) { Ok(x) => v1 = Some(x), Err(_) => m.bad = true },
                "m2" => match <u8 as Model>::model(v) { Ok(x) => v2 = Some(x), Err(_) => m.bad = true },
                "m3" => match <u8 as Model>::model(v) { Ok(x) => v3 = Some(x), Err(_) => m.bad = true },
                "m4" => match <u8 as Model>::model(v) { Ok(x) => v4 = Some(x), Err(_) => m.bad = true },
                "m5" => match <u8 as Model>::model(v) { Ok(x) => v5 = Some(x), Err(_) => m.bad = true },
                "m6" => match <u8 as Model>::model(v) { Ok(x) => v6 = Some(x), Err(_) => m.bad = true },
                "m7" => match <u8 as Model>::model(v) { Ok(x) => v7 = Some(x), Err(_) => m.bad = true },
                "m8" => match <u8 as Model>::model(v) { Ok(x) => v8 = Some(x), Err(_) => m.bad = true },
                "m9" => match <u8 as Model>::model(v) { Ok(x) => v9 = Some(x), Err(_) => m.bad = true },
                "m10" => match <u8 as Model>::model(v) { Ok(x) => v10 = Some(x), Err(_) => m.bad = true },
                "m11" => match <u8 as Model>::model(v) { Ok(x) => v11 = Some(x), Err(_) => m.bad = true },
                "m12" => match <u8 as Model>::model(v) { Ok(x) => v12 = Some(x), Err(_) => m.bad = true },
                "m13" => match <u8 as Model>::model(v) { Ok(x) => v13 = Some(x), Err(_) => m.bad = true },
                "m14" => match <u8 as Model>::model(v) { Ok(x) => v14 = Some(x), Err(_) => m.bad = true },
                "m15" => match <u8 as Model>::model(v) { Ok(x) => v15 = Some(x), Err(_) => m.bad = true },
                "m16" => match <u8 as Model>::model(v) { Ok(x) => v16 = Some(x), Err(_) => m.bad = true },
                "m17" => match <u8 as Model>::model(v) { Ok(x) => v17 = Some(x), Err(_) => m.bad = true },
                "m18" => match <u8 as Model>::model(v) { Ok(x) => v18 = Some(x), Err(_) => m.bad = true },
                "m19" => match <u8 as Model>::model(v) { Ok(x) => v19 = Some(x), Err(_) => m.bad = true },
                "m20" => match <u8 as Model>::model(v) { Ok(x) => v20 = Some(x), Err(_) => m.bad = true },
                "m21" => match <u8 as Model>::model(v) { Ok(x) => v21 = Some(x), Err(_) => m.bad = true },
                "m22" => match <u8 as Model>::model(v) { Ok(x) => v22 = Some(x), Err(_) => m.bad = true },
                "m23" => match <u8 as Model>::model(v) { Ok(x) => v23 = Some(x), Err(_) => m.bad = true },
                "m24" => match <u8 as Model>::model(v) { Ok(x) => v24 = Some(x), Err(_) => m.bad = true },
                "m25" => match <u8 as Model>::model(v) { Ok(x) => v25 = Some(x), Err(_) => m.bad = true },
                "m26" => match <u8 as Model>::model(v) { Ok(x) => v26 = Some(x), Err(_) => m.bad = true },
                "m27" => match <u8 as Model>::model(v) { Ok(x) => v27 = Some(x), Err(_) => m.bad = true },
                "m28" => match <u8 as Model>::model(v) { Ok(x) => v28 = Some(x), Err(_) => m.bad = true },
                "m29" => match <u8 as Model>::model(v) { Ok(x) => v29 = Some(x), Err(_) => m.bad = true },
                "m30" => match <u8 as Model>::model(v) { Ok(x) => v30 = Some(x), Err(_) => m.bad = true },
                "m31" => match <u8 as Model>::model(v) { Ok(x) => v31 = Some(x), Err(_) => m.bad = true },
                "m32" => match <u8 as Model>::model(v) { Ok(x) => v32 = Some(x), Err(_) => m.bad = true },
                "m33" => match <u8 as Model>::model(v) { Ok(x) => v33 = Some(x), Err(_) => m.bad = true },
                "m34" => match <u8 as Model>::model(v) { Ok(x) => v34 = Some(x), Err(_) => m.bad = true },
                "m35" => match <u8 as Model>::model(v) { Ok(x) => v35 = Some(x), Err(_) => m.bad = true },
                "m36" => match <u8 as Model>::model(v) { Ok(x) => v36 = Some(x), Err(_) => m.bad = true },
                "m37" => match <u8 as Model>::model(v) { Ok(x) => v37 = Some(x), Err(_) => m.bad = true },
                "m38" => match <u8 as Model>::model(v) { Ok(x) => v38 = Some(x), Err(_) => m.bad = true },
                "m39" => match <u8 as Model>::model(v) { Ok(x) => v39 = Some(x), Err(_) => m.bad = true },
                "m40" => match <u8 as Model>::model(v) { Ok(x) => v40 = Some(x), Err(_) => m.bad = true },
                "m41" => match <u8 as Model>::model(v) { Ok(x) => v41 = Some(x), Err(_) => m.bad = true },
                "m42" => match <u8 as Model>::model(v) { Ok(x) => v42 = Some(x), Err(_) => m.bad = true },
                "m43" => match <u8 as Model>::model(v) { Ok(x) => v43 = Some(x), Err(_) => m.bad = true },
                "m44" => match <u8 as Model>::model(v) { Ok(x) => v44 = Some(x), Err(_) => m.bad = true },
                "m45" => match <u8 as Model>::model(v) { Ok(x) => v45 = Some(x), Err(_) => m.bad = true },
                "m46" => match <u8 as Model>::model(v) { Ok(x) => v46 = Some(x), Err(_) => m.bad = true },
                "m47" => match <u8 as Model>::model(v) { Ok(x) => v47 = Some(x), Err(_) => m.bad = true },
                "m48" => match <u8 as Model>::model(v) { Ok(x) => v48 = Some(x), Err(_) => m.bad = true },
                "m49" => match <u8 as Model>::model(v) { Ok(x) => v49 = Some(x), Err(_) => m.bad = true },
                "m50" => match <u8 as Model>::model(v) { Ok(x) => v50 = Some(x), Err(_) => m.bad = true },
                "m51" => match <u8 as Model>::model(v) { Ok(x) => v51 = Some(x), Err(_) => m.bad = true },
                "m52" => match <u8 as Model>::model(v) { Ok(x) => v52 = Some(x), Err(_) => m.bad = true },
                "m53" => match <u8 as Model>::model(v) { Ok(x) => v53 = Some(x), Err(_) => m.bad = true },
                "m54" => match <u8 as Model>::model(v) { Ok(x) => v54 = Some(x), Err(_) => m.bad = true },
                "m55" => match <u8 as Model>::model(v) { Ok(x) => v55 = Some(x), Err(_) => m.bad = true },
                "m56" => match <u8 as Model>::model(v) { Ok(x) => v56 = Some(x), Err(_) => m.bad = true },
                "m57" => match <u8 as Model>::model(v) { Ok(x) => v57 = Some(x), Err(_) => m.bad = true },
                "m58" => match <u8 as Model>::model(v) { Ok(x) => v58 = Some(x), Err(_) => m.bad = true },
                "m59" => match <u8 as Model>::model(v) { Ok(x) => v59 = Some(x), Err(_) => m.bad = true },
                "m60" => match <u8 as Model>::model(v) { Ok(x) => v60 = Some(x), Err(_) => m.bad = true },
                "m61" => match <u8 as Model>::model(v) { Ok(x) => v61 = Some(x), Err(_) => m.bad = true },
                "m62" => match <u8 as Model>::model(v) { Ok(x) => v62 = Some(x), Err(_) => m.bad = true },
                "m63" => match <u8 as Model>::model(v) { Ok(x) => v63 = Some(x), Err(_) => m.bad = true },
                "m64" => match <u8 as Model>::model(v) { Ok(x) => v64 = Some(x), Err(_) => m.bad = true },
                "m65" => match <u8 as Model>::model(v) { Ok(x) => v65 = Some(x), Err(_) => m.bad = true },
                "m66" => match <u8 as Model>::model(v) { Ok(x) => v66 = Some(x), Err(_) => m.bad = true },
                "m67" => match <u8 as Model>::model(v) { Ok(x) => v67 = Some(x), Err(_) => m.bad = true },
                "m68" => match <u8 as Model>::model(v) { Ok(x) => v68 = Some(x), Err(_) => m.bad = true },
                "m69" => match <u8 as Model>::model(v) { Ok(x) => v69 = Some(x), Err(_) => m.bad = true },
                "m70" => match <u8 as Model>::model(v) { Ok(x) => v70 = Some(x), Err(_) => m.bad = true },
                "m71" => match <u8 as Model>::model(v) { Ok(x) => v71 = Some(x), Err(_) => m.bad = true },
                "m72" => match <u8 as Model>::model(v) { Ok(x) => v72 = Some(x), Err(_) => m.bad = true },
                "m73" => match <u8 as Model>::model(v) { Ok(x) => v73 = Some(x), Err(_) => m.bad = true },
                "m74" => match <u8 as Model>::model(v) { Ok(x) => v74 = Some(x), Err(_) => m.bad = true },
                "m75" => match <u8 as Model>::model(v) { Ok(x) => v75 = Some(x), Err(_) => m.bad = true },
                "m76" => match <u8 as Model>::model(v) { Ok(x) => v76 = Some(x), Err(_) => m.bad = true },
                "m77" => match <u8 as Model>::model(v) { Ok(x) => v77 = Some(x), Err(_) => m.bad = true },
                "m78" => match <u8 as Model>::model(v) { Ok(x) => v78 = Some(x), Err(_) => m.bad = true },
                "m79" => match <u8 as Model>::model(v) { Ok(x) => v79 = Some(x), Err(_) => m.bad = true },
                "m80" => match <u8 as Model>::model(v) { Ok(x) => v80 = Some(x), Err(_) => m.bad = true },
                "m81" => match <u8 as Model>::model(v) { Ok(x) => v81 = Some(x), Err(_) => m.bad = true },
                "m82" => match <u8 as Model>::model(v) { Ok(x) => v82 = Some(x), Err(_) => m.bad = true },
                "m83" => match <u8 as Model>::model(v) { Ok(x) => v83 = Some(x), Err(_) => m.bad = true },
                "m84" => match <u8 as Model>::model(v) { Ok(x) => v84 = Some(x), Err(_) => m.bad = true },
                "m85" => match <u8 as Model>::model(v) { Ok(x) => v85 = Some(x), Err(_) => m.bad = true },
                "m86" => match <u8 as Model>::model(v) { Ok(x) => v86 = Some(x), Err(_) => m.bad = true },
                "m87" => match <u8 as Model>::model(v) { Ok(x) => v87 = Some(x), Err(_) => m.bad = true },
                "m88" => match <u8 as Model>::model(v) { Ok(x) => v88 = Some(x), Err(_) => m.bad = true },
                "m89" => match <u8 as Model>::model(v) { Ok(x) => v89 = Some(x), Err(_) => m.bad = true },
                "m90" => match <u8 as Model>::model(v) { Ok(x) => v90 = Some(x), Err(_) => m.bad = true },
                "m91" => match <u8 as Model>::model(v) { Ok(x) => v91 = Some(x), Err(_) => m.bad = true },
                "m92" => match <u8 as Model>::model(v) { Ok(x) => v92 = Some(x), Err(_) => m.bad = true },
                "m93" => match <u8 as Model>::model(v) { Ok(x) => v93 = Some(x), Err(_) => m.bad = true },
                "m94" => match <u8 as Model>::model(v) { Ok(x) => v94 = Some(x), Err(_) => m.bad = true },
                "m95" => match <u8 as Model>::model(v) { Ok(x) => v95 = Some(x), Err(_) => m.bad = true },
                "m96" => match <u8 as Model>::model(v) { Ok(x) => v96 = Some(x), Err(_) => m.bad = true },
                "m97" => match <u8 as Model>::model(v) { Ok(x) => v97 = Some(x), Err(_) => m.bad = true },
                "m98" => match <u8 as Model>::model(v) { Ok(x) => v98 = Some(x), Err(_) => m.bad = true },
                "m99" => match <u8 as Model>::model(v) { Ok(x) => v99 = Some(x), Err(_) => m.bad = true },
                "m100" => match <u8 as Model>::model(v) { Ok(x) => v100 = Some(x), Err(_) => m.bad = true },
                "m101" => match <u8 as Model>::model(v) { Ok(x) => v101 = Some(x), Err(_) => m.bad = true },
                "m102" => match <u8 as Model>::model(v) { Ok(x) => v102 = Some(x), Err(_) => m.bad = true },
                "m103" => match <u8 as Model>::model(v) { Ok(x) => v103 = Some(x), Err(_) => m.bad = true },
                "m104" => match <u8 as Model>::model(v) { Ok(x) => v104 = Some(x), Err(_) => m.bad = true },
                "m105" => match <u8 as Model>::model(v) { Ok(x) => v105 = Some(x), Err(_) => m.bad = true },
                "m106" => match <u8 as Model>::model(v) { Ok(x) => v106 = Some(x), Err(_) => m.bad = true },
                "m107" => match <u8 as Model>::model(v) { Ok(x) => v107 = Some(x), Err(_) => m.bad = true },
                "m108" => match <u8 as Model>::model(v) { Ok(x) => v108 = Some(x), Err(_) => m.bad = true },
                "m109" => match <u8 as Model>::model(v) { Ok(x) => v109 = Some(x), Err(_) => m.bad = true },
                "m110" => match <u8 as Model>::model(v) { Ok(x) => v110 = Some(x), Err(_) => m.bad = true },
                "m111" => match <u8 as Model>::model(v) { Ok(x) => v111 = Some(x), Err(_) => m.bad = true },
                "m112" => match <u8 as Model>::model(v) { Ok(x) => v112 = Some(x), Err(_) => m.bad = true },
                "m113" => match <u8 as Model>::model(v) { Ok(x) => v113 = Some(x), Err(_) => m.bad = true },
                "m114" => match <u8 as Model>::model(v) { Ok(x) => v114 = Some(x), Err(_) => m.bad = true },
                "m115" => match <u8 as Model>::model(v) { Ok(x) => v115 = Some(x), Err(_) => m.bad = true },
                "m116" => match <u8 as Model>::model(v) { Ok(x) => v116 = Some(x), Err(_) => m.bad = true },
                "m117" => match <u8 as Model>::model(v) { Ok(x) => v117 = Some(x), Err(_) => m.bad = true },
                "m118" => match <u8 as Model>::model(v) { Ok(x) => v118 = Some(x), Err(_) => m.bad = true },
                "m119" => match <u8 as Model>::model(v) { Ok(x) => v119 = Some(x), Err(_) => m.bad = true },
                "m120" => match <u8 as Model>::model(v) { Ok(x) => v120 = Some(x), Err(_) => m.bad = true },
                "m121" => match <u8 as Model>::model(v) { Ok(x) => v121 = Some(x), Err(_) => m.bad = true },
                "m122" => match <u8 as Model>::model(v) { Ok(x) => v122 = Some(x), Err(_) => m.bad = true },
                "m123" => match <u8 as Model>::model(v) { Ok(x) => v123 = Some(x), Err(_) => m.bad = true },
                "m124" => match <u8 as Model>::model(v) { Ok(x) => v124 = Some(x), Err(_) => m.bad = true },
                "m125" => match <u8 as Model>::model(v) { Ok(x) => v125 = Some(x), Err(_) => m.bad = true },
                "m126" => match <u8 as Model>::model(v) { Ok(x) => v126 = Some(x), Err(_) => m.bad = true },
                "m127" => match <u8 as Model>::model(v) { Ok(x) => v127 = Some(x), Err(_) => m.bad = true },
                "m128" => match <u8 as Model>::model(v) { Ok(x) => v128 = Some(x), Err(_) => m.bad = true },
                "m129" => match <u8 as Model>::model(v) { Ok(x) => v129 = Some(x), Err(_) => m.bad = true },
                "m130" => match <u8 as Model>::model(v) { Ok(x) => v130 = Some(x), Err(_) => m.bad = true },
                "m131" => match <u8 as Model>::model(v) { Ok(x) => v131 = Some(x), Err(_) => m.bad = true },
                "m132" => match <u8 as Model>::model(v) { Ok(x) => v132 = Some(x), Err(_) => m.bad = true },
                "m133" => match <u8 as Model>::model(v) { Ok(x) => v133 = Some(x), Err(_) => m.bad = true },
                "m134" => match <u8 as Model>::model(v) { Ok(x) => v134 = Some(x), Err(_) => m.bad = true },
                "m135" => match <u8 as Model>::model(v) { Ok(x) => v135 = Some(x), Err(_) => m.bad = true },
                "m136" => match <u8 as Model>::model(v) { Ok(x) => v136 = Some(x), Err(_) => m.bad = true },
                "m137" => match <u8 as Model>::model(v) { Ok(x) => v137 = Some(x), Err(_) => m.bad = true },
                "m138" => match <u8 as Model>::model(v) { Ok(x) => v138 = Some(x), Err(_) => m.bad = true },
                "m139" => match <u8 as Model>::model(v) { Ok(x) => v139 = Some(x), Err(_) => m.bad = true },
                "m140" => match <u8 as Model>::model(v) { Ok(x) => v140 = Some(x), Err(_) => m.bad = true },
                "m141" => match <u8 as Model>::model(v) { Ok(x) => v141 = Some(x), Err(_) => m.bad = true },
                "m142" => match <u8 as Model>::model(v) { Ok(x) => v142 = Some(x), Err(_) => m.bad = true },
                "m143" => match <u8 as Model>::model(v) { Ok(x) => v143 = Some(x), Err(_) => m.bad = true },
                "m144" => match <u8 as Model>::model(v) { Ok(x) => v144 = Some(x), Err(_) => m.bad = true },
                "m145" => match <u8 as Model>::model(v) { Ok(x) => v145 = Some(x), Err(_) => m.bad = true },
                "m146" => match <u8 as Model>::model(v) { Ok(x) => v146 = Some(x), Err(_) => m.bad = true },
                "m147" => match <u8 as Model>::model(v) { Ok(x) => v147 = Some(x), Err(_) => m.bad = true },
                "m148" => match <u8 as Model>::model(v) { Ok(x) => v148 = Some(x), Err(_) => m.bad = true },
                "m149" => match <u8 as Model>::model(v) { Ok(x) => v149 = Some(x), Err(_) => m.bad = true },
                "m150" => match <u8 as Model>::model(v) { Ok(x) => v150 = Some(x), Err(_) => m.bad = true },
                "m151" => match <u8 as Model>::model(v) { Ok(x) => v151 = Some(x), Err(_) => m.bad = true },
                "m152" => match <u8 as Model>::model(v) { Ok(x) => v152 = Some(x), Err(_) => m.bad = true },
                "m153" => match <u8 as Model>::model(v) { Ok(x) => v153 = Some(x), Err(_) => m.bad = true },
                "m154" => match <u8 as Model>::model(v) { Ok(x) => v154 = Some(x), Err(_) => m.bad = true },
                "m155" => match <u8 as Model>::model(v) { Ok(x) => v155 = Some(x), Err(_) => m.bad = true },
                "m156" => match <u8 as Model>::model(v) { Ok(x) => v156 = Some(x), Err(_) => m.bad = true },
                "m157" => match <u8 as Model>::model(v) { Ok(x) => v157 = Some(x), Err(_) => m.bad = true },
                "m158" => match <u8 as Model>::model(v) { Ok(x) => v158 = Some(x), Err(_) => m.bad = true },
                "m159" => match <u8 as Model>::model(v) { Ok(x) => v159 = Some(x), Err(_) => m.bad = true },
                "m160" => match <u8 as Model>::model(v) { Ok(x) => v160 = Some(x), Err(_) => m.bad = true },
                "m161" => match <u8 as Model>::model(v) { Ok(x) => v161 = Some(x), Err(_) => m.bad = true },
                "m162" => match <u8 as Model>::model(v) { Ok(x) => v162 = Some(x), Err(_) => m.bad = true },
                "m163" => match <u8 as Model>::model(v) { Ok(x) => v163 = Some(x), Err(_) => m.bad = true },
                "m164" => match <u8 as Model>::model(v) { Ok(x) => v164 = Some(x), Err(_) => m.bad = true },
                "m165" => match <u8 as Model>::model(v) { Ok(x) => v165 = Some(x), Err(_) => m.bad = true },
                "m166" => match <u8 as Model>::model(v) { Ok(x) => v166 = Some(x), Err(_) => m.bad = true },
                "m167" => match <u8 as Model>::model(v) { Ok(x) => v167 = Some(x), Err(_) => m.bad = true },
                "m168" => match <u8 as Model>::model(v) { Ok(x) => v168 = Some(x), Err(_) => m.bad = true },
                "m169" => match <u8 as Model>::model(v) { Ok(x) => v169 = Some(x), Err(_) => m.bad = true },
                "m170" => match <u8 as Model>::model(v) { Ok(x) => v170 = Some(x), Err(_) => m.bad = true },
                "m171" => match <u8 as Model>::model(v) { Ok(x) => v171 = Some(x), Err(_) => m.bad = true },
                "m172" => match <u8 as Model>::model(v) { Ok(x) => v172 = Some(x), Err(_) => m.bad = true },
                "m173" => match <u8 as Model>::model(v) { Ok(x) => v173 = Some(x), Err(_) => m.bad = true },
                "m174" => match <u8 as Model>::model(v) { Ok(x) => v174 = Some(x), Err(_) => m.bad = true },
                "m175" => match <u8 as Model>::model(v) { Ok(x) => v175 = Some(x), Err(_) => m.bad = true },
                "m176" => match <u8 as Model>::model(v) { Ok(x) => v176 = Some(x), Err(_) => m.bad = true },
                "m177" => match <u8 as Model>::model(v) { Ok(x) => v177 = Some(x), Err(_) => m.bad = true },
                "m178" => match <u8 as Model>::model(v) { Ok(x) => v178 = Some(x), Err(_) => m.bad = true },
                "m179" => match <u8 as Model>::model(v) { Ok(x) => v179 = Some(x), Err(_) => m.bad = true },
                "m180" => match <u8 as Model>::model(v) { Ok(x) => v180 = Some(x), Err(_) => m.bad = true },
                "m181" => match <u8 as Model>::model(v) { Ok(x) => v181 = Some(x), Err(_) => m.bad = true },
                "m182" => match <u8 as Model>::model(v) { Ok(x) => v182 = Some(x), Err(_) => m.bad = true },
                "m183" => match <u8 as Model>::model(v) { Ok(x) => v183 = Some(x), Err(_) => m.bad = true },
                "m184" => match <u8 as Model>::model(v) { Ok(x) => v184 = Some(x), Err(_) => m.bad = true },
                "m185" => match <u8 as Model>::model(v) { Ok(x) => v185 = Some(x), Err(_) => m.bad = true },
                "m186" => match <u8 as Model>::model(v) { Ok(x) => v186 = Some(x), Err(_) => m.bad = true },
                "m187" => match <u8 as Model>::model(v) { Ok(x) => v187 = Some(x), Err(_) => m.bad = true },
                "m188" => match <u8 as Model>::model(v) { Ok(x) => v188 = Some(x), Err(_) => m.bad = true },
                "m189" => match <u8 as Model>::model(v) { Ok(x) => v189 = Some(x), Err(_) => m.bad = true },
                "m190" => match <u8 as Model>::model(v) { Ok(x) => v190 = Some(x), Err(_) => m.bad = true },
                "m191" => match <u8 as Model>::model(v) { Ok(x) => v191 = Some(x), Err(_) => m.bad = true },
                "m192" => match <u8 as Model>::model(v) { Ok(x) => v192 = Some(x), Err(_) => m.bad = true },
                "m193" => match <u8 as Model>::model(v) { Ok(x) => v193 = Some(x), Err(_) => m.bad = true },
                "m194" => match <u8 as Model>::model(v) { Ok(x) => v194 = Some(x), Err(_) => m.bad = true },
                "m195" => match <u8 as Model>::model(v) { Ok(x) => v195 = Some(x), Err(_) => m.bad = true },
                "m196" => match <u8 as Model>::model(v) { Ok(x) => v196 = Some(x), Err(_) => m.bad = true },
                "m197" => match <u8 as Model>::model(v) { Ok(x) => v197 = Some(x), Err(_) => m.bad = true },
                "m198" => match <u8 as Model>::model(v) { Ok(x) => v198 = Some(x), Err(_) => m.bad = true },
                "m199" => match <u8 as Model>::model(v) { Ok(x) => v199 = Some(x), Err(_) => m.bad = true },
                "m200" => match <u8 as Model>::model(v) { Ok(x) => v200 = Some(x), Err(_) => m.bad = true },
                "m201" => match <u8 as Model>::model(v) { Ok(x) => v201 = Some(x), Err(_) => m.bad = true },
                "m202" => match <u8 as Model>::model(v) { Ok(x) => v202 = Some(x), Err(_) => m.bad = true },
                "m203" => match <u8 as Model>::model(v) { Ok(x) => v203 = Some(x), Err(_) => m.bad = true },
                "m204" => match <u8 as Model>::model(v) { Ok(x) => v204 = Some(x), Err(_) => m.bad = true },
                "m205" => match <u8 as Model>::model(v) { Ok(x) => v205 = Some(x), Err(_) => m.bad = true },
                "m206" => match <u8 as Model>::model(v) { Ok(x) => v206 = Some(x), Err(_) => m.bad = true },
                "m207" => match <u8 as Model>::model(v) { Ok(x) => v207 = Some(x), Err(_) => m.bad = true },
                "m208" => match <u8 as Model>::model(v) { Ok(x) => v208 = Some(x), Err(_) => m.bad = true },
                "m209" => match <u8 as Model>::model(v) { Ok(x) => v209 = Some(x), Err(_) => m.bad = true },
                "m210" => match <u8 as Model>::model(v) { Ok(x) => v210 = Some(x), Err(_) => m.bad = true },
                "m211" => match <u8 as Model>::model(v) { Ok(x) => v211 = Some(x), Err(_) => m.bad = true },
                "m212" => match <u8 as Model>::model(v) { Ok(x) => v212 = Some(x), Err(_) => m.bad = true },
                "m213" => match <u8 as Model>::model(v) { Ok(x) => v213 = Some(x), Err(_) => m.bad = true },
                "m214" => match <u8 as Model>::model(v) { Ok(x) => v214 = Some(x), Err(_) => m.bad = true },
                "m215" => match <u8 as Model>::model(v) { Ok(x) => v215 = Some(x), Err(_) => m.bad = true },
                "m216" => match <u8 as Model>::model(v) { Ok(x) => v216 = Some(x), Err(_) => m.bad = true },
                "m217" => match <u8 as Model>::model(v) { Ok(x) => v217 = Some(x), Err(_) => m.bad = true },
                "m218" => match <u8 as Model>::model(v) { Ok(x) => v218 = Some(x), Err(_) => m.bad = true },
                "m219" => match <u8 as Model>::model(v) { Ok(x) => v219 = Some(x), Err(_) => m.bad = true },
                "m220" => match <u8 as Model>::model(v) { Ok(x) => v220 = Some(x), Err(_) => m.bad = true },
                "m221" => match <u8 as Model>::model(v) { Ok(x) => v221 = Some(x), Err(_) => m.bad = true },
                "m222" => match <u8 as Model>::model(v) { Ok(x) => v222 = Some(x), Err(_) => m.bad = true },
                "m223" => match <u8 as Model>::model(v) { Ok(x) => v223 = Some(x), Err(_) => m.bad = true },
                "m224" => match <u8 as Model>::model(v) { Ok(x) => v224 = Some(x), Err(_) => m.bad = true },
                "m225" => match <u8 as Model>::model(v) { Ok(x) => v225 = Some(x), Err(_) => m.bad = true },
                "m226" => match <u8 as Model>::model(v) { Ok(x) => v226 = Some(x), Err(_) => m.bad = true },
                "m227" => match <u8 as Model>::model(v) { Ok(x) => v227 = Some(x), Err(_) => m.bad = true },
                "m228" => match <u8 as Model>::model(v) { Ok(x) => v228 = Some(x), Err(_) => m.bad = true },
                "m229" => match <u8 as Model>::model(v) { Ok(x) => v229 = Some(x), Err(_) => m.bad = true },
                "m230" => match <u8 as Model>::model(v) { Ok(x) => v230 = Some(x), Err(_) => m.bad = true },
                "m231" => match <u8 as Model>::model(v) { Ok(x) => v231 = Some(x), Err(_) => m.bad = true },
                "m232" => match <u8 as Model>::model(v) { Ok(x) => v232 = Some(x), Err(_) => m.bad = true },
                "m233" => match <u8 as Model>::model(v) { Ok(x) => v233 = Some(x), Err(_) => m.bad = true },
                "m234" => match <u8 as Model>::model(v) { Ok(x) => v234 = Some(x), Err(_) => m.bad = true },
                "m235" => match <u8 as Model>::model(v) { Ok(x) => v235 = Some(x), Err(_) => m.bad = true },
                "m236" => match <u8 as Model>::model(v) { Ok(x) => v236 = Some(x), Err(_) => m.bad = true },
                "m237" => match <u8 as Model>::model(v) { Ok(x) => v237 = Some(x), Err(_) => m.bad = true },
                "m238" => match <u8 as Model>::model(v) { Ok(x) => v238 = Some(x), Err(_) => m.bad = true },
                "m239" => match <u8 as Model>::model(v) { Ok(x) => v239 = Some(x), Err(_) => m.bad = true },
                "m240" => match <u8 as Model>::model(v) { Ok(x) => v240 = Some(x), Err(_) => m.bad = true },
                "m241" => match <u8 as Model>::model(v) { Ok(x) => v241 = Some(x), Err(_) => m.bad = true },
                "m242" => match <u8 as Model>::model(v) { Ok(x) => v242 = Some(x), Err(_) => m.bad = true },
                "m243" => match <u8 as Model>::model(v) { Ok(x) => v243 = Some(x), Err(_) => m.bad = true },
                "m244" => match <u8 as Model>::model(v) { Ok(x) => v244 = Some(x), Err(_) => m.bad = true },
                "m245" => match <u8 as Model>::model(v) { Ok(x) => v245 = Some(x), Err(_) => m.bad = true },
                "m246" => match <u8 as Model>::model(v) { Ok(x) => v246 = Some(x), Err(_) => m.bad = true },
                "m247" => match <u8 as Model>::model(v) { Ok(x) => v247 = Some(x), Err(_) => m.bad = true },
                "m248" => match <u8 as Model>::model(v) { Ok(x) => v248 = Some(x), Err(_) => m.bad = true },
                "m249" => match <u8 as Model>::model(v) { Ok(x) => v249 = Some(x), Err(_) => m.bad = true },
                "m250" => match <u8 as Model>::model(v) { Ok(x) => v250 = Some(x), Err(_) => m.bad = true },
                "m251" => match <u8 as Model>::model(v) { Ok(x) => v251 = Some(x), Err(_) => m.bad = true },
                "m252" => match <u8 as Model>::model(v) { Ok(x) => v252 = Some(x), Err(_) => m.bad = true },
                "m253" => match <u8 as Model>::model(v) { Ok(x) => v253 = Some(x), Err(_) => m.bad = true },
                "m254" => match <u8 as Model>::model(v) { Ok(x) => v254 = Some(x), Err(_) => m.bad = true },
                "m255" => match <u8 as Model>::model(v) { Ok(x) => v255 = Some(x), Err(_) => m.bad = true },
                "m256" => match <u8 as Model>::model(v) { Ok(x) => v256 = Some(x), Err(_) => m.bad = true },
                "m257" => match <u8 as Model>::model(v) { Ok(x) => v257 = Some(x), Err(_) => m.bad = true },
                "m258" => match <u8 as Model>::model(v) { Ok(x) => v258 = Some(x), Err(_) => m.bad = true },
                "m259" => match <u8 as Model>::model(v) { Ok(x) => v259 = Some(x), Err(_) => m.bad = true },
                "m260" => match <u8 as Model>::model(v) { Ok(x) => v260 = Some(x), Err(_) => m.bad = true },
                "m261" => match <u8 as Model>::model(v) { Ok(x) => v261 = Some(x), Err(_) => m.bad = true },
                "m262" => match <u8 as Model>::model(v) { Ok(x) => v262 = Some(x), Err(_) => m.bad = true },
                "m263" => match <u8 as Model>::model(v) { Ok(x) => v263 = Some(x), Err(_) => m.bad = true },
                "m264" => match <u8 as Model>::model(v) { Ok(x) => v264 = Some(x), Err(_) => m.bad = true },
                "m265" => match <u8 as Model>::model(v) { Ok(x) => v265 = Some(x), Err(_) => m.bad = true },
                "m266" => match <u8 as Model>::model(v) { Ok(x) => v266 = Some(x), Err(_) => m.bad = true },
                "m267" => match <u8 as Model>::model(v) { Ok(x) => v267 = Some(x), Err(_) => m.bad = true },
                "m268" => match <u8 as Model>::model(v) { Ok(x) => v268 = Some(x), Err(_) => m.bad = true },
                "m269" => match <u8 as Model>::model(v) { Ok(x) => v269 = Some(x), Err(_) => m.bad = true },
                _ => {}
            }
        }
        if v0.is_none() && !m.bad { m.names.push("m0"); }
        let v1 = Some(v1.unwrap_or_default());
        if v2.is_none() && !m.bad { m.names.push("m2"); }
        let v3 = Some(v3.unwrap_or_default());
        if v4.is_none() && !m.bad { m.names.push("m4"); }
        let v5 = Some(v5.unwrap_or_default());
        if v6.is_none() && !m.bad { m.names.push("m6"); }
        let v7 = Some(v7.unwrap_or_default());
        if v8.is_none() && !m.bad { m.names.push("m8"); }
        let v9 = Some(v9.unwrap_or_default());
        if v10.is_none() && !m.bad { m.names.push("m10"); }
        let v11 = Some(v11.unwrap_or_default());
        if v12.is_none() && !m.bad { m.names.push("m12"); }
        let v13 = Some(v13.unwrap_or_default());
        if v14.is_none() && !m.bad { m.names.push("m14"); }
        let v15 = Some(v15.unwrap_or_default());
        if v16.is_none() && !m.bad { m.names.push("m16"); }
        let v17 = Some(v17.unwrap_or_default());
        if v18.is_none() && !m.bad { m.names.push("m18"); }
        let v19 = Some(v19.unwrap_or_default());
        if v20.is_none() && !m.bad { m.names.push("m20"); }
        let v21 = Some(v21.unwrap_or_default());
        if v22.is_none() && !m.bad { m.names.push("m22"); }
        let v23 = Some(v23.unwrap_or_default());
        if v24.is_none() && !m.bad { m.names.push("m24"); }
        let v25 = Some(v25.unwrap_or_default());
        if v26.is_none() && !m.bad { m.names.push("m26"); }
        let v27 = Some(v27.unwrap_or_default());
        if v28.is_none() && !m.bad { m.names.push("m28"); }
        let v29 = Some(v29.unwrap_or_default());
        if v30.is_none() && !m.bad { m.names.push("m30"); }
        let v31 = Some(v31.unwrap_or_default());
        if v32.is_none() && !m.bad { m.names.push("m32"); }
        let v33 = Some(v33.unwrap_or_default());
        if v34.is_none() && !m.bad { m.names.push("m34"); }
        let v35 = Some(v35.unwrap_or_default());
        if v36.is_none() && !m.bad { m.names.push("m36"); }
        let v37 = Some(v37.unwrap_or_default());
        if v38.is_none() && !m.bad { m.names.push("m38"); }
        let v39 = Some(v39.unwrap_or_default());
        if v40.is_none() && !m.bad { m.names.push("m40"); }
        let v41 = Some(v41.unwrap_or_default());
        if v42.is_none() && !m.bad { m.names.push("m42"); }
        let v43 = Some(v43.unwrap_or_default());
        if v44.is_none() && !m.bad { m.names.push("m44"); }
        let v45 = Some(v45.unwrap_or_default());
        if v46.is_none() && !m.bad { m.names.push("m46"); }
        let v47 = Some(v47.unwrap_or_default());
        if v48.is_none() && !m.bad { m.names.push("m48"); }
        let v49 = Some(v49.unwrap_or_default());
        if v50.is_none() && !m.bad { m.names.push("m50"); }
        let v51 = Some(v51.unwrap_or_default());
        if v52.is_none() && !m.bad { m.names.push("m52"); }
        let v53 = Some(v53.unwrap_or_default());
        if v54.is_none() && !m.bad { m.names.push("m54"); }
        let v55 = Some(v55.unwrap_or_default());
        if v56.is_none() && !m.bad { m.names.push("m56"); }
        let v57 = Some(v57.unwrap_or_default());
        if v58.is_none() && !m.bad { m.names.push("m58"); }
        let v59 = Some(v59.unwrap_or_default());
        if v60.is_none() && !m.bad { m.names.push("m60"); }
        let v61 = Some(v61.unwrap_or_default());
        if v62.is_none() && !m.bad { m.names.push("m62"); }
        let v63 = Some(v63.unwrap_or_default());
        if v64.is_none() && !m.bad { m.names.push("m64"); }
        let v65 = Some(v65.unwrap_or_default());
        if v66.is_none() && !m.bad { m.names.push("m66"); }
        let v67 = Some(v67.unwrap_or_default());
        if v68.is_none() && !m.bad { m.names.push("m68"); }
        let v69 = Some(v69.unwrap_or_default());
        if v70.is_none() && !m.bad { m.names.push("m70"); }
        let v71 = Some(v71.unwrap_or_default());
        if v72.is_none() && !m.bad { m.names.push("m72"); }
        let v73 = Some(v73.unwrap_or_default());
        if v74.is_none() && !m.bad { m.names.push("m74"); }
        let v75 = Some(v75.unwrap_or_default());
        if v76.is_none() && !m.bad { m.names.push("m76"); }
        let v77 = Some(v77.unwrap_or_default());
        if v78.is_none() && !m.bad { m.names.push("m78"); }
        let v79 = Some(v79.unwrap_or_default());
        if v80.is_none() && !m.bad { m.names.push("m80"); }
        let v81 = Some(v81.unwrap_or_default());
        if v82.is_none() && !m.bad { m.names.push("m82"); }
        let v83 = Some(v83.unwrap_or_default());
        if v84.is_none() && !m.bad { m.names.push("m84"); }
        let v85 = Some(v85.unwrap_or_default());
        if v86.is_none() && !m.bad { m.names.push("m86"); }
        let v87 = Some(v87.unwrap_or_default());
        if v88.is_none() && !m.bad { m.names.push("m88"); }
        let v89 = Some(v89.unwrap_or_default());
        if v90.is_none() && !m.bad { m.names.push("m90"); }
        let v91 = Some(v91.unwrap_or_default());
        if v92.is_none() && !m.bad { m.names.push("m92"); }
        let v93 = Some(v93.unwrap_or_default());
        if v94.is_none() && !m.bad { m.names.push("m94"); }
        let v95 = Some(v95.unwrap_or_default());
        if v96.is_none() && !m.bad { m.names.push("m96"); }
        let v97 = Some(v97.unwrap_or_default());
        if v98.is_none() && !m.bad { m.names.push("m98"); }
        let v99 = Some(v99.unwrap_or_default());
        if v100.is_none() && !m.bad { m.names.push("m100"); }
        let v101 = Some(v101.unwrap_or_default());
        if v102.is_none() && !m.bad { m.names.push("m102"); }
        let v103 = Some(v103.unwrap_or_default());
        if v104.is_none() && !m.bad { m.names.push("m104"); }
        let v105 = Some(v105.unwrap_or_default());
        if v106.is_none() && !m.bad { m.names.push("m106"); }
        let v107 = Some(v107.unwrap_or_default());
        if v108.is_none() && !m.bad { m.names.push("m108"); }
        let v109 = Some(v109.unwrap_or_default());
        if v110.is_none() && !m.bad { m.names.push("m110"); }
        let v111 = Some(v111.unwrap_or_default());
        if v112.is_none() && !m.bad { m.names.push("m112"); }
        let v113 = Some(v113.unwrap_or_default());
        if v114.is_none() && !m.bad { m.names.push("m114"); }
        let v115 = Some(v115.unwrap_or_default());
        if v116.is_none() && !m.bad { m.names.push("m116"); }
        let v117 = Some(v117.unwrap_or_default());
        if v118.is_none() && !m.bad { m.names.push("m118"); }
        let v119 = Some(v119.unwrap_or_default());
        if v120.is_none() && !m.bad { m.names.push("m120"); }
        let v121 = Some(v121.unwrap_or_default());
        if v122.is_none() && !m.bad { m.names.push("m122"); }
        let v123 = Some(v123.unwrap_or_default());
        if v124.is_none() && !m.bad { m.names.push("m124"); }
        let v125 = Some(v125.unwrap_or_default());
        if v126.is_none() && !m.bad { m.names.push("m126"); }
        let v127 = Some(v127.unwrap_or_default());
        if v128.is_none() && !m.bad { m.names.push("m128"); }
        let v129 = Some(v129.unwrap_or_default());
        if v130.is_none() && !m.bad { m.names.push("m130"); }
        let v131 = Some(v131.unwrap_or_default());
        if v132.is_none() && !m.bad { m.names.push("m132"); }
        let v133 = Some(v133.unwrap_or_default());
        if v134.is_none() && !m.bad { m.names.push("m134"); }
        let v135 = Some(v135.unwrap_or_default());
        if v136.is_none() && !m.bad { m.names.push("m136"); }
        let v137 = Some(v137.unwrap_or_default());
        if v138.is_none() && !m.bad { m.names.push("m138"); }
        let v139 = Some(v139.unwrap_or_default());
        if v140.is_none() && !m.bad { m.names.push("m140"); }
        let v141 = Some(v141.unwrap_or_default());
        if v142.is_none() && !m.bad { m.names.push("m142"); }
        let v143 = Some(v143.unwrap_or_default());
        if v144.is_none() && !m.bad { m.names.push("m144"); }
        let v145 = Some(v145.unwrap_or_default());
        if v146.is_none() && !m.bad { m.names.push("m146"); }
        let v147 = Some(v147.unwrap_or_default());
        if v148.is_none() && !m.bad { m.names.push("m148"); }
        let v149 = Some(v149.unwrap_or_default());
        if v150.is_none() && !m.bad { m.names.push("m150"); }
        let v151 = Some(v151.unwrap_or_default());
        if v152.is_none() && !m.bad { m.names.push("m152"); }
        let v153 = Some(v153.unwrap_or_default());
        if v154.is_none() && !m.bad { m.names.push("m154"); }
        let v155 = Some(v155.unwrap_or_default());
        if v156.is_none() && !m.bad { m.names.push("m156"); }
        let v157 = Some(v157.unwrap_or_default());
        if v158.is_none() && !m.bad { m.names.push("m158"); }
        let v159 = Some(v159.unwrap_or_default());
        if v160.is_none() && !m.bad { m.names.push("m160"); }
        let v161 = Some(v161.unwrap_or_default());
        if v162.is_none() && !m.bad { m.names.push("m162"); }
        let v163 = Some(v163.unwrap_or_default());
        if v164.is_none() && !m.bad { m.names.push("m164"); }
        let v165 = Some(v165.unwrap_or_default());
        if v166.is_none() && !m.bad { m.names.push("m166"); }
        let v167 = Some(v167.unwrap_or_default());
        if v168.is_none() && !m.bad { m.names.push("m168"); }
        let v169 = Some(v169.unwrap_or_default());
        if v170.is_none() && !m.bad { m.names.push("m170"); }
        let v171 = Some(v171.unwrap_or_default());
        if v172.is_none() && !m.bad { m.names.push("m172"); }
        let v173 = Some(v173.unwrap_or_default());
        if v174.is_none() && !m.bad { m.names.push("m174"); }
        let v175 = Some(v175.unwrap_or_default());
        if v176.is_none() && !m.bad { m.names.push("m176"); }
        let v177 = Some(v177.unwrap_or_default());
        if v178.is_none() && !m.bad { m.names.push("m178"); }
        let v179 = Some(v179.unwrap_or_default());
        if v180.is_none() && !m.bad { m.names.push("m180"); }
        let v181 = Some(v181.unwrap_or_default());
        if v182.is_none() && !m.bad { m.names.push("m182"); }
        let v183 = Some(v183.unwrap_or_default());
        if v184.is_none() && !m.bad { m.names.push("m184"); }
        let v185 = Some(v185.unwrap_or_default());
        if v186.is_none() && !m.bad { m.names.push("m186"); }
        let v187 = Some(v187.unwrap_or_default());
        if v188.is_none() && !m.bad { m.names.push("m188"); }
        let v189 = Some(v189.unwrap_or_default());
        if v190.is_none() && !m.bad { m.names.push("m190"); }
        let v191 = Some(v191.unwrap_or_default());
        if v192.is_none() && !m.bad { m.names.push("m192"); }
        let v193 = Some(v193.unwrap_or_default());
        if v194.is_none() && !m.bad { m.names.push("m194"); }
        let v195 = Some(v195.unwrap_or_default());
        if v196.is_none() && !m.bad { m.names.push("m196"); }
        let v197 = Some(v197.unwrap_or_default());
        if v198.is_none() && !m.bad { m.names.push("m198"); }
        let v199 = Some(v199.unwrap_or_default());
        if v200.is_none() && !m.bad { m.names.push("m200"); }
        let v201 = Some(v201.unwrap_or_default());
        if v202.is_none() && !m.bad { m.names.push("m202"); }
        let v203 = Some(v203.unwrap_or_default());
        if v204.is_none() && !m.bad { m.names.push("m204"); }
        let v205 = Some(v205.unwrap_or_default());
        if v206.is_none() && !m.bad { m.names.push("m206"); }
        let v207 = Some(v207.unwrap_or_default());
        if v208.is_none() && !m.bad { m.names.push("m208"); }
        let v209 = Some(v209.unwrap_or_default());
        if v210.is_none() && !m.bad { m.names.push("m210"); }
        let v211 = Some(v211.unwrap_or_default());
        if v212.is_none() && !m.bad { m.names.push("m212"); }
        let v213 = Some(v213.unwrap_or_default());
        if v214.is_none() && !m.bad { m.names.push("m214"); }
        let v215 = Some(v215.unwrap_or_default());
        if v216.is_none() && !m.bad { m.names.push("m216"); }
        let v217 = Some(v217.unwrap_or_default());
        if v218.is_none() && !m.bad { m.names.push("m218"); }
        let v219 = Some(v219.unwrap_or_default());
        if v220.is_none() && !m.bad { m.names.push("m220"); }
        let v221 = Some(v221.unwrap_or_default());
        if v222.is_none() && !m.bad { m.names.push("m222"); }
        let v223 = Some(v223.unwrap_or_default());
        if v224.is_none() && !m.bad { m.names.push("m224"); }
        let v225 = Some(v225.unwrap_or_default());
        if v226.is_none() && !m.bad { m.names.push("m226"); }
        let v227 = Some(v227.unwrap_or_default());
        if v228.is_none() && !m.bad { m.names.push("m228"); }
        let v229 = Some(v229.unwrap_or_default());
        if v230.is_none() && !m.bad { m.names.push("m230"); }
        let v231 = Some(v231.unwrap_or_default());
        if v232.is_none() && !m.bad { m.names.push("m232"); }
        let v233 = Some(v233.unwrap_or_default());
        if v234.is_none() && !m.bad { m.names.push("m234"); }
        let v235 = Some(v235.unwrap_or_default());
        if v236.is_none() && !m.bad { m.names.push("m236"); }
        let v237 = Some(v237.unwrap_or_default());
        if v238.is_none() && !m.bad { m.names.push("m238"); }
        let v239 = Some(v239.unwrap_or_default());
        if v240.is_none() && !m.bad { m.names.push("m240"); }
        let v241 = Some(v241.unwrap_or_default());
        if v242.is_none() && !m.bad { m.names.push("m242"); }
        let v243 = Some(v243.unwrap_or_default());
        if v244.is_none() && !m.bad { m.names.push("m244"); }
        let v245 = Some(v245.unwrap_or_default());
        if v246.is_none() && !m.bad { m.names.push("m246"); }
        let v247 = Some(v247.unwrap_or_default());
        if v248.is_none() && !m.bad { m.names.push("m248"); }
        let v249 = Some(v249.unwrap_or_default());
        if v250.is_none() && !m.bad { m.names.push("m250"); }
        let v251 = Some(v251.unwrap_or_default());
        if v252.is_none() && !m.bad { m.names.push("m252"); }
        let v253 = Some(v253.unwrap_or_default());
        if v254.is_none() && !m.bad { m.names.push("m254"); }
        let v255 = Some(v255.unwrap_or_default());
        if v256.is_none() && !m.bad { m.names.push("m256"); }
        let v257 = Some(v257.unwrap_or_default());
        if v258.is_none() && !m.bad { m.names.push("m258"); }
        let v259 = Some(v259.unwrap_or_default());
        if v260.is_none() && !m.bad { m.names.push("m260"); }
        let v261 = Some(v261.unwrap_or_default());
        if v262.is_none() && !m.bad { m.names.push("m262"); }
        let v263 = Some(v263.unwrap_or_default());
        if v264.is_none() && !m.bad { m.names.push("m264"); }
        let v265 = Some(v265.unwrap_or_default());
        if v266.is_none() && !m.bad { m.names.push("m266"); }
        let v267 = Some(v267.unwrap_or_default());
        if v268.is_none() && !m.bad { m.names.push("m268"); }
        let v269 = Some(v269.unwrap_or_default());
        if m.bad || !m.names.is_empty() { return Err(m); }
        Ok(Many { m0: v0.unwrap(), m1: v1.unwrap(), m2: v2.unwrap(), m3: v3.unwrap(), m4: v4.unwrap(), m5: v5.unwrap(), m6: v6.unwrap(), m7: v7.unwrap(), m8: v8.unwrap(), m9: v9.unwrap(), m10: v10.unwrap(), m11: v11.unwrap(), m12: v12.unwrap(), m13: v13.unwrap(), m14: v14.unwrap(), m15: v15.unwrap(), m16: v16.unwrap(), m17: v17.unwrap(), m18: v18.unwrap(), m19: v19.unwrap(), m20: v20.unwrap(), m21: v21.unwrap(), m22: v22.unwrap(), m23: v23.unwrap(), m24: v24.unwrap(), m25: v25.unwrap(), m26: v26.unwrap(), m27: v27.unwrap(), m28: v28.unwrap(), m29: v29.unwrap(), m30: v30.unwrap(), m31: v31.unwrap(), m32: v32.unwrap(), m33: v33.unwrap(), m34: v34.unwrap(), m35: v35.unwrap(), m36: v36.unwrap(), m37: v37.unwrap(), m38: v38.unwrap(), m39: v39.unwrap(), m40: v40.unwrap(), m41: v41.unwrap(), m42: v42.unwrap(), m43: v43.unwrap(), m44: v44.unwrap(), m45: v45.unwrap(), m46: v46.unwrap(), m47: v47.unwrap(), m48: v48.unwrap(), m49: v49.unwrap(), m50: v50.unwrap(), m51: v51.unwrap(), m52: v52.unwrap(), m53: v53.unwrap(), m54: v54.unwrap(), m55: v55.unwrap(), m56: v56.unwrap(), m57: v57.unwrap(), m58: v58.unwrap(), m59: v59.unwrap(), m60: v60.unwrap(), m61: v61.unwrap(), m62: v62.unwrap(), m63: v63.unwrap(), m64: v64.unwrap(), m65: v65.unwrap(), m66: v66.unwrap(), m67: v67.unwrap(), m68: v68.unwrap(), m69: v69.unwrap(), m70: v70.unwrap(), m71: v71.unwrap(), m72: v72.unwrap(), m73: v73.unwrap(), m74: v74.unwrap(), m75: v75.unwrap(), m76: v76.unwrap(), m77: v77.unwrap(), m78: v78.unwrap(), m79: v79.unwrap(), m80: v80.unwrap(), m81: v81.unwrap(), m82: v82.unwrap(), m83: v83.unwrap(), m84: v84.unwrap(), m85: v85.unwrap(), m86: v86.unwrap(), m87: v87.unwrap(), m88: v88.unwrap(), m89: v89.unwrap(), m90: v90.unwrap(), m91: v91.unwrap(), m92: v92.unwrap(), m93: v93.unwrap(), m94: v94.unwrap(), m95: v95.unwrap(), m96: v96.unwrap(), m97: v97.unwrap(), m98: v98.unwrap(), m99: v99.unwrap(), m100: v100.unwrap(), m101: v101.unwrap(), m102: v102.unwrap(), m103: v103.unwrap(), m104: v104.unwrap(), m105: v105.unwrap(), m106: v106.unwrap(), m107: v107.unwrap(), m108: v108.unwrap(), m109: v109.unwrap(), m110: v110.unwrap(), m111: v111.unwrap(), m112: v112.unwrap(), m113: v113.unwrap(), m114: v114.unwrap(), m115: v115.unwrap(), m116: v116.unwrap(), m117: v117.unwrap(), m118: v118.unwrap(), m119: v119.unwrap(), m120: v120.unwrap(), m121: v121.unwrap(), m122: v122.unwrap(), m123: v123.unwrap(), m124: v124.unwrap(), m125: v125.unwrap(), m126: v126.unwrap(), m127: v127.unwrap(), m128: v128.unwrap(), m129: v129.unwrap(), m130: v130.unwrap(), m131: v131.unwrap(), m132: v132.unwrap(), m133: v133.unwrap(), m134: v134.unwrap(), m135: v135.unwrap(), m136: v136.unwrap(), m137: v137.unwrap(), m138: v138.unwrap(), m139: v139.unwrap(), m140: v140.unwrap(), m141: v141.unwrap(), m142: v142.unwrap(), m143: v143.unwrap(), m144: v144.unwrap(), m145: v145.unwrap(), m146: v146.unwrap(), m147: v147.unwrap(), m148: v148.unwrap(), m149: v149.unwrap(), m150: v150.unwrap(), m151: v151.unwrap(), m152: v152.unwrap(), m153: v153.unwrap(), m154: v154.unwrap(), m155: v155.unwrap(), m156: v156.unwrap(), m157: v157.unwrap(), m158: v158.unwrap(), m159: v159.unwrap(), m160: v160.unwrap(), m161: v161.unwrap(), m162: v162.unwrap(), m163: v163.unwrap(), m164: v164.unwrap(), m165: v165.unwrap(), m166: v166.unwrap(), m167: v167.unwrap(), m168: v168.unwrap(), m169: v169.unwrap(), m170: v170.unwrap(), m171: v171.unwrap(), m172: v172.unwrap(), m173: v173.unwrap(), m174: v174.unwrap(), m175: v175.unwrap(), m176: v176.unwrap(), m177: v177.unwrap(), m178: v178.unwrap(), m179: v179.unwrap(), m180: v180.unwrap(), m181: v181.unwrap(), m182: v182.unwrap(), m183: v183.unwrap(), m184: v184.unwrap(), m185: v185.unwrap(), m186: v186.unwrap(), m187: v187.unwrap(), m188: v188.unwrap(), m189: v189.unwrap(), m190: v190.unwrap(), m191: v191.unwrap(), m192: v192.unwrap(), m193: v193.unwrap(), m194: v194.unwrap(), m195: v195.unwrap(), m196: v196.unwrap(), m197: v197.unwrap(), m198: v198.unwrap(), m199: v199.unwrap(), m200: v200.unwrap(), m201: v201.unwrap(), m202: v202.unwrap(), m203: v203.unwrap(), m204: v204.unwrap(), m205: v205.unwrap(), m206: v206.unwrap(), m207: v207.unwrap(), m208: v208.unwrap(), m209: v209.unwrap(), m210: v210.unwrap(), m211: v211.unwrap(), m212: v212.unwrap(), m213: v213.unwrap(), m214: v214.unwrap(), m215: v215.unwrap(), m216: v216.unwrap(), m217: v217.unwrap(), m218: v218.unwrap(), m219: v219.unwrap(), m220: v220.unwrap(), m221: v221.unwrap(), m222: v222.unwrap(), m223: v223.unwrap(), m224: v224.unwrap(), m225: v225.unwrap(), m226: v226.unwrap(), m227: v227.unwrap(), m228: v228.unwrap(), m229: v229.unwrap(), m230: v230.unwrap(), m231: v231.unwrap(), m232: v232.unwrap(), m233: v233.unwrap(), m234: v234.unwrap(), m235: v235.unwrap(), m236: v236.unwrap(), m237: v237.unwrap(), m238: v238.unwrap(), m239: v239.unwrap(), m240: v240.unwrap(), m241: v241.unwrap(), m242: v242.unwrap(), m243: v243.unwrap(), m244: v244.unwrap(), m245: v245.unwrap(), m246: v246.unwrap(), m247: v247.unwrap(), m248: v248.unwrap(), m249: v249.unwrap(), m250: v250.unwrap(), m251: v251.unwrap(), m252: v252.unwrap(), m253: v253.unwrap(), m254: v254.unwrap(), m255: v255.unwrap(), m256: v256.unwrap(), m257: v257.unwrap(), m258: v258.unwrap(), m259: v259.unwrap(), m260: v260.unwrap(), m261: v261.unwrap(), m262: v262.unwrap(), m263: v263.unwrap(), m264: v264.unwrap(), m265: v265.unwrap(), m266: v266.unwrap(), m267: v267.unwrap(), m268: v268.unwrap(), m269: v269.unwrap() })
    }
}
strukt_model!(Many);
impl ToTree for Many {
    fn tree(&self) -> Tree {
        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];
        { o.push(("m0".to_string(), self.m0.tree())); }
        if !crate::derive::skip_hash(&self.m1) { o.push(("m1".to_string(), self.m1.tree())); }
        { o.push(("m2".to_string(), self.m2.tree())); }
        { o.push(("m3".to_string(), self.m3.tree())); }
        if !crate::derive::skip_hash(&self.m4) { o.push(("m4".to_string(), self.m4.tree())); }
        { o.push(("m5".to_string(), self.m5.tree())); }
        { o.push(("m6".to_string(), self.m6.tree())); }
        if !crate::derive::skip_hash(&self.m7) { o.push(("m7".to_string(), self.m7.tree())); }
        { o.push(("m8".to_string(), self.m8.tree())); }
        { o.push(("m9".to_string(), self.m9.tree())); }
        if !crate::derive::skip_hash(&self.m10) { o.push(("m10".to_string(), self.m10.tree())); }
        { o.push(("m11".to_string(), self.m11.tree())); }
        { o.push(("m12".to_string(), self.m12.tree())); }
        if !crate::derive::skip_hash(&self.m13) { o.push(("m13".to_string(), self.m13.tree())); }
        { o.push(("m14".to_string(), self.m14.tree())); }
        { o.push(("m15".to_string(), self.m15.tree())); }
        if !crate::derive::skip_hash(&self.m16) { o.push(("m16".to_string(), self.m16.tree())); }
        { o.push(("m17".to_string(), self.m17.tree())); }
        { o.push(("m18".to_string(), self.m18.tree())); }
        if !crate::derive::skip_hash(&self.m19) { o.push(("m19".to_string(), self.m19.tree())); }
        { o.push(("m20".to_string(), self.m20.tree())); }
        { o.push(("m21".to_string(), self.m21.tree())); }
        if !crate::derive::skip_hash(&self.m22) { o.push(("m22".to_string(), self.m22.tree())); }
        { o.push(("m23".to_string(), self.m23.tree())); }
        { o.push(("m24".to_string(), self.m24.tree())); }
        if !crate::derive::skip_hash(&self.m25) { o.push(("m25".to_string(), self.m25.tree())); }
        { o.push(("m26".to_string(), self.m26.tree())); }
        { o.push(("m27".to_string(), self.m27.tree())); }
        if !crate::derive::skip_hash(&self.m28) { o.push(("m28".to_string(), self.m28.tree())); }
        { o.push(("m29".to_string(), self.m29.tree())); }
        { o.push(("m30".to_string(), self.m30.tree())); }
        if !crate::derive::skip_hash(&self.m31) { o.push(("m31".to_string(), self.m31.tree())); }
        { o.push(("m32".to_string(), self.m32.tree())); }
        { o.push(("m33".to_string(), self.m33.tree())); }
        if !crate::derive::skip_hash(&self.m34) { o.push(("m34".to_string(), self.m34.tree())); }
        { o.push(("m35".to_string(), self.m35.tree())); }
        { o.push(("m36".to_string(), self.m36.tree())); }
        if !crate::derive::skip_hash(&self.m37) { o.push(("m37".to_string(), self.m37.tree())); }
        { o.push(("m38".to_string(), self.m38.tree())); }
        { o.push(("m39".to_string(), self.m39.tree())); }
        if !crate::derive::skip_hash(&self.m40) { o.push(("m40".to_string(), self.m40.tree())); }
        { o.push(("m41".to_string(), self.m41.tree())); }
        { o.push(("m42".to_string(), self.m42.tree())); }
        if !crate::derive::skip_hash(&self.m43) { o.push(("m43".to_string(), self.m43.tree())); }
        { o.push(("m44".to_string(), self.m44.tree())); }
        { o.push(("m45".to_string(), self.m45.tree())); }
        if !crate::derive::skip_hash(&self.m46) { o.push(("m46".to_string(), self.m46.tree())); }
        { o.push(("m47".to_string(), self.m47.tree())); }
        { o.push(("m48".to_string(), self.m48.tree())); }
        if !crate::derive::skip_hash(&self.m49) { o.push(("m49".to_string(), self.m49.tree())); }
        { o.push(("m50".to_string(), self.m50.tree())); }
        { o.push(("m51".to_string(), self.m51.tree())); }
        if !crate::derive::skip_hash(&self.m52) { o.push(("m52".to_string(), self.m52.tree())); }
        { o.push(("m53".to_string(), self.m53.tree())); }
        { o.push(("m54".to_string(), self.m54.tree())); }
        if !crate::derive::skip_hash(&self.m55) { o.push(("m55".to_string(), self.m55.tree())); }
        { o.push(("m56".to_string(), self.m56.tree())); }
        { o.push(("m57".to_string(), self.m57.tree())); }
        if !crate::derive::skip_hash(&self.m58) { o.push(("m58".to_string(), self.m58.tree())); }
        { o.push(("m59".to_string(), self.m59.tree())); }
        { o.push(("m60".to_string(), self.m60.tree())); }
        if !crate::derive::skip_hash(&self.m61) { o.push(("m61".to_string(), self.m61.tree())); }
        { o.push(("m62".to_string(), self.m62.tree())); }
        { o.push(("m63".to_string(), self.m63.tree())); }
        if !crate::derive::skip_hash(&self.m64) { o.push(("m64".to_string(), self.m64.tree())); }
        { o.push(("m65".to_string(), self.m65.tree())); }
        { o.push(("m66".to_string(), self.m66.tree())); }
        if !crate::derive::skip_hash(&self.m67) { o.push(("m67".to_string(), self.m67.tree())); }
        { o.push(("m68".to_string(), self.m68.tree())); }
        { o.push(("m69".to_string(), self.m69.tree())); }
        if !crate::derive::skip_hash(&self.m70) { o.push(("m70".to_string(), self.m70.tree())); }
        { o.push(("m71".to_string(), self.m71.tree())); }
        { o.push(("m72".to_string(), self.m72.tree())); }
        if !crate::derive::skip_hash(&self.m73) { o.push(("m73".to_string(), self.m73.tree())); }
        { o.push(("m74".to_string(), self.m74.tree())); }
        { o.push(("m75".to_string(), self.m75.tree())); }
        if !crate::derive::skip_hash(&self.m76) { o.push(("m76".to_string(), self.m76.tree())); }
        { o.push(("m77".to_string(), self.m77.tree())); }
        { o.push(("m78".to_string(), self.m78.tree())); }
        if !crate::derive::skip_hash(&self.m79) { o.push(("m79".to_string(), self.m79.tree())); }
        { o.push(("m80".to_string(), self.m80.tree())); }
        { o.push(("m81".to_string(), self.m81.tree())); }
        if !crate::derive::skip_hash(&self.m82) { o.push(("m82".to_string(), self.m82.tree())); }
        { o.push(("m83".to_string(), self.m83.tree())); }
        { o.push(("m84".to_string(), self.m84.tree())); }
        if !crate::derive::skip_hash(&self.m85) { o.push(("m85".to_string(), self.m85.tree())); }
        { o.push(("m86".to_string(), self.m86.tree())); }
        { o.push(("m87".to_string(), self.m87.tree())); }
        if !crate::derive::skip_hash(&self.m88) { o.push(("m88".to_string(), self.m88.tree())); }
        { o.push(("m89".to_string(), self.m89.tree())); }
        { o.push(("m90".to_string(), self.m90.tree())); }
        if !crate::derive::skip_hash(&self.m91) { o.push(("m91".to_string(), self.m91.tree())); }
        { o.push(("m92".to_string(), self.m92.tree())); }
        { o.push(("m93".to_string(), self.m93.tree())); }
        if !crate::derive::skip_hash(&self.m94) { o.push(("m94".to_string(), self.m94.tree())); }
        { o.push(("m95".to_string(), self.m95.tree())); }
        { o.push(("m96".to_string(), self.m96.tree())); }
        if !crate::derive::skip_hash(&self.m97) { o.push(("m97".to_string(), self.m97.tree())); }
        { o.push(("m98".to_string(), self.m98.tree())); }
        { o.push(("m99".to_string(), self.m99.tree())); }
        if !crate::derive::skip_hash(&self.m100) { o.push(("m100".to_string(), self.m100.tree())); }
        { o.push(("m101".to_string(), self.m101.tree())); }
        { o.push(("m102".to_string(), self.m102.tree())); }
        if !crate::derive::skip_hash(&self.m103) { o.push(("m103".to_string(), self.m103.tree())); }
        { o.push(("m104".to_string(), self.m104.tree())); }
        { o.push(("m105".to_string(), self.m105.tree())); }
        if !crate::derive::skip_hash(&self.m106) { o.push(("m106".to_string(), self.m106.tree())); }
        { o.push(("m107".to_string(), self.m107.tree())); }
        { o.push(("m108".to_string(), self.m108.tree())); }
        if !crate::derive::skip_hash(&self.m109) { o.push(("m109".to_string(), self.m109.tree())); }
        { o.push(("m110".to_string(), self.m110.tree())); }
        { o.push(("m111".to_string(), self.m111.tree())); }
        if !crate::derive::skip_hash(&self.m112) { o.push(("m112".to_string(), self.m112.tree())); }
        { o.push(("m113".to_string(), self.m113.tree())); }
        { o.push(("m114".to_string(), self.m114.tree())); }
        if !crate::derive::skip_hash(&self.m115) { o.push(("m115".to_string(), self.m115.tree())); }
        { o.push(("m116".to_string(), self.m116.tree())); }
        { o.push(("m117".to_string(), self.m117.tree())); }
        if !crate::derive::skip_hash(&self.m118) { o.push(("m118".to_string(), self.m118.tree())); }
        { o.push(("m119".to_string(), self.m119.tree())); }
        { o.push(("m120".to_string(), self.m120.tree())); }
        if !crate::derive::skip_hash(&self.m121) { o.push(("m121".to_string(), self.m121.tree())); }
        { o.push(("m122".to_string(), self.m122.tree())); }
        { o.push(("m123".to_string(), self.m123.tree())); }
        if !crate::derive::skip_hash(&self.m124) { o.push(("m124".to_string(), self.m124.tree())); }
        { o.push(("m125".to_string(), self.m125.tree())); }
        { o.push(("m126".to_string(), self.m126.tree())); }
        if !crate::derive::skip_hash(&self.m127) { o.push(("m127".to_string(), self.m127.tree())); }
        { o.push(("m128".to_string(), self.m128.tree())); }
        { o.push(("m129".to_string(), self.m129.tree())); }
        if !crate::derive::skip_hash(&self.m130) { o.push(("m130".to_string(), self.m130.tree())); }
        { o.push(("m131".to_string(), self.m131.tree())); }
        { o.push(("m132".to_string(), self.m132.tree())); }
        if !crate::derive::skip_hash(&self.m133) { o.push(("m133".to_string(), self.m133.tree())); }
        { o.push(("m134".to_string(), self.m134.tree())); }
        { o.push(("m135".to_string(), self.m135.tree())); }
        if !crate::derive::skip_hash(&self.m136) { o.push(("m136".to_string(), self.m136.tree())); }
        { o.push(("m137".to_string(), self.m137.tree())); }
        { o.push(("m138".to_string(), self.m138.tree())); }
        if !crate::derive::skip_hash(&self.m139) { o.push(("m139".to_string(), self.m139.tree())); }
        { o.push(("m140".to_string(), self.m140.tree())); }
        { o.push(("m141".to_string(), self.m141.tree())); }
        if !crate::derive::skip_hash(&self.m142) { o.push(("m142".to_string(), self.m142.tree())); }
        { o.push(("m143".to_string(), self.m143.tree())); }
        { o.push(("m144".to_string(), self.m144.tree())); }
        if !crate::derive::skip_hash(&self.m145) { o.push(("m145".to_string(), self.m145.tree())); }
        { o.push(("m146".to_string(), self.m146.tree())); }
        { o.push(("m147".to_string(), self.m147.tree())); }
        if !crate::derive::skip_hash(&self.m148) { o.push(("m148".to_string(), self.m148.tree())); }
        { o.push(("m149".to_string(), self.m149.tree())); }
        { o.push(("m150".to_string(), self.m150.tree())); }
        if !crate::derive::skip_hash(&self.m151) { o.push(("m151".to_string(), self.m151.tree())); }
        { o.push(("m152".to_string(), self.m152.tree())); }
        { o.push(("m153".to_string(), self.m153.tree())); }
        if !crate::derive::skip_hash(&self.m154) { o.push(("m154".to_string(), self.m154.tree())); }
        { o.push(("m155".to_string(), self.m155.tree())); }
        { o.push(("m156".to_string(), self.m156.tree())); }
        if !crate::derive::skip_hash(&self.m157) { o.push(("m157".to_string(), self.m157.tree())); }
        { o.push(("m158".to_string(), self.m158.tree())); }
        { o.push(("m159".to_string(), self.m159.tree())); }
        if !crate::derive::skip_hash(&self.m160) { o.push(("m160".to_string(), self.m160.tree())); }
        { o.push(("m161".to_string(), self.m161.tree())); }
        { o.push(("m162".to_string(), self.m162.tree())); }
        if !crate::derive::skip_hash(&self.m163) { o.push(("m163".to_string(), self.m163.tree())); }
        { o.push(("m164".to_string(), self.m164.tree())); }
        { o.push(("m165".to_string(), self.m165.tree())); }
        if !crate::derive::skip_hash(&self.m166) { o.push(("m166".to_string(), self.m166.tree())); }
        { o.push(("m167".to_string(), self.m167.tree())); }
        { o.push(("m168".to_string(), self.m168.tree())); }
        if !crate::derive::skip_hash(&self.m169) { o.push(("m169".to_string(), self.m169.tree())); }
        { o.push(("m170".to_string(), self.m170.tree())); }
        { o.push(("m171".to_string(), self.m171.tree())); }
        if !crate::derive::skip_hash(&self.m172) { o.push(("m172".to_string(), self.m172.tree())); }
        { o.push(("m173".to_string(), self.m173.tree())); }
        { o.push(("m174".to_string(), self.m174.tree())); }
        if !crate::derive::skip_hash(&self.m175) { o.push(("m175".to_string(), self.m175.tree())); }
        { o.push(("m176".to_string(), self.m176.tree())); }
        { o.push(("m177".to_string(), self.m177.tree())); }
        if !crate::derive::skip_hash(&self.m178) { o.push(("m178".to_string(), self.m178.tree())); }
        { o.push(("m179".to_string(), self.m179.tree())); }
        { o.push(("m180".to_string(), self.m180.tree())); }
        if !crate::derive::skip_hash(&self.m181) { o.push(("m181".to_string(), self.m181.tree())); }
        { o.push(("m182".to_string(), self.m182.tree())); }
        { o.push(("m183".to_string(), self.m183.tree())); }
        if !crate::derive::skip_hash(&self.m184) { o.push(("m184".to_string(), self.m184.tree())); }
        { o.push(("m185".to_string(), self.m185.tree())); }
        { o.push(("m186".to_string(), self.m186.tree())); }
        if !crate::derive::skip_hash(&self.m187) { o.push(("m187".to_string(), self.m187.tree())); }
        { o.push(("m188".to_string(), self.m188.tree())); }
        { o.push(("m189".to_string(), self.m189.tree())); }
        if !crate::derive::skip_hash(&self.m190) { o.push(("m190".to_string(), self.m190.tree())); }
        { o.push(("m191".to_string(), self.m191.tree())); }
        { o.push(("m192".to_string(), self.m192.tree())); }
        if !crate::derive::skip_hash(&self.m193) { o.push(("m193".to_string(), self.m193.tree())); }
        { o.push(("m194".to_string(), self.m194.tree())); }
        { o.push(("m195".to_string(), self.m195.tree())); }
        if !crate::derive::skip_hash(&self.m196) { o.push(("m196".to_string(), self.m196.tree())); }
        { o.push(("m197".to_string(), self.m197.tree())); }
        { o.push(("m198".to_string(), self.m198.tree())); }
        if !crate::derive::skip_hash(&self.m199) { o.push(("m199".to_string(), self.m199.tree())); }
        { o.push(("m200".to_string(), self.m200.tree())); }
        { o.push(("m201".to_string(), self.m201.tree())); }
        if !crate::derive::skip_hash(&self.m202) { o.push(("m202".to_string(), self.m202.tree())); }
        { o.push(("m203".to_string(), self.m203.tree())); }
        { o.push(("m204".to_string(), self.m204.tree())); }
        if !crate::derive::skip_hash(&self.m205) { o.push(("m205".to_string(), self.m205.tree())); }
        { o.push(("m206".to_string(), self.m206.tree())); }
        { o.push(("m207".to_string(), self.m207.tree())); }
        if !crate::derive::skip_hash(&self.m208) { o.push(("m208".to_string(), self.m208.tree())); }
        { o.push(("m209".to_string(), self.m209.tree())); }
        { o.push(("m210".to_string(), self.m210.tree())); }
        if !crate::derive::skip_hash(&self.m211) { o.push(("m211".to_string(), self.m211.tree())); }
        { o.push(("m212".to_string(), self.m212.tree())); }
        { o.push(("m213".to_string(), self.m213.tree())); }
        if !crate::derive::skip_hash(&self.m214) { o.push(("m214".to_string(), self.m214.tree())); }
        { o.push(("m215".to_string(), self.m215.tree())); }
        { o.push(("m216".to_string(), self.m216.tree())); }
        if !crate::derive::skip_hash(&self.m217) { o.push(("m217".to_string(), self.m217.tree())); }
        { o.push(("m218".to_string(), self.m218.tree())); }
        { o.push(("m219".to_string(), self.m219.tree())); }
        if !crate::derive::skip_hash(&self.m220) { o.push(("m220".to_string(), self.m220.tree())); }
        { o.push(("m221".to_string(), self.m221.tree())); }
        { o.push(("m222".to_string(), self.m222.tree())); }
        if !crate::derive::skip_hash(&self.m223) { o.push(("m223".to_string(), self.m223.tree())); }
        { o.push(("m224".to_string(), self.m224.tree())); }
        { o.push(("m225".to_string(), self.m225.tree())); }
        if !crate::derive::skip_hash(&self.m226) { o.push(("m226".to_string(), self.m226.tree())); }
        { o.push(("m227".to_string(), self.m227.tree())); }
        { o.push(("m228".to_string(), self.m228.tree())); }
        if !crate::derive::skip_hash(&self.m229) { o.push(("m229".to_string(), self.m229.tree())); }
        { o.push(("m230".to_string(), self.m230.tree())); }
        { o.push(("m231".to_string(), self.m231.tree())); }
        if !crate::derive::skip_hash(&self.m232) { o.push(("m232".to_string(), self.m232.tree())); }
        { o.push(("m233".to_string(), self.m233.tree())); }
        { o.push(("m234".to_string(), self.m234.tree())); }
        if !crate::derive::skip_hash(&self.m235) { o.push(("m235".to_string(), self.m235.tree())); }
        { o.push(("m236".to_string(), self.m236.tree())); }
        { o.push(("m237".to_string(), self.m237.tree())); }
        if !crate::derive::skip_hash(&self.m238) { o.push(("m238".to_string(), self.m238.tree())); }
        { o.push(("m239".to_string(), self.m239.tree())); }
        { o.push(("m240".to_string(), self.m240.tree())); }
        if !crate::derive::skip_hash(&self.m241) { o.push(("m241".to_string(), self.m241.tree())); }
        { o.push(("m242".to_string(), self.m242.tree())); }
        { o.push(("m243".to_string(), self.m243.tree())); }
        if !crate::derive::skip_hash(&self.m244) { o.push(("m244".to_string(), self.m244.tree())); }
        { o.push(("m245".to_string(), self.m245.tree())); }
        { o.push(("m246".to_string(), self.m246.tree())); }
        if !crate::derive::skip_hash(&self.m247) { o.push(("m247".to_string(), self.m247.tree())); }
        { o.push(("m248".to_string(), self.m248.tree())); }
        { o.push(("m249".to_string(), self.m249.tree())); }
        if !crate::derive::skip_hash(&self.m250) { o.push(("m250".to_string(), self.m250.tree())); }
        { o.push(("m251".to_string(), self.m251.tree())); }
        { o.push(("m252".to_string(), self.m252.tree())); }
        if !crate::derive::skip_hash(&self.m253) { o.push(("m253".to_string(), self.m253.tree())); }
        { o.push(("m254".to_string(), self.m254.tree())); }
        { o.push(("m255".to_string(), self.m255.tree())); }
        if !crate::derive::skip_hash(&self.m256) { o.push(("m256".to_string(), self.m256.tree())); }
        { o.push(("m257".to_string(), self.m257.tree())); }
        { o.push(("m258".to_string(), self.m258.tree())); }
        if !crate::derive::skip_hash(&self.m259) { o.push(("m259".to_string(), self.m259.tree())); }
        { o.push(("m260".to_string(), self.m260.tree())); }
        { o.push(("m261".to_string(), self.m261.tree())); }
        if !crate::derive::skip_hash(&self.m262) { o.push(("m262".to_string(), self.m262.tree())); }
        { o.push(("m263".to_string(), self.m263.tree())); }
        { o.push(("m264".to_string(), self.m264.tree())); }
        if !crate::derive::skip_hash(&self.m265) { o.push(("m265".to_string(), self.m265.tree())); }
        { o.push(("m266".to_string(), self.m266.tree())); }
        { o.push(("m267".to_string(), self.m267.tree())); }
        if !crate::derive::skip_hash(&self.m268) { o.push(("m268".to_string(), self.m268.tree())); }
        { o.push(("m269".to_string(), self.m269.tree())); }
        Tree::Struct(o)
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
pub enum VMany {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
}
impl Names for VMany {
    fn rows() -> Vec<(VMany, &'static str, Vec<&'static str>)> { vec![(VMany::V0, "V0", vec![]), (VMany::V1, "V1", vec![]), (VMany::V2, "V2", vec![]), (VMany::V3, "V3", vec![]), (VMany::V4, "V4", vec![]), (VMany::V5, "V5", vec![]), (VMany::V6, "V6", vec![]), (VMany::V7, "V7", vec![]), (VMany::V8, "V8", vec![]), (VMany::V9, "V9", vec![]), (VMany::V10, "V10", vec![]), (VMany::V11, "V11", vec![]), (VMany::V12, "V12", vec![]), (VMany::V13, "V13", vec![]), (VMany::V14, "V14", vec![]), (VMany::V15, "V15", vec![]), (VMany::V16, "V16", vec![]), (VMany::V17, "V17", vec![]), (VMany::V18, "V18", vec![]), (VMany::V19, "V19", vec![]), (VMany::V20, "V20", vec![]), (VMany::V21, "V21", vec![]), (VMany::V22, "V22", vec![]), (VMany::V23, "V23", vec![]), (VMany::V24, "V24", vec![]), (VMany::V25, "V25", vec![]), (VMany::V26, "V26", vec![]), (VMany::V27, "V27", vec![]), (VMany::V28, "V28", vec![]), (VMany::V29, "V29", vec![]), (VMany::V30, "V30", vec![]), (VMany::V31, "V31", vec![]), (VMany::V32, "V32", vec![]), (VMany::V33, "V33", vec![]), (VMany::V34, "V34", vec![]), (VMany::V35, "V35", vec![]), (VMany::V36, "V36", vec![]), (VMany::V37, "V37", vec![]), (VMany::V38, "V38", vec![]), (VMany::V39, "V39", vec![]), (VMany::V40, "V40", vec![]), (VMany::V41, "V41", vec![]), (VMany::V42, "V42", vec![]), (VMany::V43, "V43", vec![]), (VMany::V44, "V44", vec![]), (VMany::V45, "V45", vec![]), (VMany::V46, "V46", vec![]), (VMany::V47, "V47", vec![]), (VMany::V48, "V48", vec![]), (VMany::V49, "V49", vec![]), (VMany::V50, "V50", vec![]), (VMany::V51, "V51", vec![]), (VMany::V52, "V52", vec![]), (VMany::V53, "V53", vec![]), (VMany::V54, "V54", vec![]), (VMany::V55, "V55", vec![]), (VMany::V56, "V56", vec![]), (VMany::V57, "V57", vec![]), (VMany::V58, "V58", vec![]), (VMany::V59, "V59", vec![]), (VMany::V60, "V60", vec![]), (VMany::V61, "V61", vec![]), (VMany::V62, "V62", vec![]), (VMany::V63, "V63", vec![]), (VMany::V64, "V64", vec![]), (VMany::V65, "V65", vec![]), (VMany::V66, "V66", vec![]), (VMany::V67, "V67", vec![]), (VMany::V68, "V68", vec![]), (VMany::V69, "V69", vec![]), (VMany::V70, "V70", vec![]), (VMany::V71, "V71", vec![]), (VMany::V72, "V72", vec![]), (VMany::V73, "V73", vec![]), (VMany::V74, "V74", vec![]), (VMany::V75, "V75", vec![]), (VMany::V76, "V76", vec![]), (VMany::V77, "V77", vec![]), (VMany::V78, "V78", vec![]), (VMany::V79, "V79", vec![]), (VMany::V80, "V80", vec![]), (VMany::V81, "V81", vec![]), (VMany::V82, "V82", vec![]), (VMany::V83, "V83", vec![]), (VMany::V84, "V84", vec![]), (VMany::V85, "V85", vec![]), (VMany::V86, "V86", vec![]), (VMany::V87, "V87", vec![]), (VMany::V88, "V88", vec![]), (VMany::V89, "V89", vec![]), (VMany::V90, "V90", vec![]), (VMany::V91, "V91", vec![]), (VMany::V92, "V92", vec![]), (VMany::V93, "V93", vec![]), (VMany::V94, "V94", vec![]), (VMany::V95, "V95", vec![]), (VMany::V96, "V96", vec![]), (VMany::V97, "V97", vec![]), (VMany::V98, "V98", vec![]), (VMany::V99, "V99", vec![]), (VMany::V100, "V100", vec![]), (VMany::V101, "V101", vec![]), (VMany::V102, "V102", vec![]), (VMany::V103, "V103", vec![]), (VMany::V104, "V104", vec![]), (VMany::V105, "V105", vec![]), (VMany::V106, "V106", vec![]), (VMany::V107, "V107", vec![]), (VMany::V108, "V108", vec![]), (VMany::V109, "V109", vec![]), (VMany::V110, "V110", vec![]), (VMany::V111, "V111", vec![]), (VMany::V112, "V112", vec![]), (VMany::V113, "V113", vec![]), (VMany::V114, "V114", vec![]), (VMany::V115, "V115", vec![]), (VMany::V116, "V116", vec![]), (VMany::V117, "V117", vec![]), (VMany::V118, "V118", vec![]), (VMany::V119, "V119", vec![]), (VMany::V120, "V120", vec![]), (VMany::V121, "V121", vec![]), (VMany::V122, "V122", vec![]), (VMany::V123, "V123", vec![]), (VMany::V124, "V124", vec![]), (VMany::V125, "V125", vec![]), (VMany::V126, "V126", vec![]), (VMany::V127, "V127", vec![]), (VMany::V128, "V128", vec![]), (VMany::V129, "V129", vec![]), (VMany::V130, "V130", vec![]), (VMany::V131, "V131", vec![]), (VMany::V132, "V132", vec![]), (VMany::V133, "V133", vec![]), (VMany::V134, "V134", vec![]), (VMany::V135, "V135", vec![]), (VMany::V136, "V136", vec![]), (VMany::V137, "V137", vec![]), (VMany::V138, "V138", vec![]), (VMany::V139, "V139", vec![]), (VMany::V140, "V140", vec![]), (VMany::V141, "V141", vec![]), (VMany::V142, "V142", vec![]), (VMany::V143, "V143", vec![]), (VMany::V144, "V144", vec![]), (VMany::V145, "V145", vec![]), (VMany::V146, "V146", vec![]), (VMany::V147, "V147", vec![]), (VMany::V148, "V148", vec![]), (VMany::V149, "V149", vec![]), (VMany::V150, "V150", vec![]), (VMany::V151, "V151", vec![]), (VMany::V152, "V152", vec![]), (VMany::V153, "V153", vec![]), (VMany::V154, "V154", vec![]), (VMany::V155, "V155", vec![]), (VMany::V156, "V156", vec![]), (VMany::V157, "V157", vec![]), (VMany::V158, "V158", vec![]), (VMany::V159, "V159", vec![]), (VMany::V160, "V160", vec![]), (VMany::V161, "V161", vec![]), (VMany::V162, "V162", vec![]), (VMany::V163, "V163", vec![]), (VMany::V164, "V164", vec![]), (VMany::V165, "V165", vec![]), (VMany::V166, "V166", vec![]), (VMany::V167, "V167", vec![]), (VMany::V168, "V168", vec![]), (VMany::V169, "V169", vec![]), (VMany::V170, "V170", vec![]), (VMany::V171, "V171", vec![]), (VMany::V172, "V172", vec![]), (VMany::V173, "V173", vec![]), (VMany::V174, "V174", vec![]), (VMany::V175, "V175", vec![]), (VMany::V176, "V176", vec![]), (VMany::V177, "V177", vec![]), (VMany::V178, "V178", vec![]), (VMany::V179, "V179", vec![]), (VMany::V180, "V180", vec![]), (VMany::V181, "V181", vec![]), (VMany::V182, "V182", vec![]), (VMany::V183, "V183", vec![]), (VMany::V184, "V184", vec![]), (VMany::V185, "V185", vec![]), (VMany::V186, "V186", vec![]), (VMany::V187, "V187", vec![]), (VMany::V188, "V188", vec![]), (VMany::V189, "V189", vec![]), (VMany::V190, "V190", vec![]), (VMany::V191, "V191", vec![]), (VMany::V192, "V192", vec![]), (VMany::V193, "V193", vec![]), (VMany::V194, "V194", vec![]), (VMany::V195, "V195", vec![]), (VMany::V196, "V196", vec![]), (VMany::V197, "V197", vec![]), (VMany::V198, "V198", vec![]), (VMany::V199, "V199", vec![]), (VMany::V200, "V200", vec![]), (VMany::V201, "V201", vec![]), (VMany::V202, "V202", vec![]), (VMany::V203, "V203", vec![]), (VMany::V204, "V204", vec![]), (VMany::V205, "V205", vec![]), (VMany::V206, "V206", vec![]), (VMany::V207, "V207", vec![]), (VMany::V208, "V208", vec![]), (VMany::V209, "V209", vec![]), (VMany::V210, "V210", vec![]), (VMany::V211, "V211", vec![]), (VMany::V212, "V212", vec![]), (VMany::V213, "V213", vec![]), (VMany::V214, "V214", vec![]), (VMany::V215, "V215", vec![]), (VMany::V216, "V216", vec![]), (VMany::V217, "V217", vec![]), (VMany::V218, "V218", vec![]), (VMany::V219, "V219", vec![]), (VMany::V220, "V220", vec![]), (VMany::V221, "V221", vec![]), (VMany::V222, "V222", vec![]), (VMany::V223, "V223", vec![]), (VMany::V224, "V224", vec![]), (VMany::V225, "V225", vec![]), (VMany::V226, "V226", vec![]), (VMany::V227, "V227", vec![]), (VMany::V228, "V228", vec![]), (VMany::V229, "V229", vec![]), (VMany::V230, "V230", vec![]), (VMany::V231, "V231", vec![]), (VMany::V232, "V232", vec![]), (VMany::V233, "V233", vec![]), (VMany::V234, "V234", vec![]), (VMany::V235, "V235", vec![]), (VMany::V236, "V236", vec![]), (VMany::V237, "V237", vec![]), (VMany::V238, "V238", vec![]), (VMany::V239, "V239", vec![]), (VMany::V240, "V240", vec![]), (VMany::V241, "V241", vec![]), (VMany::V242, "V242", vec![]), (VMany::V243, "V243", vec![]), (VMany::V244, "V244", vec![]), (VMany::V245, "V245", vec![]), (VMany::V246, "V246", vec![]), (VMany::V247, "V247", vec![]), (VMany::V248, "V248", vec![]), (VMany::V249, "V249", vec![]), (VMany::V250, "V250", vec![]), (VMany::V251, "V251", vec![]), (VMany::V252, "V252", vec![]), (VMany::V253, "V253", vec![]), (VMany::V254, "V254", vec![]), (VMany::V255, "V255", vec![]), (VMany::V256, "V256", vec![]), (VMany::V257, "V257", vec![]), (VMany::V258, "V258", vec![]), (VMany::V259, "V259", vec![]), (VMany::V260, "V260", vec![]), (VMany::V261, "V261", vec![]), (VMany::V262, "V262", vec![]), (VMany::V263, "V263", vec![]), (VMany::V264, "V264", vec![]), (VMany::V265, "V265", vec![]), (VMany::V266, "V266", vec![]), (VMany::V267, "V267", vec![]), (VMany::V268, "V268", vec![]), (VMany::V269, "V269", vec![])] }
}
enum_model!(VMany);
macro_rules! all_structs { ($m:ident) => { $m! { Plain Flat S0 S1 S2 S3 S4 S5 S6 S7 S8 S9 S10 S11 S12 S13 S14 S15 S16 S17 S18 S19 S20 S21 S22 S23 S24 S25 S26 S27 S28 S29 S30 S31 S32 S33 S34 S35 S36 S37 S38 S39 S40 S41 S42 S43 S44 S45 S46 S47 S48 S49 S50 S51 S52 S53 S54 S55 S56 S57 S58 S59 Many } } }
macro_rules! all_name_structs { ($m:ident) => { $m! { Names0 Names1 Names2 Names3 Names4 Names5 Names6 Names7 Names8 } } }
macro_rules! all_enums { ($m:ident) => { $m! { Color E0 E1 E2 E3 E4 E5 E6 E7 VMany } } }
macro_rules! all_name_enums { ($m:ident) => { $m! { VNames0 VNames1 VNames2 VNames3 VNames4 VNames5 VNames6 VNames7 VNames8 } } }
macro_rules! all_newtypes { ($m:ident) => { $m! { Wrap WrapBytes WrapPlain WrapOpt WrapMap WrapSeq WrapWrap WrapFlat WrapColor WrapArr WrapTuple WrapUnit } } }
pub(crate) use all_structs;
pub(crate) use all_name_structs;
pub(crate) use all_enums;
pub(crate) use all_name_enums;
pub(crate) use all_newtypes;
