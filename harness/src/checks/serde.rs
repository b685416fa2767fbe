//! C21 serde round trip, C22 documented mapping in both directions, C23
//! deserialization is total, exact about ranges and points into the text.
use super::text::clip;
use super::Prop;
use crate::ctx::{sut, Ctx, Data, Outcome};
use crate::gen::*;
use crate::model::{self, Cmp, MDoc, MEntry, MNode};
use crate::refparse::{self, Val, Verdict};
use crate::rng::Rng;
use crate::work::{constructed, drive, Mix, MIX};
use crate::{bail, tri};
use serde::de::{self, DeserializeOwned, MapAccess, SeqAccess, Visitor};
use serde::ser;
use serde::{Deserialize, Deserializer, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Debug};

// ---------------------------------------------------------------- values

/// A random value of the type; `d` bounds the nesting.
trait Arb: Sized {
    fn arb(r: &mut Rng, d: usize) -> Self;
}
macro_rules! arb_int {
    ($($t:ty)*) => { $(impl Arb for $t {
        fn arb(r: &mut Rng, _: usize) -> Self {
            match r.below(6) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => (r.next() as $t) % 3,
                3 => r.next() as u8 as $t,
                4 => <$t>::MAX - (r.below(3) as $t),
                _ => r.next() as $t,
            }
        }
    })* };
}
arb_int!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Arb for bool {
    fn arb(r: &mut Rng, _: usize) -> Self {
        r.p(1, 2)
    }
}
impl Arb for f64 {
    fn arb(r: &mut Rng, _: usize) -> Self {
        rand_float(r)
    }
}
impl Arb for f32 {
    fn arb(r: &mut Rng, _: usize) -> Self {
        if r.p(1, 3) {
            f32::from_bits(r.next() as u32)
        } else {
            rand_float(r) as f32
        }
    }
}
impl Arb for char {
    fn arb(r: &mut Rng, _: usize) -> Self {
        rand_char(r)
    }
}
impl Arb for String {
    fn arb(r: &mut Rng, _: usize) -> Self {
        let w = r.below(4);
        rand_string(r, w)
    }
}
impl Arb for () {
    fn arb(_: &mut Rng, _: usize) -> Self {}
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        if r.p(1, 3) {
            None
        } else {
            Some(T::arb(r, d))
        }
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = if r.p(1, 200) { r.log(6, 300) } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
        (0..n).map(|_| T::arb(r, d)).collect()
    }
}
fn arb_key(r: &mut Rng) -> String {
    if r.p(1, 4) {
        r.pick(&["#args", "#rest", "#0", "#@p", "#type", "-", "", "a", "true", "null", "inf", "1", "#"]).to_string()
    } else {
        String::arb(r, 0)
    }
}
/// A type used for the keys of maps.
trait Key: Ord {
    fn key(r: &mut Rng) -> Self;
}
impl Key for String {
    fn key(r: &mut Rng) -> Self {
        arb_key(r)
    }
}
macro_rules! arb_keys {
    ($($t:ty),* $(,)?) => { $(impl Key for $t {
        fn key(r: &mut Rng) -> Self { Arb::arb(r, 0) }
    })* };
}
arb_keys!(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, Colour, (), Vec<u8>, Option<u8>, Option<bool>, Option<String>, (u8, bool), BTreeMap<String, u8>, Kinds, Wide<u128>);
impl<T: Key> Key for Newtype<T> {
    fn key(r: &mut Rng) -> Self {
        Newtype(T::key(r))
    }
}
impl<K: Key, T: Arb> Arb for BTreeMap<K, T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = r.few(4);
        (0..n).map(|_| (K::key(r), T::arb(r, d))).collect()
    }
}
impl<A: Arb, B: Arb> Arb for (A, B) {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (A::arb(r, d), B::arb(r, d))
    }
}
impl<A: Arb, B: Arb, C: Arb> Arb for (A, B, C) {
    fn arb(r: &mut Rng, d: usize) -> Self {
        (A::arb(r, d), B::arb(r, d), C::arb(r, d))
    }
}
macro_rules! arb_struct {
    ($n:ident<$($g:ident),*> { $($f:ident),* }) => {
        impl<$($g: Arb),*> Arb for $n<$($g),*> {
            fn arb(r: &mut Rng, d: usize) -> Self { $n { $($f: Arb::arb(r, d)),* } }
        }
    };
    ($n:ident { $($f:ident),* }) => {
        impl Arb for $n {
            fn arb(r: &mut Rng, d: usize) -> Self { $n { $($f: Arb::arb(r, d)),* } }
        }
    };
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Newtype<T>(T);
impl<T: Arb> Arb for Newtype<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Newtype(T::arb(r, d))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Pair<A, B>(A, B);
impl<A: Arb, B: Arb> Arb for Pair<A, B> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Pair(A::arb(r, d), B::arb(r, d))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[serde(rename_all = "kebab-case")]
enum Colour {
    Red,
    DarkBlue,
    #[serde(rename = "true")]
    True,
    #[serde(rename = "")]
    Empty,
    #[serde(rename = "1 \"x\"\n")]
    Odd,
}
impl Arb for Colour {
    fn arb(r: &mut Rng, _: usize) -> Self {
        *r.pick(&[Colour::Red, Colour::DarkBlue, Colour::True, Colour::Empty, Colour::Odd])
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Scalars {
    a: u8,
    b: u16,
    c: u32,
    d: u64,
    e: i8,
    f: i16,
    g: i32,
    h: i64,
    i: f32,
    j: f64,
    k: char,
    #[serde(rename = "long name\t\"q\"")]
    l: String,
    #[serde(rename = "-")]
    m: bool,
    n: Option<i32>,
    #[serde(rename = "null")]
    o: Option<String>,
    p: Colour,
}
arb_struct!(Scalars { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p });
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Inner<T> {
    v: T,
    z: Option<u8>,
}
arb_struct!(Inner<T> { v, z });
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Root<T> {
    head: u8,
    n: Inner<T>,
    tail: String,
}
arb_struct!(Root<T> { head, n, tail });
/// Every `#` rename the documentation describes, except the type ones.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Special<T> {
    #[serde(rename = "#0")]
    a: T,
    #[serde(rename = "#1")]
    b: Option<u8>,
    #[serde(rename = "#@p")]
    p: T,
    #[serde(rename = "#@q r")]
    q: Option<String>,
    #[serde(rename = "#rest")]
    rest: Vec<T>,
    child: bool,
    #[serde(rename = "p")]
    same: Option<u16>,
}
arb_struct!(Special<T> { a, b, p, q, rest, child, same });
#[derive(Serialize, Deserialize, Debug, Clone)]
struct AllArgs<T> {
    #[serde(rename = "#args")]
    args: Vec<T>,
    #[serde(rename = "#@k")]
    k: T,
    kids: Vec<u8>,
}
arb_struct!(AllArgs<T> { args, k, kids });
/// One variant of each kind.
#[derive(Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Kinds {
    Unit,
    New(u8),
    Tuple(u8, bool),
    Struct { a: String },
    Map(BTreeMap<String, bool>),
}
impl Arb for Kinds {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(8) {
            0 => Kinds::New(Arb::arb(r, d)),
            1 => Kinds::Tuple(Arb::arb(r, d), Arb::arb(r, d)),
            2 => Kinds::Struct { a: Arb::arb(r, d) },
            3 => Kinds::Map(Arb::arb(r, d)),
            _ => Kinds::Unit,
        }
    }
}
/// 128 bits wide, which the serializer does not take.
#[derive(Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Wide<T>(T);
impl Arb for Wide<i128> {
    fn arb(r: &mut Rng, _: usize) -> Self {
        Wide(rand_int(r))
    }
}
impl Arb for Wide<u128> {
    fn arb(r: &mut Rng, _: usize) -> Self {
        Wide(rand_int(r) as u128)
    }
}
/// Arguments collected into something other than a Vec.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct ArgsAs<T> {
    #[serde(rename = "#args")]
    args: T,
    #[serde(rename = "#@k")]
    k: Option<u8>,
    flag: bool,
}
arb_struct!(ArgsAs<T> { args, k, flag });
#[derive(Serialize, Deserialize, Debug, Clone)]
struct RestAs<T> {
    #[serde(rename = "#0")]
    a: String,
    #[serde(rename = "#rest")]
    rest: T,
    flag: bool,
}
arb_struct!(RestAs<T> { a, rest, flag });
/// None, or a list with something in it: an empty one is no different from none.
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(transparent)]
struct Filled<T>(Option<T>);
impl<T: Arb + Debug> Arb for Filled<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        loop {
            let x = Option::<T>::arb(r, d);
            if !x.as_ref().is_some_and(|x| format!("{x:?}").contains("[]")) {
                return Filled(x);
            }
        }
    }
}
/// serde's other way to write a list of bytes.
#[derive(Debug, Clone)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Bytes, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Bytes(v))
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(v.to_vec()))
            }
        }
        d.deserialize_byte_buf(Vis)
    }
}
impl Arb for Bytes {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Bytes(Arb::arb(r, d))
    }
}
impl<T: Arb> Arb for [T; 2] {
    fn arb(r: &mut Rng, d: usize) -> Self {
        [T::arb(r, d), T::arb(r, d)]
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        Box::new(T::arb(r, d))
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(deny_unknown_fields)]
struct Strict {
    #[serde(rename = "#0")]
    a: u8,
    #[serde(rename = "#@p")]
    p: bool,
    c: Option<String>,
}
arb_struct!(Strict { a, p, c });
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Ext<T> {
    Unit,
    #[serde(rename = "odd name {}")]
    Odd,
    Nt(T),
    Tup(T, String, bool),
    Flag(bool, Option<u8>),
    St {
        a: T,
        b: bool,
        o: Option<i8>,
        v: Vec<bool>,
    },
    Sp {
        #[serde(rename = "#0")]
        a: T,
        #[serde(rename = "#@p")]
        p: bool,
        #[serde(rename = "#rest")]
        rest: Vec<T>,
        deep: Inner<u8>,
    },
    Args {
        #[serde(rename = "#args")]
        args: Vec<T>,
        x: Option<u8>,
    },
}
impl<T: Arb> Arb for Ext<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(8) {
            0 => Ext::Unit,
            1 => Ext::Odd,
            2 => Ext::Nt(T::arb(r, d)),
            3 => Ext::Tup(T::arb(r, d), Arb::arb(r, d), Arb::arb(r, d)),
            4 => Ext::Flag(Arb::arb(r, d), Arb::arb(r, d)),
            5 => Ext::St { a: T::arb(r, d), b: Arb::arb(r, d), o: Arb::arb(r, d), v: Arb::arb(r, d) },
            6 => Ext::Sp { a: T::arb(r, d), p: Arb::arb(r, d), rest: Arb::arb(r, d), deep: Arb::arb(r, d) },
            _ => Ext::Args { args: Arb::arb(r, d), x: Arb::arb(r, d) },
        }
    }
}
/// An enum at the top of a document; unit variants are not documents.
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(transparent)]
struct TopEnum<T>(Ext<T>);
impl<T: Arb> Arb for TopEnum<T> {
    fn arb(r: &mut Rng, d: usize) -> Self {
        loop {
            let mut e = Ext::<T>::arb(r, d);
            // `false` and null leave no trace at the top level, where left-out
            // fields are not filled in (see the known findings)
            if let Ext::St { v, .. } = &mut e {
                if v.is_empty() {
                    v.push(true);
                }
            }
            if !matches!(e, Ext::Unit | Ext::Odd) {
                return TopEnum(e);
            }
        }
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Tree {
    name: String,
    on: bool,
    kids: BTreeMap<String, Tree>,
    next: Option<Box<Tree>>,
    tag: Ext<u16>,
}
impl Arb for Tree {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.below(3) };
        Tree {
            name: Arb::arb(r, 0),
            on: Arb::arb(r, 0),
            kids: (0..n).map(|_| (arb_key(r), Tree::arb(r, d - 1))).collect(),
            next: if d > 0 && r.p(1, 2) { Some(Box::new(Tree::arb(r, d - 1))) } else { None },
            tag: Arb::arb(r, d),
        }
    }
}

/// Types that serde itself reads through a self-describing detour. What is
/// left out (false, null) is not told apart there, so none of it is used.
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    Num(i64),
    Float(f64),
    Text(String),
    Struct(Plain),
    Named(BTreeMap<String, i32>),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Plain {
    x: u8,
    y: String,
    o: Option<u8>,
}
arb_struct!(Plain { x, y, o });
impl Arb for Untagged {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(5) {
            0 => Untagged::Num(Arb::arb(r, d)),
            1 => Untagged::Float(Arb::arb(r, d)),
            2 => Untagged::Text(Arb::arb(r, d)),
            3 => Untagged::Struct(Arb::arb(r, d)),
            _ => {
                let mut m = BTreeMap::<String, i32>::arb(r, d);
                // so that it is no `Plain`
                m.remove("x");
                // an empty map is the same text as a flag
                m.insert("k".into(), Arb::arb(r, d));
                Untagged::Named(m)
            }
        }
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "t")]
enum Internal {
    A { x: i64, o: Option<String> },
    B(Plain),
    C,
}
impl Arb for Internal {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => Internal::A { x: Arb::arb(r, d), o: Arb::arb(r, d) },
            1 => Internal::B(Arb::arb(r, d)),
            _ => Internal::C,
        }
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A { x: u8, y: Option<String> },
    B(String),
    D(u8, String),
    E(Vec<i32>),
}
impl Arb for Adjacent {
    fn arb(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Adjacent::A { x: Arb::arb(r, d), y: Arb::arb(r, d) },
            1 => Adjacent::B(Arb::arb(r, d)),
            2 => Adjacent::D(Arb::arb(r, d), Arb::arb(r, d)),
            _ => Adjacent::E(Arb::arb(r, d)),
        }
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Flat {
    first: u8,
    #[serde(flatten)]
    p: Plain,
    last: String,
}
arb_struct!(Flat { first, p, last });
#[derive(Serialize, Deserialize, Debug, Clone)]
struct FlatMap {
    first: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, i32>,
}
impl Arb for FlatMap {
    fn arb(r: &mut Rng, d: usize) -> Self {
        let mut rest = BTreeMap::<String, i32>::arb(r, d);
        rest.remove("first");
        FlatMap { first: Arb::arb(r, d), rest }
    }
}

// ---------------------------------------------------------------- model of the writer

/// What serde sees of a value, kept apart from how KDL writes it.
#[derive(Debug, Clone)]
enum Shape {
    Val(Val),
    Seq(Vec<Shape>),
    Map(Vec<(String, Shape)>),
    Struct(Vec<(String, Shape)>),
    Variant(String, Box<Shape>),
}
#[derive(Debug)]
struct NoShape(String);
impl fmt::Display for NoShape {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for NoShape {}
impl ser::Error for NoShape {
    fn custom<T: fmt::Display>(m: T) -> Self {
        NoShape(m.to_string())
    }
}
struct ShapeSer;
struct Parts {
    variant: Option<String>,
    is_map: bool,
    seq: Vec<Shape>,
    named: Vec<(String, Shape)>,
    key: Option<String>,
}
impl Parts {
    fn new(variant: Option<&str>, is_map: bool) -> Parts {
        Parts { variant: variant.map(str::to_string), is_map, seq: vec![], named: vec![], key: None }
    }
    fn wrap(self, s: Shape) -> Result<Shape, NoShape> {
        Ok(match self.variant {
            Some(v) => Shape::Variant(v, Box::new(s)),
            None => s,
        })
    }
    fn end_seq(mut self) -> Result<Shape, NoShape> {
        let s = std::mem::take(&mut self.seq);
        self.wrap(Shape::Seq(s))
    }
    fn end_named(mut self) -> Result<Shape, NoShape> {
        let n = std::mem::take(&mut self.named);
        let s = if self.is_map { Shape::Map(n) } else { Shape::Struct(n) };
        self.wrap(s)
    }
}
macro_rules! seq_impl {
    ($($tr:ident $m:ident)*) => { $(impl ser::$tr for Parts {
        type Ok = Shape;
        type Error = NoShape;
        fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NoShape> {
            self.seq.push(v.serialize(ShapeSer)?);
            Ok(())
        }
        fn end(self) -> Result<Shape, NoShape> { self.end_seq() }
    })* };
}
seq_impl!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
macro_rules! named_impl {
    ($($tr:ident)*) => { $(impl ser::$tr for Parts {
        type Ok = Shape;
        type Error = NoShape;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), NoShape> {
            self.named.push((k.to_string(), v.serialize(ShapeSer)?));
            Ok(())
        }
        fn end(self) -> Result<Shape, NoShape> { self.end_named() }
    })* };
}
named_impl!(SerializeStruct SerializeStructVariant);
impl ser::SerializeMap for Parts {
    type Ok = Shape;
    type Error = NoShape;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), NoShape> {
        match k.serialize(ShapeSer)? {
            Shape::Val(Val::Str(s)) => self.key = Some(s),
            Shape::Val(Val::Int(i)) => self.key = Some(i.to_string()),
            Shape::Val(Val::Bool(b)) => self.key = Some(b.to_string()),
            _ => return Err(NoShape("key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NoShape> {
        let k = self.key.take().unwrap();
        self.named.push((k, v.serialize(ShapeSer)?));
        Ok(())
    }
    fn end(self) -> Result<Shape, NoShape> {
        self.end_named()
    }
}
macro_rules! shape_ints {
    ($($m:ident $t:ty)*) => { $(fn $m(self, v: $t) -> Result<Shape, NoShape> { Ok(Shape::Val(Val::Int(v as i128))) })* };
}
impl ser::Serializer for ShapeSer {
    type Ok = Shape;
    type Error = NoShape;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    shape_ints!(serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8 serialize_u16 u16 serialize_u32 u32 serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Bool(v)))
    }
    fn serialize_f32(self, v: f32) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Float(v as f64)))
    }
    fn serialize_f64(self, v: f64) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Float(v)))
    }
    fn serialize_char(self, v: char) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Str(v.to_string())))
    }
    fn serialize_str(self, v: &str) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Str(v.to_string())))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Shape, NoShape> {
        Ok(Shape::Seq(v.iter().map(|b| Shape::Val(Val::Int(*b as i128))).collect()))
    }
    fn serialize_none(self) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Null))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Shape, NoShape> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Null))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Null))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Shape, NoShape> {
        Ok(Shape::Val(Val::Str(v.to_string())))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Shape, NoShape> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Shape, NoShape> {
        match v.serialize(self)? {
            v @ Shape::Val(_) => Ok(Shape::Variant(n.to_string(), Box::new(v))),
            // the serializer takes scalars only, and says so
            v => Err(NoShape(format!("{v:?} in a newtype variant"))),
        }
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, NoShape> {
        Ok(Parts::new(None, false))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, NoShape> {
        Ok(Parts::new(None, false))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, NoShape> {
        Ok(Parts::new(None, false))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Parts, NoShape> {
        Ok(Parts::new(Some(v), false))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Parts, NoShape> {
        Ok(Parts::new(None, true))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts, NoShape> {
        Ok(Parts::new(None, false))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Parts, NoShape> {
        Ok(Parts::new(Some(v), false))
    }
}

fn new_node(name: &str) -> MNode {
    MNode { ty: None, name: name.to_string(), entries: vec![], children: None }
}
/// Err: nothing in KDL stands for it there.
type Written<T> = Result<T, NoShape>;
fn arg(v: &Shape) -> Written<MEntry> {
    match v {
        Shape::Val(v) => Ok(MEntry { ty: None, name: None, value: v.clone() }),
        s => Err(NoShape(format!("{s:?} is not a scalar"))),
    }
}
fn left_out(s: &Shape) -> bool {
    matches!(s, Shape::Val(Val::Null | Val::Bool(false)))
}
fn args(n: &mut MNode, xs: &[Shape]) -> Written<()> {
    for x in xs {
        n.entries.push(arg(x)?);
    }
    Ok(())
}
fn add_fields(n: &mut MNode, fs: &[(String, Shape)]) -> Written<Vec<MNode>> {
    let mut kids = vec![];
    for (k, v) in fs {
        if let Some(p) = k.strip_prefix("#@") {
            let mut e = arg(v)?;
            e.name = Some(p.to_string());
            n.entries.push(e);
        } else if k == "#args" || k == "#rest" {
            match v {
                Shape::Seq(xs) => args(n, xs)?,
                // no arguments at all
                Shape::Val(Val::Null) => {}
                _ => return Err(NoShape(format!("{k} of {v:?}"))),
            }
        } else if k.starts_with('#') {
            n.entries.push(arg(v)?);
        } else if !left_out(v) {
            kids.push(write(k, v)?);
        }
    }
    Ok(kids)
}
fn write(name: &str, s: &Shape) -> Written<MNode> {
    let mut n = new_node(name);
    match s {
        Shape::Val(_) => n.entries.push(arg(s)?),
        Shape::Seq(xs) => args(&mut n, xs)?,
        Shape::Map(es) => n.children = Some(es.iter().map(|(k, v)| write(k, v)).collect::<Result<_, _>>()?),
        Shape::Struct(fs) => {
            let kids = add_fields(&mut n, fs)?;
            n.children = Some(kids);
        }
        Shape::Variant(v, b) => {
            let kid = match &**b {
                Shape::Struct(fs) => {
                    let mut k = new_node(v);
                    let kids = add_fields(&mut k, fs)?;
                    k.children = Some(kids);
                    n.entries.append(&mut k.entries);
                    k
                }
                b => write(v, b)?,
            };
            n.children = Some(vec![kid]);
        }
    }
    Ok(n)
}
fn write_doc(s: &Shape) -> Written<MDoc> {
    Ok(match s {
        Shape::Val(Val::Null) => vec![],
        Shape::Val(_) => vec![write("-", s)?],
        Shape::Seq(xs) => xs.iter().map(|x| write("-", x)).collect::<Result<_, _>>()?,
        Shape::Map(es) => es.iter().map(|(k, v)| write(k, v)).collect::<Result<_, _>>()?,
        Shape::Struct(fs) => fs.iter().filter(|(_, v)| !left_out(v)).map(|(k, v)| write(k, v)).collect::<Result<_, _>>()?,
        Shape::Variant(v, b) => match &**b {
            Shape::Seq(xs) => xs.iter().map(|x| write(v, x)).collect::<Result<_, _>>()?,
            b => vec![write(v, b)?],
        },
    })
}

// ---------------------------------------------------------------- C21 / writer half of C22

fn round<T: Serialize + DeserializeOwned + Debug + Arb>(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let v = T::arb(&mut r, 3);
    let t = match tri!(kdl::se::to_string(&v), "to_string") {
        Ok(t) => t,
        Err(e) => bail!("ser-error", "{v:?} does not serialize: {e}"),
    };
    let w: T = match tri!(kdl::de::from_str::<T>(&t), "from_str") {
        Ok(w) => w,
        Err(e) => bail!("de-error", "{v:?} serializes to {:?}, which does not read back: {e}", clip(&t)),
    };
    let (a, b) = (format!("{v:?}"), format!("{w:?}"));
    if a != b {
        bail!("changed", "{} serializes to {:?} and reads back as {}", clip(&a), clip(&t), clip(&b));
    }
    ctx.count("values_round_tripped");
    ctx.add("text_bytes", t.len() as u64);
    Outcome::Held(t.len() > 8)
}
fn writes<T: Serialize + Arb + Debug>(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let v = T::arb(&mut r, 3);
    let want = match v.serialize(ShapeSer).and_then(|s| write_doc(&s)) {
        Ok(w) => w,
        Err(NoShape(why)) => {
            let (d, t) = (tri!(kdl::se::to_document(&v), "to_document"), tri!(kdl::se::to_string(&v), "to_string"));
            if let Ok(d) = &d {
                bail!("accepts", "{} has no place in KDL ({}), but to_document writes {:?}", clip(&format!("{v:?}")), clip(&why), clip(&d.to_string()));
            }
            if let Ok(t) = &t {
                bail!("accepts", "{} has no place in KDL ({}), but to_string writes {:?}", clip(&format!("{v:?}")), clip(&why), clip(t));
            }
            ctx.count("values_refused");
            return Outcome::Held(false);
        }
    };
    let d = match tri!(kdl::se::to_document(&v), "to_document") {
        Ok(d) => d,
        Err(e) => bail!("ser-error", "{v:?} does not serialize: {e}"),
    };
    const C: Cmp = Cmp { empty_block_is_none: true, values: true };
    if let Some(x) = model::diff(&model::doc(&d), &want, C) {
        bail!("document", "{} serializes to a document that is not what the mapping says: {x}: {:?}", clip(&format!("{v:?}")), clip(&d.to_string()));
    }
    let t = match tri!(kdl::se::to_string(&v), "to_string") {
        Ok(t) => t,
        Err(e) => bail!("ser-error", "to_document works, to_string does not: {e}"),
    };
    match refparse::parse_document(&t) {
        Verdict::Accept(rd, _) => {
            if let Some(x) = model::diff(&model::from_ref(&rd), &want, C) {
                bail!("text", "{} serializes to a text that says something else: {x}: {:?}", clip(&format!("{v:?}")), clip(&t));
            }
        }
        v2 if v2.is_gray() => {}
        Verdict::Reject(p, why, _) => bail!("text", "serialized text is not KDL at {p}: {why}: {:?}", clip(&t)),
    }
    ctx.add("nodes_compared_with_mapping", model::count_nodes(&want) as u64);
    Outcome::Held(!want.is_empty())
}

type Case = (&'static str, fn(&mut Ctx, u64) -> Outcome, fn(&mut Ctx, u64) -> Outcome);
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! one {
        ($t:ty) => {
            v.push((stringify!($t), round::<$t>, writes::<$t>))
        };
    }
    // below the top level
    macro_rules! below {
        ($($t:ty),* $(,)?) => { $(
            v.push((concat!("Root<", stringify!($t), ">"), round::<Root<$t>>, writes::<Root<$t>>));
            v.push((concat!("Map<", stringify!($t), ">"), round::<BTreeMap<String, $t>>, writes::<BTreeMap<String, $t>>));
            v.push((concat!("Vec<Inner<", stringify!($t), ">>"), round::<Vec<Inner<$t>>>, writes::<Vec<Inner<$t>>>));
            v.push((concat!("Map<Inner<Newtype<", stringify!($t), ">>>"), round::<BTreeMap<String, Inner<Newtype<$t>>>>, writes::<BTreeMap<String, Inner<Newtype<$t>>>>));
            v.push((concat!("(Inner<", stringify!($t), ">,Inner<u8>)"), round::<(Inner<$t>, Inner<u8>)>, writes::<(Inner<$t>, Inner<u8>)>));
        )* };
    }
    // anywhere
    macro_rules! any {
        ($($t:ty),* $(,)?) => { $(
            below!($t);
            v.push((concat!("Inner<", stringify!($t), ">"), round::<Inner<$t>>, writes::<Inner<$t>>));
        )* };
    }
    any!(u8, u64, i64, f32, f64, char, String, Colour, Option<i32>, Option<String>, Option<Colour>, Option<Newtype<u8>>);
    any!(Vec<u8>, Vec<String>, Vec<bool>, Vec<Option<u16>>, Vec<f64>, Vec<Colour>, Vec<()>);
    any!((u8, String), (bool, Option<u8>, f64), Pair<String, bool>, Pair<Option<i8>, u8>);
    any!(BTreeMap<String, u8>, BTreeMap<String, bool>, BTreeMap<String, Option<String>>, BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, bool>>);
    any!(Scalars, Inner<Scalars>, Option<Scalars>, Option<Inner<bool>>, Strict, Option<Strict>);
    any!(Special<u8>, Special<String>, Special<bool>, Special<Option<f64>>, Special<Colour>, AllArgs<u8>, AllArgs<String>, AllArgs<bool>, Option<AllArgs<u8>>);
    any!(Ext<u8>, Ext<String>, Ext<bool>, Ext<Colour>, Option<Ext<u8>>, Inner<Ext<String>>, BTreeMap<String, Ext<bool>>);
    below!(bool, (), Newtype<bool>, Newtype<Option<u8>>);
    any!(BTreeMap<char, u8>, BTreeMap<Colour, bool>, BTreeMap<Newtype<String>, Option<u8>>, BTreeMap<Newtype<Newtype<Colour>>, Vec<u8>>);
    any!(ArgsAs<(u8, String)>, ArgsAs<[bool; 2]>, ArgsAs<Newtype<Vec<Option<u8>>>>, ArgsAs<Pair<f64, Colour>>, ArgsAs<Newtype<(bool, char)>>, ArgsAs<Box<Vec<Newtype<String>>>>);
    any!(RestAs<(u8, String)>, RestAs<[Option<i8>; 2]>, RestAs<Newtype<Vec<Colour>>>, RestAs<Pair<bool, i64>>);
    any!(ArgsAs<Filled<Vec<u8>>>, RestAs<Filled<Newtype<Vec<String>>>>, ArgsAs<Filled<(bool, u8)>>);
    any!([u8; 2], [Colour; 2], Box<String>, Box<Inner<bool>>);
    macro_rules! tagged {
        ($($t:ty),* $(,)?) => { $(
            one!(Root<$t>);
            one!(Inner<$t>);
            one!(BTreeMap<String, $t>);
            one!(Root<Option<$t>>);
            one!(Vec<Inner<$t>>);
        )* };
    }
    tagged!(Untagged, Internal, Adjacent, Flat, FlatMap);
    one!(Flat);
    one!(FlatMap);
    one!(Internal);
    one!(Adjacent);
    one!(Vec<Flat>);
    one!(Vec<Internal>);
    one!(Vec<Adjacent>);
    one!(Scalars2);
    one!(Root<Tree>);
    one!(BTreeMap<String, Tree>);
    one!((Tree, Tree));
    one!(Vec<u8>);
    one!(Vec<String>);
    one!(Vec<bool>);
    one!(Vec<Option<u8>>);
    one!(Vec<Vec<u8>>);
    one!(Vec<Vec<Option<String>>>);
    one!(Vec<(bool, String)>);
    one!(Vec<Special<String>>);
    one!(Vec<BTreeMap<String, bool>>);
    one!(Vec<Ext<u8>>);
    one!(Vec<Tree>);
    one!((u8, String, f64));
    one!((Scalars, Vec<u8>));
    one!(Pair<Inner<bool>, Special<u8>>);
    one!(TopEnum<u8>);
    one!(TopEnum<String>);
    one!(TopEnum<Colour>);
    one!(BTreeMap<char, Inner<u8>>);
    one!(BTreeMap<Colour, Vec<String>>);
    one!([Inner<u8>; 2]);
    one!([bool; 2]);
    // what is only ever written: a lone scalar is not a document anybody
    // reads back
    macro_rules! write_only {
        ($($t:ty),* $(,)?) => { $(
            v.push((concat!("write only ", stringify!($t)), |_, _| Outcome::Skip("only written"), writes::<$t>));
        )* };
    }
    any!(BTreeMap<u8, u8>, BTreeMap<i64, String>, BTreeMap<u64, bool>, BTreeMap<bool, u8>, BTreeMap<Newtype<i8>, Vec<u8>>, BTreeMap<i32, BTreeMap<u16, Option<u8>>>);
    one!(BTreeMap<i16, Inner<BTreeMap<u32, Special<u8>>>>);
    one!(BTreeMap<u16, Scalars>);
    one!(Inner<BTreeMap<bool, Ext<u8>>>);
    one!(Vec<BTreeMap<bool, bool>>);
    write_only!(u8, i64, u64, f32, f64, bool, char, String, Colour, (), Option<u8>, Option<String>, Nothing, Newtype<i16>, Newtype<Option<bool>>);
    // what has no place below the top level, or nowhere
    write_only!(Inner<Vec<Vec<u8>>>, Inner<Vec<Inner<u8>>>, Root<Vec<BTreeMap<String, u8>>>, Inner<Vec<Ext<u8>>>, Inner<(u8, Vec<bool>)>, Inner<Pair<Colour, Option<Inner<u8>>>>, Vec<Vec<Vec<u8>>>, BTreeMap<String, Vec<Option<Vec<u8>>>>);
    write_only!(Inner<Special<Vec<u8>>>, Vec<Special<Inner<u8>>>, Vec<Special<Option<BTreeMap<String, u8>>>>, Root<Special<Ext<u8>>>, Inner<AllArgs<Option<Vec<u8>>>>, Inner<AllArgs<Option<Bytes>>>, Root<AllArgs<Ext<u8>>>, Inner<ArgsAs<Inner<u8>>>, Inner<ArgsAs<BTreeMap<String, u8>>>, Inner<RestAs<Special<u8>>>, Ext<Option<Vec<u8>>>, Inner<Ext<Option<Inner<u8>>>>, Vec<Ext<BTreeMap<String, u8>>>);
    write_only!(BTreeMap<Vec<u8>, u8>, BTreeMap<(), u8>, BTreeMap<Option<u8>, u8>, BTreeMap<Option<String>, Vec<u8>>, BTreeMap<(u8, bool), u8>, BTreeMap<Newtype<Vec<u8>>, bool>, Inner<BTreeMap<Vec<u8>, u8>>, Inner<BTreeMap<Option<bool>, u8>>, BTreeMap<String, BTreeMap<(), u8>>, BTreeMap<BTreeMap<String, u8>, u8>, BTreeMap<Kinds, u8>, Inner<BTreeMap<Kinds, Inner<u8>>>);
    write_only!(Wide<i128>, Wide<u128>, Inner<Option<Wide<i128>>>, Vec<Wide<u128>>, Inner<Vec<Wide<i128>>>, BTreeMap<Wide<u128>, u8>, Inner<Special<Option<Wide<i128>>>>);
    write_only!(Bytes, Inner<Bytes>, Root<Bytes>, BTreeMap<String, Bytes>, Vec<Inner<Bytes>>, Inner<Option<Bytes>>, Inner<Nothing>, Root<Inner<Nothing>>, BTreeMap<String, Nothing>);
    v
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Scalars2 {
    s: Scalars,
    t: Vec<u8>,
    o: Option<Scalars>,
}
arb_struct!(Scalars2 { s, t, o });

/// Known limits of the mapping, shown again on every run.
const SAMPLES: [&str; 3] = ["top-level false", "Some(false)", "absent field with a default"];
fn sample(_: &mut Ctx, t: &str) -> Outcome {
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    struct B {
        b: bool,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    struct O {
        b: Option<bool>,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    struct D {
        #[serde(default)]
        n: u8,
        #[serde(default)]
        v: Vec<u8>,
    }
    fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: T) -> Result<(), String> {
        let t = kdl::se::to_string(&v).map_err(|e| e.to_string())?;
        match kdl::de::from_str::<T>(&t) {
            Ok(w) if w == v => Ok(()),
            w => Err(format!("{v:?} serializes to {t:?}, which reads back as {w:?}")),
        }
    }
    let r = match t {
        "top-level false" => rt(B { b: false }),
        "Some(false)" => rt(Inner2 { n: O { b: Some(false) } }),
        _ => match kdl::de::from_str::<Inner2<D>>("n { v 1 }") {
            Ok(Inner2 { n: D { n: 0, v } }) if v == [1] => Ok(()),
            w => Err(format!("`n {{ v 1 }}` reads as {w:?}")),
        },
    };
    match r {
        Ok(()) => Outcome::Held(true),
        Err(e) => Outcome::Viol("mapping-limit".into(), e),
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Inner2<T> {
    n: T,
}

fn split(seed: u64, n: usize) -> usize {
    (seed % n as u64) as usize
}
fn c21_case(ctx: &mut Ctx, s: u64) -> Outcome {
    let c = cases();
    let (n, f, _) = c[split(s, c.len())];
    match f(ctx, s) {
        Outcome::Viol(k, d) => Outcome::Viol(k, format!("[{n}] {d}")),
        o => o,
    }
}
fn c22_write_case(ctx: &mut Ctx, s: u64) -> Outcome {
    let c = cases();
    let (n, _, f) = c[split(s, c.len())];
    match f(ctx, s) {
        Outcome::Viol(k, d) => Outcome::Viol(k, format!("[{n}] {d}")),
        o => o,
    }
}
fn c21(ctx: &mut Ctx) {
    if ctx.worker == 0 {
        for s in SAMPLES {
            let data = Data::Text(s.to_string());
            ctx.publish("mapping-limit", &data);
            let o = sample(ctx, s);
            ctx.settle("mapping-limit", data, crate::rng::hash_bytes(s.as_bytes()), o);
        }
        ctx.add("types", cases().len() as u64);
    }
    let mut r = ctx.rng("c21");
    for _ in 0..ctx.n(400_000, 12_000_000) {
        if ctx.stop() {
            return;
        }
        let s = r.next();
        ctx.seeded("value", s, c21_case);
    }
}

// ---------------------------------------------------------------- reader half of C22

/// Whatever a self-describing target is told.
#[derive(Debug, Clone)]
enum Any {
    Val(Val),
    Seq(Vec<Any>),
    Map(Vec<(String, Any)>),
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E: de::Error>(self, v: bool) -> Result<Any, E> {
                Ok(Any::Val(Val::Bool(v)))
            }
            fn visit_i64<E: de::Error>(self, v: i64) -> Result<Any, E> {
                Ok(Any::Val(Val::Int(v as i128)))
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Any, E> {
                Ok(Any::Val(Val::Int(v as i128)))
            }
            fn visit_i128<E: de::Error>(self, v: i128) -> Result<Any, E> {
                Ok(Any::Val(Val::Int(v)))
            }
            fn visit_f64<E: de::Error>(self, v: f64) -> Result<Any, E> {
                Ok(Any::Val(Val::Float(v)))
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Any, E> {
                Ok(Any::Val(Val::Str(v.to_string())))
            }
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Val(Val::Null))
            }
            fn visit_none<E: de::Error>(self) -> Result<Any, E> {
                Ok(Any::Val(Val::Null))
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
                Any::deserialize(d)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
                Any::deserialize(d)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Any::Seq(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_key::<String>()? {
                    v.push((k, a.next_value()?));
                }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(Vis)
    }
}
fn any_diff(a: &Any, b: &Any, p: &str) -> Option<String> {
    match (a, b) {
        (Any::Val(x), Any::Val(y)) if x.same(y) => None,
        (Any::Seq(x), Any::Seq(y)) => {
            if x.len() != y.len() {
                return Some(format!("{p}: {} elements instead of {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (x, y))| any_diff(x, y, &format!("{p}[{i}]")))
        }
        (Any::Map(x), Any::Map(y)) => {
            let mut x: Vec<_> = x.iter().collect();
            let mut y: Vec<_> = y.iter().collect();
            x.sort_by(|a, b| a.0.cmp(&b.0));
            y.sort_by(|a, b| a.0.cmp(&b.0));
            if x.iter().map(|e| &e.0).ne(y.iter().map(|e| &e.0)) {
                return Some(format!("{p}: keys {:?} instead of {:?}", x.iter().map(|e| &e.0).collect::<Vec<_>>(), y.iter().map(|e| &e.0).collect::<Vec<_>>()));
            }
            x.iter().zip(&y).find_map(|(x, y)| any_diff(&x.1, &y.1, &format!("{p}.{:?}", x.0)))
        }
        (a, b) => Some(format!("{p}: {} instead of {}", clip(&format!("{a:?}")), clip(&format!("{b:?}")))),
    }
}
/// Properties by name, the last of each; None when a child has the same name
/// (what the merged map then holds is not said).
fn last_props(n: &MNode) -> Vec<(String, &MEntry)> {
    let mut v: Vec<(String, &MEntry)> = vec![];
    for e in &n.entries {
        if let Some(k) = &e.name {
            v.retain(|(x, _)| x != k);
            v.push((k.clone(), e));
        }
    }
    v
}
fn groups(d: &MDoc) -> Vec<(&str, Vec<&MNode>)> {
    let mut v: Vec<(&str, Vec<&MNode>)> = vec![];
    let mut at: HashMap<&str, usize> = HashMap::new();
    for n in d {
        match at.get(n.name.as_str()) {
            Some(i) => v[*i].1.push(n),
            None => {
                at.insert(&n.name, v.len());
                v.push((&n.name, vec![n]));
            }
        }
    }
    v
}
fn any_group(g: &[&MNode]) -> Option<Any> {
    if g.len() == 1 {
        any_node(g[0])
    } else {
        Some(Any::Seq(g.iter().map(|n| any_node(n)).collect::<Option<_>>()?))
    }
}
fn any_node(n: &MNode) -> Option<Any> {
    let args: Vec<&MEntry> = n.entries.iter().filter(|e| e.name.is_none()).collect();
    let props = last_props(n);
    if props.is_empty() && n.children.is_none() {
        return Some(match args.len() {
            0 => Any::Val(Val::Bool(true)),
            1 => Any::Val(args[0].value.clone()),
            _ => Any::Seq(args.iter().map(|a| Any::Val(a.value.clone())).collect()),
        });
    }
    let mut m: Vec<(String, Any)> = props.iter().map(|(k, e)| (k.clone(), Any::Val(e.value.clone()))).collect();
    if let Some(c) = &n.children {
        for (k, g) in groups(c) {
            if m.iter().any(|(x, _)| x == k) {
                return None;
            }
            m.push((k.to_string(), any_group(&g)?));
        }
    }
    Some(Any::Map(m))
}
fn any_doc(d: &MDoc) -> Option<Any> {
    let mut m = vec![];
    for (k, g) in groups(d) {
        m.push((k.to_string(), any_group(&g)?));
    }
    Some(Any::Map(m))
}
fn reads(ctx: &mut Ctx, t: &str) -> Outcome {
    let rd = match refparse::parse_document(t) {
        Verdict::Accept(rd, _) => rd,
        _ => return Outcome::Skip("not clearly a KDL document"),
    };
    let m = model::from_ref(&rd);
    let Some(want) = any_doc(&m) else {
        return Outcome::Skip("a property and a child of one name");
    };
    let got = match tri!(kdl::de::from_str::<Any>(t), "from_str") {
        Ok(a) => a,
        Err(e) => bail!("any-error", "a document does not deserialize into a self-describing type: {e}"),
    };
    if let Some(x) = any_diff(&got, &want, "$") {
        bail!("any-differs", "deserialized otherwise than the mapping says: {x}");
    }
    ctx.add("nodes_mapped", model::count_nodes(&m) as u64);
    Outcome::Held(!m.is_empty())
}

/// Asks for everything the `#` names can ask for.
#[derive(Deserialize, Debug)]
struct Probe {
    #[serde(rename = "#type")]
    ty: Option<String>,
    #[serde(rename = "#name")]
    name: String,
    #[serde(rename = "#0")]
    a0: Option<Any>,
    #[serde(rename = "#0#type")]
    t0: Option<String>,
    #[serde(rename = "#2")]
    a2: Option<Any>,
    #[serde(rename = "#2#type")]
    t2: Option<Newtype<String>>,
    #[serde(rename = "#rest")]
    rest: Vec<Any>,
    #[serde(rename = "#@a")]
    pa: Option<Any>,
    #[serde(rename = "#@a#type")]
    pat: Option<String>,
    #[serde(rename = "a")]
    ca: Option<Any>,
    #[serde(rename = "#@b#type")]
    pbt: Option<String>,
    b: Option<Any>,
    c: Option<Vec<Any>>,
    d: bool,
    // never there: left-out children of every kind that may be left out
    #[serde(rename = "absent 1")]
    z1: Any,
    #[serde(rename = "absent 2")]
    z2: bool,
    #[serde(rename = "absent 3")]
    z3: (),
    #[serde(rename = "absent 4")]
    z4: Option<Newtype<u8>>,
    #[serde(rename = "absent 5")]
    z5: Newtype<Option<bool>>,
    #[serde(rename = "absent 6")]
    z6: Nothing,
    #[serde(rename = "absent 7")]
    z7: Newtype<Newtype<bool>>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Nothing;
impl Arb for Nothing {
    fn arb(_: &mut Rng, _: usize) -> Self {
        Nothing
    }
}
#[derive(Deserialize, Debug)]
struct Probe2 {
    #[serde(rename = "#args")]
    args: Vec<Any>,
    #[serde(rename = "#1")]
    a1: Option<Any>,
    #[serde(rename = "#type")]
    ty: Option<Newtype<String>>,
    #[serde(rename = "#name")]
    name: Option<Newtype<String>>,
}
fn some(v: &Val) -> Option<Any> {
    match v {
        Val::Null => None,
        v => Some(Any::Val(v.clone())),
    }
}
/// What an Option of anything gets from the children of one name.
fn opt_group(g: &[&MNode]) -> Option<Option<Any>> {
    if g.len() == 1 {
        if g[0].entries.is_empty() && g[0].children.is_none() {
            return Some(None);
        }
        return Some(match any_node(g[0])? {
            Any::Val(Val::Null) => None,
            x => Some(x),
        });
    }
    Some(Some(any_group(g)?))
}
fn opt_diff(what: &str, got: &Option<Any>, want: &Option<Any>) -> Option<String> {
    match (got, want) {
        (None, None) => None,
        (Some(a), Some(b)) => any_diff(a, b, what),
        (a, b) => Some(format!("{what}: {a:?} instead of {b:?}")),
    }
}
/// Small documents over the names the probe asks for.
fn probe_doc(r: &mut Rng, depth: usize) -> String {
    let mut t = String::new();
    for _ in 0..r.range(1, 4) {
        probe_node(r, depth, &mut t);
    }
    t
}
fn probe_val(r: &mut Rng, t: &mut String) {
    if r.p(1, 3) {
        t.push_str(r.pick(&["(u8)", "(\"\")", "(a)", "(\"type \\n\")"]));
    }
    let i = rand_int(r).to_string();
    let s = *r.pick(&["1", "2", "#true", "#false", "#null", "x", "\"\"", "1.5", "-0.0", "#inf", "0x1F", "\"#args\"", "\"a\\u{301}\""]);
    t.push_str(if r.p(1, 6) { &i } else { s });
}
fn probe_node(r: &mut Rng, depth: usize, t: &mut String) {
    if r.p(1, 12) {
        t.push_str("/-");
    }
    if r.p(1, 4) {
        t.push_str(r.pick(&["(t)", "(\"\")", "(a)", "( \"#type\" )"]));
    }
    t.push_str(r.pick(&["a", "b", "c", "d", "\"a\"", "#\"b\"#", "e"]));
    for _ in 0..r.few(6) {
        t.push(' ');
        if r.p(1, 12) {
            t.push_str("/-");
        }
        if r.p(1, 2) {
            t.push_str(r.pick(&["a=", "b=", "\"a\"=", "x=", "\"#0\"=", "b = ", "\"#rest\"="]));
        }
        probe_val(r, t);
    }
    if depth > 0 && r.p(1, 2) {
        t.push_str(" {\n");
        for _ in 0..r.few(4) {
            probe_node(r, depth - 1, t);
        }
        t.push('}');
    }
    t.push_str(r.pick(&["\n", ";", " // c\n", "\r\n"]));
}
fn probe(ctx: &mut Ctx, t: &str) -> Outcome {
    let rd = match refparse::parse_document(t) {
        Verdict::Accept(rd, _) => rd,
        _ => return Outcome::Skip("not clearly a KDL document"),
    };
    let m = model::from_ref(&rd);
    // the whole tree has to be mappable, and every asked-for child too
    let got = match tri!(kdl::de::from_str::<Vec<Probe>>(t), "from_str") {
        Ok(g) => Ok(g),
        Err(e) => Err(e.to_string()),
    };
    let mut want_err = false;
    for n in &m {
        let kids: Vec<(&str, Vec<&MNode>)> = n.children.as_ref().map(groups).unwrap_or_default();
        for name in ["b", "c", "d", "#rest", "#0"] {
            let prop = n.entries.iter().any(|e| e.name.as_deref() == Some(name));
            let kid = kids.iter().any(|(k, _)| *k == name);
            if name.starts_with('#') {
                if prop || kid {
                    return Outcome::Skip("a property or child named like a special name");
                }
            } else if prop && kid {
                return Outcome::Skip("a property and a child of one name");
            }
        }
        for (_, g) in &kids {
            if any_group(g).is_none() {
                return Outcome::Skip("a property and a child of one name");
            }
        }
        // `c` is a list: properties are not lists
        let c = kids.iter().find(|(k, _)| *k == "c");
        if let Some((_, g)) = c {
            if g.len() == 1 && g[0].entries.iter().any(|e| e.name.is_some()) {
                return Outcome::Skip("a node with properties read as a list");
            }
            if g.len() == 1 && g[0].children.is_some() && !g[0].entries.is_empty() {
                return Outcome::Skip("a node with arguments and children read as a list");
            }
        }
        // `d` is a flag
        if let Some(e) = last_props(n).iter().find(|(k, _)| k == "d").map(|x| x.1) {
            want_err |= !matches!(e.value, Val::Bool(_));
        }
        if let Some((_, g)) = kids.iter().find(|(k, _)| *k == "d") {
            want_err |= g.len() != 1 || !matches!(any_node(g[0]), Some(Any::Val(Val::Bool(_))));
        }
    }
    let got = match got {
        Ok(g) => g,
        Err(_) if want_err => return Outcome::Held(false),
        Err(e) => bail!("probe-error", "special names do not deserialize: {e}"),
    };
    if want_err {
        bail!("probe-accepts", "something other than a flag was read as a bool");
    }
    if got.len() != m.len() {
        bail!("probe-length", "{} nodes read as {} elements", m.len(), got.len());
    }
    for (i, (n, p)) in m.iter().zip(&got).enumerate() {
        let args: Vec<&MEntry> = n.entries.iter().filter(|e| e.name.is_none()).collect();
        let props = last_props(n);
        let prop = |k: &str| props.iter().find(|x| x.0 == k).map(|x| x.1);
        let kids: Vec<(&str, Vec<&MNode>)> = n.children.as_ref().map(groups).unwrap_or_default();
        let kid = |k: &str| kids.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let arg = |i: usize| args.get(i).and_then(|e| some(&e.value));
        let argt = |i: usize| args.get(i).and_then(|e| e.ty.clone());
        let rest: Vec<Any> = args.iter().enumerate().filter(|(i, _)| *i != 0 && *i != 2).map(|(_, e)| Any::Val(e.value.clone())).collect();
        let child = |k: &str| kid(k).and_then(|g| opt_group(&g).unwrap());
        let b = match prop("b") {
            Some(e) => some(&e.value),
            None => child("b"),
        };
        let c = kid("c").and_then(|g| {
            if g.len() > 1 {
                return Some(Any::Seq(g.iter().map(|n| any_node(n).unwrap()).collect()));
            }
            let n = g[0];
            if n.entries.is_empty() && n.children.is_none() {
                return None;
            }
            match &n.children {
                Some(c) => Some(Any::Seq(c.iter().map(|n| any_node(n).unwrap()).collect())),
                None if n.entries.len() == 1 && matches!(n.entries[0].value, Val::Null) => None,
                None => Some(Any::Seq(n.entries.iter().map(|e| Any::Val(e.value.clone())).collect())),
            }
        });
        let d = match (prop("d"), kid("d")) {
            (Some(e), _) => matches!(e.value, Val::Bool(true)),
            (None, Some(g)) => matches!(any_node(g[0]), Some(Any::Val(Val::Bool(true)))),
            _ => false,
        };
        // children of `c` read one by one may themselves be unmappable
        let diff = opt_diff("#0", &p.a0, &arg(0))
            .or_else(|| opt_diff("#2", &p.a2, &arg(2)))
            .or_else(|| any_diff(&Any::Seq(p.rest.clone()), &Any::Seq(rest), "#rest"))
            .or_else(|| opt_diff("#@a", &p.pa, &prop("a").and_then(|e| some(&e.value))))
            .or_else(|| opt_diff("a", &p.ca, &child("a")))
            .or_else(|| opt_diff("b", &p.b, &b))
            .or_else(|| opt_diff("c", &p.c.clone().map(Any::Seq), &c))
            .or_else(|| (p.d != d).then(|| format!("d: {} instead of {d}", p.d)))
            .or_else(|| (p.name != n.name).then(|| format!("#name: {:?} instead of {:?}", p.name, n.name)))
            .or_else(|| (p.ty != n.ty).then(|| format!("#type: {:?} instead of {:?}", p.ty, n.ty)))
            .or_else(|| (p.t0 != argt(0)).then(|| format!("#0#type: {:?} instead of {:?}", p.t0, argt(0))))
            .or_else(|| (p.t2.as_ref().map(|x| x.0.clone()) != argt(2)).then(|| format!("#2#type: {:?} instead of {:?}", p.t2, argt(2))))
            .or_else(|| {
                let want = prop("a").and_then(|e| e.ty.clone());
                (p.pat != want).then(|| format!("#@a#type: {:?} instead of {want:?}", p.pat))
            })
            .or_else(|| {
                let want = prop("b").and_then(|e| e.ty.clone());
                (p.pbt != want).then(|| format!("#@b#type: {:?} instead of {want:?}", p.pbt))
            });
        let diff = diff.or_else(|| any_diff(&p.z1, &Any::Val(Val::Bool(false)), "left-out child")).or_else(|| {
            let _: (&(), &Nothing) = (&p.z3, &p.z6);
            (p.z2 || p.z4.is_some() || p.z5.0.is_some() || p.z7.0.0).then(|| format!("left-out children read as {:?} {:?} {:?} {:?}", p.z2, p.z4, p.z5, p.z7))
        });
        if let Some(x) = diff {
            bail!("probe-differs", "node {i} read through the special names: {x}");
        }
        ctx.count("nodes_probed");
    }
    match tri!(kdl::de::from_str::<Vec<Probe2>>(t), "from_str") {
        Err(e) => bail!("probe2-error", "#args, #1 and #type do not deserialize: {e}"),
        Ok(v) => {
            for (n, p) in m.iter().zip(&v) {
                let args: Vec<&MEntry> = n.entries.iter().filter(|e| e.name.is_none()).collect();
                let want = Any::Seq(args.iter().map(|e| Any::Val(e.value.clone())).collect());
                let d = any_diff(&Any::Seq(p.args.clone()), &want, "#args")
                    .or_else(|| opt_diff("#1", &p.a1, &args.get(1).and_then(|e| some(&e.value))))
                    .or_else(|| (p.ty.as_ref().map(|x| x.0.clone()) != n.ty).then(|| "#type".to_string()))
                    .or_else(|| (p.name.as_ref().map(|x| &x.0) != Some(&n.name)).then(|| "#name".to_string()));
                if let Some(x) = d {
                    bail!("probe2-differs", "read through #args: {x}");
                }
            }
        }
    }
    Outcome::Held(m.len() > 1)
}
fn probe_seed(ctx: &mut Ctx, s: u64) -> String {
    let mut r = Rng::new(s);
    ctx.count("probe_documents");
    probe_doc(&mut r, 3)
}
fn c22(ctx: &mut Ctx) {
    let mut r = ctx.rng("c22w");
    for _ in 0..ctx.n(150_000, 4_000_000) {
        if ctx.stop() {
            return;
        }
        let s = r.next();
        ctx.seeded("written", s, c22_write_case);
    }
    let mut r = ctx.rng("c22p");
    for _ in 0..ctx.n(150_000, 4_000_000) {
        if ctx.stop() {
            return;
        }
        let t = probe_seed(ctx, r.next());
        ctx.text("probe", &t, probe);
        ctx.text("small-document", &t, reads);
    }
    let mut r = ctx.rng("c22g");
    for _ in 0..ctx.n(60_000, 1_500_000) {
        if ctx.stop() {
            return;
        }
        let (t, _) = constructed(r.next());
        ctx.text("document", &t, reads);
    }
}
fn c22_replay(ctx: &mut Ctx, w: &str, d: &Data) -> Outcome {
    match d {
        Data::Seed(s) => c22_write_case(ctx, *s),
        Data::Text(t) if w == "probe" => probe(ctx, t),
        Data::Text(t) => reads(ctx, t),
    }
}

// ---------------------------------------------------------------- C23

fn err_ok(t: &str, e: &kdl::de::Error) -> Option<String> {
    use miette::Diagnostic;
    if e.to_string().is_empty() {
        return Some("an error without a message".into());
    }
    let spans = e.span().into_iter().chain(e.labels().into_iter().flatten().map(|l| *l.inner()));
    for s in spans {
        let (a, b) = (s.offset(), s.offset().checked_add(s.len()));
        match b {
            Some(b) if b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b) => {}
            _ => return Some(format!("span {a}+{} is not a part of the text of {} bytes", s.len(), t.len())),
        }
    }
    let d = e.diagnostic();
    if let (Some(_), None) = (e.span(), &d) {
        return Some("an error with a span but no diagnostic".into());
    }
    if let Some(d) = d {
        if d.input.as_str() != t {
            return Some("the diagnostic is about another text".into());
        }
    }
    let mut s = String::new();
    let _ = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::none()).render_report(&mut s, e);
    None
}
fn total_one<T: DeserializeOwned>(ctx: &mut Ctx, t: &str, parsed: &Result<kdl::KdlDocument, kdl::KdlError>, what: &str) -> Option<Outcome> {
    let v = |k: &str, d: String| Some(Outcome::Viol(k.into(), format!("[{what}] {d}")));
    let r = match sut(|| kdl::de::from_str::<T>(t)) {
        Err(p) => return v("panic", format!("from_str panicked: {p}")),
        Ok(r) => r,
    };
    match (&r, parsed) {
        (Ok(_), Err(_)) => return v("accepts-rejected", "from_str accepts a text that does not parse".into()),
        (Err(e), Err(p)) => {
            use miette::Diagnostic;
            let n = e.related().map(|r| r.count()).unwrap_or(0);
            if n != p.diagnostics.len() {
                return v("diagnostics-lost", format!("{n} diagnostics instead of {}", p.diagnostics.len()));
            }
            if e.diagnostic().as_ref() != p.diagnostics.first() {
                return v("diagnostics-lost", "the first diagnostic is not the parser's".into());
            }
            ctx.count("syntax_errors_compared");
        }
        (Ok(_), Ok(_)) => ctx.count("deserialized"),
        (Err(_), Ok(_)) => ctx.count("refused"),
    }
    if let Err(e) = &r {
        match sut(|| err_ok(t, e)) {
            Err(p) => return v("panic", format!("reporting the error panicked: {p}")),
            Ok(Some(d)) => return v("bad-error", d),
            Ok(None) => {}
        }
    }
    None
}
fn total(ctx: &mut Ctx, t: &str) -> Outcome {
    let parsed = tri!(t.parse::<kdl::KdlDocument>(), "parse");
    macro_rules! go {
        ($($t:ty),*) => { $( if let Some(o) = total_one::<$t>(ctx, t, &parsed, stringify!($t)) { return o; } )* };
    }
    go!(Every, Vec<Every>, BTreeMap<String, Every>, Option<BTreeMap<String, Vec<Every>>>, BTreeMap<String, Newtype<Vec<Any>>>, Nothing, (), BTreeMap<String, Nothing>, Bytes, BTreeMap<String, Bytes>, Vec<Bytes>, BTreeMap<Newtype<String>, (Any, Any)>, BTreeMap<i8, Any>, BTreeMap<Letter, de::IgnoredAny>, Letter, Newtype<String>, BTreeMap<String, Option<Letter>>);
    go!(Any, Vec<Probe>, BTreeMap<String, Ext<u8>>, Vec<Ext<String>>, TopEnum<u8>, BTreeMap<String, Vec<Scalars>>);
    go!(BTreeMap<String, u8>, Vec<Special<bool>>, Option<BTreeMap<String, char>>, BTreeMap<String, Option<Vec<i64>>>, Root<f64>, (u8, Strict), Newtype<BTreeMap<String, ()>>);
    Outcome::Held(!t.is_empty())
}

/// Variants of every kind under the names the small documents use.
#[derive(Deserialize, Debug)]
#[allow(non_camel_case_types, dead_code)]
enum Every {
    a,
    b(Any),
    c(u8, Any),
    d {
        a: Option<Any>,
        b: bool,
    },
    x(Newtype<Vec<Any>>),
    e {
        #[serde(rename = "#0")]
        v: Option<Any>,
        #[serde(rename = "#rest")]
        r: Vec<Any>,
        #[serde(rename = "#@a")]
        p: Option<u8>,
    },
    #[serde(rename = "-")]
    dash(BTreeMap<String, Any>),
    n(()),
}
#[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[allow(non_camel_case_types)]
enum Letter {
    a,
    b,
    c,
    x,
}

/// Type annotations are read like strings, into whatever takes a string.
const TYPE_PLACES: [(&str, &str); 4] = [("(", ")n"), ("n (", ")1"), ("n p=(", ")x"), ("m 0 {n 1 p=(", ")#null {x}}")];
#[derive(Deserialize)]
struct A0<T> {
    #[serde(rename = "#type")]
    v: T,
}
#[derive(Deserialize)]
struct A1<T> {
    #[serde(rename = "#0#type")]
    v: T,
}
#[derive(Deserialize)]
struct A2<T> {
    #[serde(rename = "#@p#type")]
    v: T,
}
#[derive(Deserialize)]
struct InN<T> {
    n: T,
}
#[derive(Deserialize)]
struct InM<T> {
    m: T,
}
fn type_place<T: DeserializeOwned>(i: usize, t: &str) -> Result<T, kdl::de::Error> {
    use kdl::de::from_str;
    match i {
        0 => from_str::<InN<A0<T>>>(t).map(|x| x.n.v),
        1 => from_str::<InN<A1<T>>>(t).map(|x| x.n.v),
        2 => from_str::<InN<A2<T>>>(t).map(|x| x.n.v),
        _ => from_str::<InM<InN<A2<T>>>>(t).map(|x| x.m.n.v),
    }
}
fn annotation(ctx: &mut Ctx, lit: &str) -> Outcome {
    let ty = match refparse::parse_document(&format!("({lit})a")) {
        Verdict::Accept(d, _) if d.nodes.len() == 1 && d.nodes[0].entries.is_empty() => match model::from_ref(&d)[0].ty.clone() {
            Some(t) => t,
            None => return Outcome::Skip("not one annotation"),
        },
        _ => return Outcome::Skip("not one annotation"),
    };
    for (i, (pre, post)) in TYPE_PLACES.iter().enumerate() {
        let t = format!("{pre}{lit}{post}");
        macro_rules! check {
            ($ty:ty, $want:expr) => {{
                let want: Option<$ty> = $want;
                let got = tri!(type_place::<$ty>(i, &t), stringify!($ty));
                match (&got, &want) {
                    (Ok(g), Some(w)) if format!("{g:?}") == format!("{w:?}") => ctx.count("annotations_exact"),
                    (Err(e), None) => {
                        ctx.count("annotations_refused");
                        if let Some(d) = err_ok(&t, e) {
                            bail!("bad-error", "{t:?} as {}: {d}", stringify!($ty));
                        }
                        match e.span() {
                            // white space beside it may or may not be included
                            Some(s) if s.len() > 0 && s.offset() + 1 >= pre.len() && s.offset() + s.len() <= pre.len() + lit.len() + 1 => {}
                            s => bail!("error-elsewhere", "{t:?} as {}: the error's span is {s:?}, the annotation is at {}+{}", stringify!($ty), pre.len(), lit.len()),
                        }
                    }
                    (Ok(g), None) => bail!("wrong-value", "{t:?}: the annotation {ty:?} reads as {} {g:?}", stringify!($ty)),
                    (Ok(g), Some(w)) => bail!("wrong-value", "{t:?}: the annotation reads as {} {g:?} instead of {w:?}", stringify!($ty)),
                    (Err(e), Some(w)) => bail!("refuses-value", "{t:?}: the annotation does not read as {} {w:?}: {e}", stringify!($ty)),
                }
            }};
        }
        check!(String, Some(ty.clone()));
        check!(Option<String>, Some(Some(ty.clone())));
        check!(Newtype<Option<Newtype<String>>>, Some(Newtype(Some(Newtype(ty.clone())))));
        check!(char, {
            let mut c = ty.chars();
            c.next().filter(|_| c.next().is_none())
        });
        check!(Letter, match ty.as_str() {
            "a" => Some(Letter::a),
            "b" => Some(Letter::b),
            "c" => Some(Letter::c),
            "x" => Some(Letter::x),
            _ => None,
        });
        check!(u8, None);
        check!(bool, None);
        check!(f64, None);
        check!((), None);
        check!(Vec<u8>, None);
        check!(Option<i64>, None);
        check!(Plain, None);
        match tri!(type_place::<Any>(i, &t), "Any") {
            Ok(Any::Val(Val::Str(s))) if s == ty => {}
            o => bail!("wrong-value", "{t:?}: the annotation {ty:?} reads as {o:?} into a self-describing type"),
        }
    }
    Outcome::Held(true)
}

const PLACES: [(&str, &str); 5] = [("a ", ""), ("n { v ", "; }"), ("n p=", ""), ("n 0 ", ""), ("m {n p=1 p=", " {x}}")];
#[derive(Deserialize)]
struct P0<T> {
    a: T,
}
#[derive(Deserialize)]
struct P1<T> {
    n: P1n<T>,
}
#[derive(Deserialize)]
struct P1n<T> {
    v: T,
}
#[derive(Deserialize)]
struct P2<T> {
    n: P2n<T>,
}
#[derive(Deserialize)]
struct P2n<T> {
    #[serde(rename = "#@p")]
    v: T,
}
#[derive(Deserialize)]
struct P3<T> {
    n: P3n<T>,
}
#[derive(Deserialize)]
struct P3n<T> {
    #[serde(rename = "#1")]
    v: T,
}
#[derive(Deserialize)]
struct P4<T> {
    m: P2<T>,
}
fn place<T: DeserializeOwned>(i: usize, t: &str) -> Result<T, kdl::de::Error> {
    use kdl::de::from_str;
    match i {
        0 => from_str::<P0<T>>(t).map(|x| x.a),
        1 => from_str::<P1<T>>(t).map(|x| x.n.v),
        2 => from_str::<P2<T>>(t).map(|x| x.n.v),
        3 => from_str::<P3<T>>(t).map(|x| x.n.v),
        _ => from_str::<P4<T>>(t).map(|x| x.m.n.v),
    }
}
/// A literal read into every scalar type, in every place.
fn ranges(ctx: &mut Ctx, lit: &str) -> Outcome {
    let val = match refparse::parse_document(&format!("a {lit}")) {
        Verdict::Accept(d, _) if d.nodes.len() == 1 && d.nodes[0].children.is_none() && d.nodes[0].entries.len() == 1 && d.nodes[0].entries[0].name.is_none() => {
            d.nodes[0].entries[0].value.clone()
        }
        _ => return Outcome::Skip("not one literal"),
    };
    if matches!(val, Val::BigInt) {
        return Outcome::Skip("integer outside i128");
    }
    for (i, (pre, post)) in PLACES.iter().enumerate() {
        let t = format!("{pre}{lit}{post}");
        macro_rules! fail {
            ($k:expr, $($a:tt)*) => { bail!($k, "{t:?}: {}", format!($($a)*)) };
        }
        macro_rules! check {
            ($ty:ty, $want:expr) => {{
                let want: Option<$ty> = $want;
                let got = tri!(place::<$ty>(i, &t), stringify!($ty));
                match (&got, &want) {
                    (Ok(g), Some(w)) if format!("{g:?}") == format!("{w:?}") => ctx.count("values_exact"),
                    (Err(e), None) => {
                        ctx.count("values_refused");
                        if let Some(d) = err_ok(&t, e) {
                            fail!("bad-error", "as {}: {d}", stringify!($ty));
                        }
                        match e.span() {
                            Some(s) if s.offset() <= pre.len() && s.offset() + s.len() >= pre.len() + lit.len() => {}
                            s => fail!("error-elsewhere", "as {}: the error's span is {s:?}, the value is at {}+{}", stringify!($ty), pre.len(), lit.len()),
                        }
                    }
                    (Ok(g), None) => fail!("wrong-value", "reads as {} {g:?}, but the value is {val:?}", stringify!($ty)),
                    (Ok(g), Some(w)) => fail!("wrong-value", "reads as {} {g:?} instead of {w:?}", stringify!($ty)),
                    (Err(e), Some(w)) => fail!("refuses-value", "does not read as {} {w:?}: {e}", stringify!($ty)),
                }
            }};
        }
        macro_rules! ints {
            ($($ty:ty)*) => { $(check!($ty, if let Val::Int(v) = &val { <$ty>::try_from(*v).ok() } else { None });)* };
        }
        ints!(u8 u16 u32 u64 i8 i16 i32 i64 i128 u128);
        match &val {
            Val::Float(f) => {
                check!(f64, Some(*f));
                check!(f32, Some(*f as f32));
            }
            Val::Int(v) => {
                if let Ok(x) = i64::try_from(*v) {
                    check!(f64, Some(x as f64));
                }
            }
            _ => {
                check!(f64, None);
                check!(f32, None);
            }
        }
        check!(bool, if let Val::Bool(b) = &val { Some(*b) } else { None });
        check!(String, if let Val::Str(s) = &val { Some(s.clone()) } else { None });
        check!(char, match &val {
            Val::Str(s) if s.chars().count() == 1 => s.chars().next(),
            _ => None,
        });
        check!(Option<String>, match &val {
            Val::Str(s) => Some(Some(s.clone())),
            Val::Null => Some(None),
            _ => None,
        });
        check!(Option<i32>, match &val {
            Val::Int(v) => i32::try_from(*v).ok().map(Some),
            Val::Null => Some(None),
            _ => None,
        });
    }
    Outcome::Held(true)
}
fn c23(ctx: &mut Ctx) {
    let mut r = ctx.rng("c23n");
    for _ in 0..ctx.n(12_000, 300_000) {
        if ctx.stop() {
            return;
        }
        let lit = match r.below(6) {
            0 => rand_number_text(&mut r),
            1 => rand_int(&mut r).to_string(),
            2 => {
                // near the ends of every integer type
                let b = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
                let edge = if b == 127 { i128::MAX } else { 1i128 << b };
                let v = edge.saturating_add(r.range(0, 2) as i128 - 1);
                if r.p(1, 2) { v.to_string() } else { v.checked_neg().unwrap_or(v).to_string() }
            }
            3 => {
                let b = *r.pick(&[7u32, 8, 16, 31, 32, 63, 64]);
                format!("{}0x{:X}", r.pick(&["", "-", "+"]), 1i128 << b)
            }
            4 if r.p(1, 2) => {
                let w = r.below(4);
                let mut s = rand_string(&mut r, w);
                if r.p(1, 2) {
                    s = (0..r.range(1, 3)).map(|_| rand_char(&mut r)).collect();
                }
                kdl::KdlValue::String(s).to_string()
            }
            4 => r.pick(&["#true", "#false", "#null", "x", "\"\"", "\"é\"", "#inf", "#nan", "#-inf", "\"1\"", "1.0", "1e3"]).to_string(),
            _ => format!("{:?}", rand_float(&mut r)),
        };
        ctx.text("literal", &lit, ranges);
    }
    for _ in 0..ctx.n(6_000, 150_000) {
        if ctx.stop() {
            return;
        }
        let lit = match r.below(4) {
            0 => r.pick(&["a", "b", "c", "x", "d", "\"a\"", "#\"b\"#", "é", "\"\"", "\"\\n\"", " a ", "/**/c", "\"\"\"\n\"\"\"", "\"u8\"", "u8", "\"1\"", "\"#true\"", "true"]).to_string(),
            1 => {
                let w = r.below(4);
                kdl::KdlValue::String(rand_string(&mut r, w)).to_string()
            }
            _ => string_soup(&mut r).trim_start_matches("n ").to_string(),
        };
        ctx.text("annotation", &lit, annotation);
    }
    drive(
        ctx,
        Mix { large: (160, 3_000), generated: (15_000, 400_000), mutated: (25_000, 800_000), tokens: (20_000, 600_000), strings: (4_000, 100_000), numbers: (4_000, 100_000), exhaustive: (2, 3), codepoints: false, ..MIX },
        total,
    );
    let mut r = ctx.rng("c23p");
    for _ in 0..ctx.n(30_000, 800_000) {
        if ctx.stop() {
            return;
        }
        let mut t = probe_doc(&mut r, 2);
        if r.p(1, 2) {
            let o = probe_doc(&mut r, 1);
            t = mutate(&mut r, &t, &o);
        }
        ctx.text("small-document", &t, total);
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "value serialized to more than 8 bytes of text and read back",
            run: c21,
            replay: |c, _, d| match d {
                Data::Seed(s) => c21_case(c, *s),
                Data::Text(t) => sample(c, t),
            },
        },
        Prop { id: "C22", rule: "at least one node was compared with the mapping", run: c22, replay: c22_replay },
        Prop {
            id: "C23",
            rule: "non-empty text or literal put through every target type",
            run: c23,
            replay: |c, w, d| match d {
                Data::Text(t) if w == "literal" => ranges(c, t),
                Data::Text(t) if w == "annotation" => annotation(c, t),
                Data::Text(t) => total(c, t),
                Data::Seed(_) => panic!("harness: no seeds here"),
            },
        },
    ]
}
