//! Real types: generated Rust definitions with the derives a user would write.
use crate::env::{In, Out};
use crate::item::{Subject, Traits};
use crate::schema::*;
use crate::serdes::*;
use dlhn::{Deserializer, SerializeHeader, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::io::Write;
use std::sync::{Arc, OnceLock};

/// A hash map whose iteration order the simulation decides.
#[derive(Clone)]
pub struct SeededState(u64);
impl Default for SeededState {
    fn default() -> Self {
        SeededState(HASH_SEED.with(|h| h.get()))
    }
}
pub struct SeededHasher(u64);
impl BuildHasher for SeededState {
    type Hasher = SeededHasher;
    fn build_hasher(&self) -> SeededHasher {
        SeededHasher(self.0)
    }
}
impl Hasher for SeededHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
    }
    fn finish(&self) -> u64 {
        crate::tape::mix(self.0, 1)
    }
}
thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}
pub struct HMap<T>(pub HashMap<String, T, SeededState>);
impl<T: Serialize> Serialize for HMap<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for HMap<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        HashMap::deserialize(d).map(HMap)
    }
}
/// The library describes only maps with the default hasher; the description does not depend on it.
impl<T: SerializeHeader> SerializeHeader for HMap<T> {
    fn serialize_header<W: Write>(w: &mut W) -> std::io::Result<()> {
        HashMap::<String, T>::serialize_header(w)
    }
}

/// Between a real type and the model.
pub trait Model: Sized {
    fn schema() -> Schema;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

macro_rules! uints { ($($t:ty => $s:ident),*) => { $(
    impl Model for $t {
        fn schema() -> Schema { Schema::$s }
        fn from_val(v: &Val) -> Self { match v { Val::U(x) => *x as $t, _ => unreachable!() } }
        fn to_val(&self) -> Val { Val::U(*self as u64) }
    } )* } }
macro_rules! ints { ($($t:ty => $s:ident),*) => { $(
    impl Model for $t {
        fn schema() -> Schema { Schema::$s }
        fn from_val(v: &Val) -> Self { match v { Val::I(x) => *x as $t, _ => unreachable!() } }
        fn to_val(&self) -> Val { Val::I(*self as i64) }
    } )* } }
uints!(u8 => U8, u16 => U16, u32 => U32, u64 => U64);
ints!(i8 => I8, i16 => I16, i32 => I32, i64 => I64);

impl Model for () {
    fn schema() -> Schema { Schema::Unit }
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val { Val::Unit }
}
impl Model for bool {
    fn schema() -> Schema { Schema::Bool }
    fn from_val(v: &Val) -> Self { matches!(v, Val::Bool(true)) }
    fn to_val(&self) -> Val { Val::Bool(*self) }
}
impl Model for char {
    fn schema() -> Schema { Schema::Char }
    fn from_val(v: &Val) -> Self { match v { Val::Char(c) => *c, _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Char(*self) }
}
impl Model for f32 {
    fn schema() -> Schema { Schema::F32 }
    fn from_val(v: &Val) -> Self { match v { Val::F32(b) => f32::from_bits(*b), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::F32(self.to_bits()) }
}
impl Model for f64 {
    fn schema() -> Schema { Schema::F64 }
    fn from_val(v: &Val) -> Self { match v { Val::F64(b) => f64::from_bits(*b), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::F64(self.to_bits()) }
}
impl Model for String {
    fn schema() -> Schema { Schema::Str(false) }
    fn from_val(v: &Val) -> Self { match v { Val::Str(s) => s.clone(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Str(self.clone()) }
}
impl Model for serde_bytes::ByteBuf {
    fn schema() -> Schema { Schema::Bytes(false, false) }
    fn from_val(v: &Val) -> Self { match v { Val::Bytes(b) => serde_bytes::ByteBuf::from(b.clone()), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Bytes(self.to_vec()) }
}
impl<T: Model> Model for Option<T> {
    fn schema() -> Schema { Schema::opt(T::schema()) }
    fn from_val(v: &Val) -> Self { match v { Val::Opt(v) => v.as_ref().map(|v| T::from_val(v)), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Opt(self.as_ref().map(|v| Box::new(v.to_val()))) }
}
impl<T: Model> Model for Vec<T> {
    fn schema() -> Schema { Schema::seq(T::schema()) }
    fn from_val(v: &Val) -> Self { match v { Val::Seq(v) => v.iter().map(T::from_val).collect(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|v| v.to_val()).collect()) }
}
impl<T: Model> Model for Box<T> {
    fn schema() -> Schema { T::schema() }
    fn from_val(v: &Val) -> Self { Box::new(T::from_val(v)) }
    fn to_val(&self) -> Val { (**self).to_val() }
}
impl<T: Model> Model for BTreeMap<String, T> {
    fn schema() -> Schema { Schema::Map(Arc::new(T::schema())) }
    fn from_val(v: &Val) -> Self { match v { Val::Map(m) => m.iter().map(|(k, v)| (k.clone(), T::from_val(v))).collect(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.clone(), v.to_val())).collect()) }
}
impl<T: Model> Model for HMap<T> {
    fn schema() -> Schema { Schema::Map(Arc::new(T::schema())) }
    fn from_val(v: &Val) -> Self { match v { Val::Map(m) => HMap(m.iter().map(|(k, v)| (k.clone(), T::from_val(v))).collect()), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Map(self.0.iter().map(|(k, v)| (k.clone(), v.to_val())).collect()) }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn schema() -> Schema { Schema::tuple((0..N).map(|_| T::schema()).collect()) }
    fn from_val(v: &Val) -> Self { match v { Val::Tup(v) => std::array::from_fn(|i| T::from_val(&v[i])), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Tup(self.iter().map(|v| v.to_val()).collect()) }
}
impl Model for dlhn::BigUint {
    fn schema() -> Schema { Schema::BigUint(Form::Wrapper) }
    fn from_val(v: &Val) -> Self { match v { Val::BigUint(b) => big_uint(b).into(), _ => unreachable!() } }
    fn to_val(&self) -> Val { let n: num_bigint::BigUint = self.clone().into(); Val::BigUint(mag_of_biguint(&n)) }
}
impl Model for dlhn::BigInt {
    fn schema() -> Schema { Schema::BigInt(Form::Wrapper) }
    fn from_val(v: &Val) -> Self { match v { Val::BigInt(b) => big_int(b).into(), _ => unreachable!() } }
    fn to_val(&self) -> Val { let n: num_bigint::BigInt = self.clone().into(); Val::BigInt(bytes_of_bigint(&n)) }
}
impl Model for dlhn::BigDecimal {
    fn schema() -> Schema { Schema::BigDec(Form::Wrapper) }
    fn from_val(v: &Val) -> Self { match v { Val::BigDec(b) => big_dec(b).into(), _ => unreachable!() } }
    fn to_val(&self) -> Val { let n: bigdecimal::BigDecimal = self.clone().into(); val_of_bigdec(&n) }
}
impl Model for dlhn::Date {
    fn schema() -> Schema { Schema::Date(Form::Wrapper) }
    fn from_val(v: &Val) -> Self { match v { Val::Date(y, d) => date(*y, *d).into(), _ => unreachable!() } }
    fn to_val(&self) -> Val { val_of_wdate(*self).expect("date") }
}
impl Model for dlhn::DateTime {
    fn schema() -> Schema { Schema::DateTime(Form::Wrapper) }
    fn from_val(v: &Val) -> Self { match v { Val::DateTime(t, n) => date_time(*t, *n).into(), _ => unreachable!() } }
    fn to_val(&self) -> Val { val_of_wdate_time(*self).expect("date-time") }
}
// through the field adapters
impl Model for num_bigint::BigUint {
    fn schema() -> Schema { Schema::BigUint(Form::Adapter) }
    fn from_val(v: &Val) -> Self { match v { Val::BigUint(b) => big_uint(b), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::BigUint(mag_of_biguint(self)) }
}
impl Model for num_bigint::BigInt {
    fn schema() -> Schema { Schema::BigInt(Form::Adapter) }
    fn from_val(v: &Val) -> Self { match v { Val::BigInt(b) => big_int(b), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::BigInt(bytes_of_bigint(self)) }
}
impl Model for bigdecimal::BigDecimal {
    fn schema() -> Schema { Schema::BigDec(Form::Adapter) }
    fn from_val(v: &Val) -> Self { match v { Val::BigDec(b) => big_dec(b), _ => unreachable!() } }
    fn to_val(&self) -> Val { val_of_bigdec(self) }
}
impl Model for time::Date {
    fn schema() -> Schema { Schema::Date(Form::Adapter) }
    fn from_val(v: &Val) -> Self { match v { Val::Date(y, d) => date(*y, *d), _ => unreachable!() } }
    fn to_val(&self) -> Val { val_of_date(*self) }
}
impl Model for time::OffsetDateTime {
    fn schema() -> Schema { Schema::DateTime(Form::Adapter) }
    fn from_val(v: &Val) -> Self { match v { Val::DateTime(t, n) => date_time(*t, *n), _ => unreachable!() } }
    fn to_val(&self) -> Val { val_of_date_time(*self) }
}

macro_rules! tuples { ($(($($n:ident $i:tt),+)),+) => { $(
    impl<$($n: Model),+> Model for ($($n,)+) {
        fn schema() -> Schema { Schema::tuple(vec![$($n::schema()),+]) }
        fn from_val(v: &Val) -> Self { match v { Val::Tup(v) => ($($n::from_val(&v[$i]),)+), _ => unreachable!() } }
        fn to_val(&self) -> Val { Val::Tup(vec![$(self.$i.to_val()),+]) }
    } )+ } }
tuples!((A 0), (A 0, B 1), (A 0, B 1, C 2), (A 0, B 1, C 2, D 3), (A 0, B 1, C 2, D 3, E 4),
    (A 0, B 1, C 2, D 3, E 4, F 5), (A 0, B 1, C 2, D 3, E 4, F 5, G 6), (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15));

// ---- types of the standard library, each with its own way of being read (see the generated users)
macro_rules! same { ($($t:ty, $u:ty, $v:ident => $to:expr, $w:ident => $from:expr);* $(;)?) => { $(
    impl Model for $t {
        fn schema() -> Schema { <$u>::schema() }
        fn from_val(v: &Val) -> Self { let $v = <$u>::from_val(v); $to }
        fn to_val(&self) -> Val { let $w = self; let u: $u = $from; u.to_val() }
    } )* } }
same! {
    usize, u64, v => v as usize, w => *w as u64;
    isize, i64, v => v as isize, w => *w as i64;
    std::num::Wrapping<i16>, i16, v => std::num::Wrapping(v), w => w.0;
    std::cmp::Reverse<u32>, u32, v => std::cmp::Reverse(v), w => w.0;
    std::cell::Cell<i32>, i32, v => std::cell::Cell::new(v), w => w.get();
    std::cell::RefCell<String>, String, v => std::cell::RefCell::new(v), w => w.borrow().clone();
    std::sync::Mutex<u64>, u64, v => std::sync::Mutex::new(v), w => *w.lock().unwrap();
    Box<str>, String, v => v.into(), w => w.to_string();
    std::borrow::Cow<'static, str>, String, v => v.into(), w => w.to_string();
    std::path::PathBuf, String, v => v.into(), w => w.to_str().unwrap().to_string();
    Box<[u16]>, Vec<u16>, v => v.into(), w => w.to_vec();
    std::borrow::Cow<'static, [i32]>, Vec<i32>, v => v.into(), w => w.to_vec();
    std::net::Ipv4Addr, [u8; 4], v => v.into(), w => w.octets();
    std::net::Ipv6Addr, [u8; 16], v => v.into(), w => w.octets();
    std::net::SocketAddrV4, (std::net::Ipv4Addr, u16), v => std::net::SocketAddrV4::new(v.0, v.1), w => (*w.ip(), w.port());
    std::net::SocketAddrV6, (std::net::Ipv6Addr, u16), v => std::net::SocketAddrV6::new(v.0, v.1, 0, 0), w => (*w.ip(), w.port());
    std::net::IpAddr, Result<std::net::Ipv4Addr, std::net::Ipv6Addr>, v => match v { Ok(a) => a.into(), Err(a) => a.into() },
        w => match w { std::net::IpAddr::V4(a) => Ok(*a), std::net::IpAddr::V6(a) => Err(*a) };
    std::net::SocketAddr, Result<std::net::SocketAddrV4, std::net::SocketAddrV6>, v => match v { Ok(a) => a.into(), Err(a) => a.into() },
        w => match w { std::net::SocketAddr::V4(a) => Ok(*a), std::net::SocketAddr::V6(a) => Err(*a) };
}
impl Model for std::marker::PhantomData<String> {
    fn schema() -> Schema { Schema::UnitStruct }
    fn from_val(_: &Val) -> Self { std::marker::PhantomData }
    fn to_val(&self) -> Val { Val::Unit }
}
impl<A: Model, B: Model> Model for Result<A, B> {
    fn schema() -> Schema {
        Schema::Enum(Arc::new(vec![Variant { index: 0, kind: VKind::Newtype(A::schema()) }, Variant { index: 1, kind: VKind::Newtype(B::schema()) }]))
    }
    fn from_val(v: &Val) -> Self { match v { Val::Enum(0, v) => Ok(A::from_val(v)), Val::Enum(_, v) => Err(B::from_val(v)), _ => unreachable!() } }
    fn to_val(&self) -> Val { match self { Ok(a) => Val::Enum(0, Box::new(a.to_val())), Err(b) => Val::Enum(1, Box::new(b.to_val())) } }
}
impl<A: Model> Model for std::ops::Bound<A> {
    fn schema() -> Schema {
        Schema::Enum(Arc::new(vec![
            Variant { index: 0, kind: VKind::Unit },
            Variant { index: 1, kind: VKind::Newtype(A::schema()) },
            Variant { index: 2, kind: VKind::Newtype(A::schema()) },
        ]))
    }
    fn from_val(v: &Val) -> Self {
        use std::ops::Bound::*;
        match v { Val::Enum(0, _) => Unbounded, Val::Enum(1, v) => Included(A::from_val(v)), Val::Enum(_, v) => Excluded(A::from_val(v)), _ => unreachable!() }
    }
    fn to_val(&self) -> Val {
        use std::ops::Bound::*;
        match self { Unbounded => Val::Enum(0, Box::new(Val::Unit)), Included(a) => Val::Enum(1, Box::new(a.to_val())), Excluded(a) => Val::Enum(2, Box::new(a.to_val())) }
    }
}
impl<A: Model> Model for std::ops::Range<A> {
    fn schema() -> Schema { Schema::structure(vec![A::schema(), A::schema()]) }
    fn from_val(v: &Val) -> Self { match v { Val::Tup(v) => A::from_val(&v[0])..A::from_val(&v[1]), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Tup(vec![self.start.to_val(), self.end.to_val()]) }
}
impl<T: Model> Model for std::collections::VecDeque<T> {
    fn schema() -> Schema { Schema::seq(T::schema()) }
    fn from_val(v: &Val) -> Self { match v { Val::Seq(v) => v.iter().map(T::from_val).collect(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|v| v.to_val()).collect()) }
}
impl<T: Model> Model for std::collections::LinkedList<T> {
    fn schema() -> Schema { Schema::seq(T::schema()) }
    fn from_val(v: &Val) -> Self { match v { Val::Seq(v) => v.iter().map(T::from_val).collect(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|v| v.to_val()).collect()) }
}
/// Text-keyed map whose keys are not `String`.
impl<T: Model> Model for BTreeMap<Box<str>, T> {
    fn schema() -> Schema { Schema::Map(Arc::new(T::schema())) }
    fn from_val(v: &Val) -> Self { match v { Val::Map(m) => m.iter().map(|(k, v)| (k.as_str().into(), T::from_val(v))).collect(), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.to_string(), v.to_val())).collect()) }
}
/// Bytes held as a `Vec<u8>` and written through serde_bytes: one layout with a sequence of u8.
pub struct Raw(pub Vec<u8>);
impl Model for Raw {
    fn schema() -> Schema { Schema::Bytes(false, true) }
    fn from_val(v: &Val) -> Self { match v { Val::Bytes(b) => Raw(b.clone()), _ => unreachable!() } }
    fn to_val(&self) -> Val { Val::Bytes(self.0.clone()) }
}

/// Writers that only borrow what they write; the reader owns it.
#[derive(Serialize)]
#[cfg_attr(feature = "derived", derive(SerializeHeader))]
pub struct TextsOut {
    a: &'static str,
    b: Option<&'static str>,
    c: Vec<(u8, &'static str)>,
    d: BTreeMap<&'static str, u16>,
    e: BTreeMap<std::borrow::Cow<'static, str>, &'static str>,
    #[serde(skip_deserializing)]
    f: u8,
    #[serde(with = "serde_bytes")]
    g: Vec<u8>,
}
#[derive(Deserialize)]
#[allow(clippy::type_complexity)]
pub struct Texts {
    a: String,
    b: Option<String>,
    c: Vec<(u8, String)>,
    d: BTreeMap<String, u16>,
    e: BTreeMap<String, String>,
    f: u8,
    #[serde(with = "serde_bytes")]
    g: Vec<u8>,
}
impl Serialize for Texts {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // outlived by self
        fn st(s: &str) -> &'static str {
            unsafe { std::mem::transmute(s) }
        }
        TextsOut {
            a: st(&self.a),
            b: self.b.as_deref().map(st),
            c: self.c.iter().map(|(n, s)| (*n, st(s))).collect(),
            d: self.d.iter().map(|(k, v)| (st(k), *v)).collect(),
            e: self.e.iter().map(|(k, v)| (k.clone().into(), st(v))).collect(),
            f: self.f,
            g: self.g.clone(),
        }
        .serialize(s)
    }
}
#[cfg(feature = "derived")]
impl SerializeHeader for Texts {
    fn serialize_header<W: Write>(w: &mut W) -> std::io::Result<()> {
        TextsOut::serialize_header(w)
    }
}
impl Model for Texts {
    fn schema() -> Schema {
        Schema::structure(vec![
            String::schema(),
            <Option<String>>::schema(),
            <Vec<(u8, String)>>::schema(),
            <BTreeMap<String, u16>>::schema(),
            <BTreeMap<String, String>>::schema(),
            Schema::U8,
            Schema::Bytes(false, true),
        ])
    }
    fn from_val(v: &Val) -> Self {
        let Val::Tup(v) = v else { unreachable!() };
        let Val::Bytes(g) = &v[6] else { unreachable!() };
        Texts {
            a: Model::from_val(&v[0]),
            b: Model::from_val(&v[1]),
            c: Model::from_val(&v[2]),
            d: Model::from_val(&v[3]),
            e: Model::from_val(&v[4]),
            f: Model::from_val(&v[5]),
            g: g.clone(),
        }
    }
    fn to_val(&self) -> Val {
        Val::Tup(vec![
            self.a.to_val(),
            self.b.to_val(),
            self.c.to_val(),
            self.d.to_val(),
            self.e.to_val(),
            self.f.to_val(),
            Val::Bytes(self.g.clone()),
        ])
    }
}

pub struct Holder<T> {
    name: &'static str,
    tr: Traits,
    schema: OnceLock<Arc<Schema>>,
    head: Option<fn(&mut Out) -> std::io::Result<()>>,
    _p: std::marker::PhantomData<fn() -> T>,
}

pub fn header_fn<T: SerializeHeader>(w: &mut Out) -> std::io::Result<()> {
    T::serialize_header(w)
}

impl<T: Model> Holder<T> {
    pub const fn new(
        name: &'static str,
        head: Option<fn(&mut Out) -> std::io::Result<()>>,
        hashed: bool,
        recursive: bool,
    ) -> Self {
        Holder {
            name,
            tr: Traits {
                described: head.is_some(),
                hashed,
                recursive,
            },
            schema: OnceLock::new(),
            head,
            _p: std::marker::PhantomData,
        }
    }
}

impl<T: Model + Serialize + for<'de> Deserialize<'de>> Subject for Holder<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn schema(&self) -> &Arc<Schema> {
        self.schema.get_or_init(|| Arc::new(T::schema()))
    }
    fn traits(&self) -> Traits {
        self.tr
    }
    fn ser(&self, v: &Val, hash_seed: u64, ser: &mut Serializer<Out>) -> Result<(), String> {
        HASH_SEED.with(|h| h.set(hash_seed));
        let t = T::from_val(v);
        t.serialize(&mut *ser).map_err(|e| e.to_string())
    }
    fn de(&self, de: &mut Deserializer<In>) -> Result<Val, String> {
        T::deserialize(&mut *de).map(|t| t.to_val()).map_err(|e| e.to_string())
    }
    fn header(&self, w: &mut Out) -> std::io::Result<()> {
        (self.head.expect("no description"))(w)
    }
}

/// What a value keeps to itself: never written, so never described. Should it be described all the
/// same, the mark it leaves is no type code at all.
#[derive(Default)]
pub struct Hidden;
impl SerializeHeader for Hidden {
    fn serialize_header<W: Write>(w: &mut W) -> std::io::Result<()> {
        w.write_all(&[0xff])
    }
}

/// The derived description, unless this build does without (see ./check).
#[cfg(feature = "derived")]
macro_rules! described {
    ($t:ty) => {
        Some(header_fn::<$t>)
    };
}
#[cfg(not(feature = "derived"))]
macro_rules! described {
    ($t:ty) => {
        None
    };
}

include!("subjects_gen.rs");
