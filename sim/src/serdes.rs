//! Drives the codec under test with generated types: `Serialize` for (Schema, Val) and
//! `DeserializeSeed` for Schema, issuing the same serde calls a derived type would.
use crate::schema::*;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::convert::TryInto;
use std::fmt;
use std::sync::OnceLock;

pub fn names() -> &'static [&'static str] {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    // not a place where sessions could get into each other's way
    let n = simrt::pause();
    let v: &[_] = N.get_or_init(|| {
        (0..512)
            .map(|i| &*Box::leak(format!("f{i}").into_boxed_str()))
            .collect()
    });
    simrt::resume(n);
    v
}

/// Called at every leaf while a value is being written: may fail (poisoned value) or do something
/// else in the middle of the write (nested session).
pub struct Cx<'a> {
    pub countdown: Cell<i64>,
    pub action: Option<&'a dyn Fn() -> Result<(), String>>,
}

impl<'a> Cx<'a> {
    pub const NONE: Cx<'static> = Cx {
        countdown: Cell::new(-1),
        action: None,
    };
    pub fn at(leaf: i64, action: &'a dyn Fn() -> Result<(), String>) -> Self {
        Cx {
            countdown: Cell::new(leaf),
            action: Some(action),
        }
    }
    fn tick<E: ser::Error>(&self) -> Result<(), E> {
        let c = self.countdown.get();
        if c < 0 {
            return Ok(());
        }
        self.countdown.set(c - 1);
        if c == 0 {
            if let Some(f) = self.action {
                return f().map_err(E::custom);
            }
        }
        Ok(())
    }
}

pub struct Sv<'a> {
    pub s: &'a Schema,
    pub v: &'a Val,
    pub cx: &'a Cx<'a>,
}

pub fn big_uint(v: &[u8]) -> num_bigint::BigUint {
    num_bigint::BigUint::from_bytes_le(v)
}
pub fn big_int(v: &[u8]) -> num_bigint::BigInt {
    num_bigint::BigInt::from_signed_bytes_le(v)
}
/// The in-memory decimal: digits and scale with `zeros` extra trailing zeros.
pub fn big_dec(v: &(Vec<u8>, i64, u16)) -> bigdecimal::BigDecimal {
    let d = big_int(&v.0) * num_bigint::BigInt::from(10).pow(v.2 as u32);
    bigdecimal::BigDecimal::new(d, v.1 + v.2 as i64)
}
pub fn date(y: i64, d: u32) -> time::Date {
    time::Date::from_ordinal_date(y as i32, d as u16).expect("workload date in range")
}
/// The instant, held in an offset from UTC that depends on it (where the calendar allows).
pub fn date_time(t: i64, n: u32) -> time::OffsetDateTime {
    let d = time::OffsetDateTime::from_unix_timestamp(t)
        .expect("workload timestamp in range")
        .replace_nanosecond(n)
        .expect("workload nanoseconds in range");
    let h = crate::tape::mix(t as u64, n as u64);
    if h % 2 == 0 || d.year().abs() > 9990 {
        return d;
    }
    let secs = match h / 2 % 4 {
        0 => (h / 8 % 86_399) as i32,
        1 => -((h / 8 % 86_399) as i32),
        2 => *[3600, -3600, 86_399, -86_399, 1, -1].get((h / 8 % 6) as usize).expect("offset"),
        _ => (h / 8 % 26) as i32 * 3600 - 12 * 3600,
    };
    match time::UtcOffset::from_whole_seconds(secs) {
        Ok(o) => d.to_offset(o),
        Err(_) => d,
    }
}

pub fn mag_of_biguint(b: &num_bigint::BigUint) -> Vec<u8> {
    trim_unsigned(b.to_bytes_le())
}
pub fn bytes_of_bigint(b: &num_bigint::BigInt) -> Vec<u8> {
    trim_signed(b.to_signed_bytes_le())
}
pub fn val_of_bigdec(b: &bigdecimal::BigDecimal) -> Val {
    let (d, s) = b.as_bigint_and_exponent();
    let (d, s) = norm_dec(d, s as i128);
    Val::BigDec(Box::new((bytes_of_bigint(&d), s.clamp(i64::MIN as i128, i64::MAX as i128) as i64, 0)))
}
pub fn val_of_date(d: time::Date) -> Val {
    Val::Date(d.year() as i64, d.ordinal() as u32)
}
pub fn val_of_date_time(d: time::OffsetDateTime) -> Val {
    Val::DateTime(d.unix_timestamp(), d.nanosecond())
}

/// Wrapper values whose content the public conversions refuse (dates that do not exist) are
/// observed through what they would write, read back by the reference decoder.
fn raw_wire<T: Serialize>(t: &T, s: &Schema) -> Result<Val, String> {
    let mut out = Vec::new();
    let mut ser = dlhn::Serializer::new(&mut out);
    t.serialize(&mut ser).map_err(|e| e.to_string())?;
    crate::refcodec::decode_all(s, &out).ok_or_else(|| "unreadable wrapper".to_string())
}

pub fn val_of_wdate(d: dlhn::Date) -> Result<Val, String> {
    let r: Result<time::Date, ()> = d.try_into();
    match r {
        Ok(d) => Ok(val_of_date(d)),
        Err(()) => raw_wire(&d, &Schema::Date(Form::Wrapper)),
    }
}
pub fn val_of_wdate_time(d: dlhn::DateTime) -> Result<Val, String> {
    let r: Result<time::OffsetDateTime, ()> = d.try_into();
    match r {
        Ok(d) => Ok(val_of_date_time(d)),
        Err(()) => raw_wire(&d, &Schema::DateTime(Form::Wrapper)),
    }
}

struct With<'a, T>(&'a T, Form);
macro_rules! with_ser {
    ($t:ty, $w:ty, $m:ident) => {
        impl<'a> Serialize for With<'a, $t> {
            fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                match self.1 {
                    Form::Wrapper => <$w>::from(self.0.clone()).serialize(s),
                    Form::Adapter => dlhn::format::$m::serialize(self.0, s),
                }
            }
        }
    };
}
with_ser!(num_bigint::BigUint, dlhn::BigUint, big_uint);
with_ser!(num_bigint::BigInt, dlhn::BigInt, big_int);
with_ser!(bigdecimal::BigDecimal, dlhn::BigDecimal, big_decimal);
with_ser!(time::Date, dlhn::Date, date);
with_ser!(time::OffsetDateTime, dlhn::DateTime, date_time);

fn mismatch<E: ser::Error>(s: &Schema, v: &Val) -> E {
    E::custom(format!("workload mismatch: {s:?} / {v:?}"))
}

impl<'a> Serialize for Sv<'a> {
    fn serialize<S: ser::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let cx = self.cx;
        if self.s.leaf() {
            cx.tick()?;
        }
        let sv = |s: &'a Schema, v: &'a Val| Sv { s, v, cx };
        match (self.s, self.v) {
            (Schema::Unit, Val::Unit) => ser.serialize_unit(),
            (Schema::UnitStruct, Val::Unit) => ser.serialize_unit_struct("U"),
            (Schema::Bool, Val::Bool(b)) => ser.serialize_bool(*b),
            (Schema::U8, Val::U(x)) => ser.serialize_u8(*x as u8),
            (Schema::U16, Val::U(x)) => ser.serialize_u16(*x as u16),
            (Schema::U32, Val::U(x)) => ser.serialize_u32(*x as u32),
            (Schema::U64, Val::U(x)) => ser.serialize_u64(*x),
            (Schema::I8, Val::I(x)) => ser.serialize_i8(*x as i8),
            (Schema::I16, Val::I(x)) => ser.serialize_i16(*x as i16),
            (Schema::I32, Val::I(x)) => ser.serialize_i32(*x as i32),
            (Schema::I64, Val::I(x)) => ser.serialize_i64(*x),
            (Schema::F32, Val::F32(b)) => ser.serialize_f32(f32::from_bits(*b)),
            (Schema::F64, Val::F64(b)) => ser.serialize_f64(f64::from_bits(*b)),
            (Schema::Char, Val::Char(c)) => ser.serialize_char(*c),
            (Schema::Str(_), Val::Str(s)) => ser.serialize_str(s),
            (Schema::Bytes(..), Val::Bytes(b)) => ser.serialize_bytes(b),
            (Schema::Opt(s), Val::Opt(v)) => match v {
                None => ser.serialize_none(),
                Some(v) => ser.serialize_some(&sv(s, v)),
            },
            (Schema::Seq(s), Val::Seq(v)) => {
                let mut q = ser.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&sv(s, x))?;
                }
                q.end()
            }
            (Schema::Map(s), Val::Map(m)) => {
                let mut q = ser.serialize_map(Some(m.len()))?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if (i + m.len()) % 2 == 0 {
                        q.serialize_entry(k.as_str(), &sv(s, x))?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(&sv(s, x))?;
                    }
                }
                q.end()
            }
            (Schema::Tuple(ss), Val::Tup(v)) => {
                let mut q = ser.serialize_tuple(v.len())?;
                for (s, x) in ss.iter().zip(v) {
                    q.serialize_element(&sv(s, x))?;
                }
                q.end()
            }
            (Schema::TupleStruct(ss), Val::Tup(v)) => {
                let mut q = ser.serialize_tuple_struct("T", v.len())?;
                for (s, x) in ss.iter().zip(v) {
                    q.serialize_field(&sv(s, x))?;
                }
                q.end()
            }
            (Schema::Struct(ss), Val::Tup(v)) => {
                let mut q = ser.serialize_struct("S", v.len())?;
                for (i, (s, x)) in ss.iter().zip(v).enumerate() {
                    q.serialize_field(names()[i], &sv(s, x))?;
                }
                q.end()
            }
            (Schema::Newtype(s, _), v) => ser.serialize_newtype_struct("N", &sv(s, v)),
            (Schema::Enum(vs), Val::Enum(i, p)) => {
                let var = &vs[*i];
                let n = names()[*i % 512];
                match (&var.kind, &**p) {
                    (VKind::Unit, _) => ser.serialize_unit_variant("E", var.index, n),
                    (VKind::Newtype(s), p) => {
                        ser.serialize_newtype_variant("E", var.index, n, &sv(s, p))
                    }
                    (VKind::Tuple(ss), Val::Tup(v)) => {
                        let mut q = ser.serialize_tuple_variant("E", var.index, n, v.len())?;
                        for (s, x) in ss.iter().zip(v) {
                            q.serialize_field(&sv(s, x))?;
                        }
                        q.end()
                    }
                    (VKind::Struct(ss), Val::Tup(v)) => {
                        let mut q = ser.serialize_struct_variant("E", var.index, n, v.len())?;
                        for (i, (s, x)) in ss.iter().zip(v).enumerate() {
                            q.serialize_field(names()[i], &sv(s, x))?;
                        }
                        q.end()
                    }
                    (_, v) => Err(mismatch(self.s, v)),
                }
            }
            (Schema::BigUint(f), Val::BigUint(b)) => With(&big_uint(b), *f).serialize(ser),
            (Schema::BigInt(f), Val::BigInt(b)) => With(&big_int(b), *f).serialize(ser),
            (Schema::BigDec(f), Val::BigDec(b)) => With(&big_dec(b), *f).serialize(ser),
            (Schema::Date(f), Val::Date(y, d)) => With(&date(*y, *d), *f).serialize(ser),
            (Schema::DateTime(f), Val::DateTime(t, n)) => {
                With(&date_time(*t, *n), *f).serialize(ser)
            }
            (s, v) => Err(mismatch(s, v)),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Schema);

fn conv<E: de::Error>(r: Result<Val, String>) -> Result<Val, E> {
    r.map_err(E::custom)
}

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let vis = Vis(self.0);
        match self.0 {
            Schema::Unit => d.deserialize_unit(vis),
            Schema::UnitStruct => d.deserialize_unit_struct("U", vis),
            Schema::Bool => d.deserialize_bool(vis),
            Schema::U8 => d.deserialize_u8(vis),
            Schema::U16 => d.deserialize_u16(vis),
            Schema::U32 => d.deserialize_u32(vis),
            Schema::U64 => d.deserialize_u64(vis),
            Schema::I8 => d.deserialize_i8(vis),
            Schema::I16 => d.deserialize_i16(vis),
            Schema::I32 => d.deserialize_i32(vis),
            Schema::I64 => d.deserialize_i64(vis),
            Schema::F32 => d.deserialize_f32(vis),
            Schema::F64 => d.deserialize_f64(vis),
            Schema::Char => d.deserialize_char(vis),
            Schema::Str(false) => d.deserialize_string(vis),
            Schema::Str(true) => d.deserialize_str(vis),
            Schema::Bytes(false, _) => d.deserialize_byte_buf(vis),
            Schema::Bytes(true, _) => d.deserialize_bytes(vis),
            Schema::Opt(_) => d.deserialize_option(vis),
            Schema::Seq(_) => d.deserialize_seq(vis),
            Schema::Map(_) => d.deserialize_map(vis),
            Schema::Tuple(v) => d.deserialize_tuple(v.len(), vis),
            Schema::TupleStruct(v) => d.deserialize_tuple_struct("T", v.len(), vis),
            Schema::Struct(v) => d.deserialize_struct("S", &names()[..v.len()], vis),
            Schema::Newtype(..) => d.deserialize_newtype_struct("N", vis),
            Schema::Enum(v) => d.deserialize_enum("E", &names()[..v.len().min(512)], vis),
            Schema::BigUint(Form::Wrapper) => {
                let w = dlhn::BigUint::deserialize(d)?;
                let b: num_bigint::BigUint = w.into();
                Ok(Val::BigUint(mag_of_biguint(&b)))
            }
            Schema::BigUint(Form::Adapter) => {
                let b = dlhn::format::big_uint::deserialize(d)?;
                Ok(Val::BigUint(mag_of_biguint(&b)))
            }
            Schema::BigInt(Form::Wrapper) => {
                let b: num_bigint::BigInt = dlhn::BigInt::deserialize(d)?.into();
                Ok(Val::BigInt(bytes_of_bigint(&b)))
            }
            Schema::BigInt(Form::Adapter) => {
                let b = dlhn::format::big_int::deserialize(d)?;
                Ok(Val::BigInt(bytes_of_bigint(&b)))
            }
            Schema::BigDec(Form::Wrapper) => {
                let b: bigdecimal::BigDecimal = dlhn::BigDecimal::deserialize(d)?.into();
                Ok(val_of_bigdec(&b))
            }
            Schema::BigDec(Form::Adapter) => {
                let b = dlhn::format::big_decimal::deserialize(d)?;
                Ok(val_of_bigdec(&b))
            }
            Schema::Date(Form::Wrapper) => conv(val_of_wdate(dlhn::Date::deserialize(d)?)),
            Schema::Date(Form::Adapter) => Ok(val_of_date(dlhn::format::date::deserialize(d)?)),
            Schema::DateTime(Form::Wrapper) => {
                conv(val_of_wdate_time(dlhn::DateTime::deserialize(d)?))
            }
            Schema::DateTime(Form::Adapter) => {
                Ok(val_of_date_time(dlhn::format::date_time::deserialize(d)?))
            }
        }
    }
}

struct Vis<'a>(&'a Schema);

/// Identifier of a struct field or enum variant.
struct Ident;
enum Id {
    Num(u64),
    Name(String),
}
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Id;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Id, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Id;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("identifier")
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Id, E> {
                Ok(Id::Num(v))
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Id, E> {
                Ok(Id::Name(v.to_string()))
            }
        }
        d.deserialize_identifier(V)
    }
}

fn fields<'de, A: SeqAccess<'de>>(ss: &[Schema], mut a: A) -> Result<Val, A::Error> {
    let mut v = Vec::with_capacity(ss.len());
    for (i, s) in ss.iter().enumerate() {
        match a.next_element_seed(Seed(s))? {
            Some(x) => v.push(x),
            None => return Err(de::Error::invalid_length(i, &"all members")),
        }
    }
    Ok(Val::Tup(v))
}

fn field_map<'de, A: MapAccess<'de>>(ss: &[Schema], mut a: A) -> Result<Val, A::Error> {
    let mut v: Vec<Option<Val>> = ss.iter().map(|_| None).collect();
    while let Some(id) = a.next_key_seed(Ident)? {
        let i = match id {
            Id::Num(n) => n as usize,
            Id::Name(n) => names()
                .iter()
                .position(|x| *x == n)
                .ok_or_else(|| de::Error::custom("unknown field"))?,
        };
        if i >= ss.len() {
            return Err(de::Error::custom("unknown field"));
        }
        if v[i].is_some() {
            return Err(de::Error::custom("duplicate field"));
        }
        v[i] = Some(a.next_value_seed(Seed(&ss[i]))?);
    }
    v.into_iter()
        .map(|x| x.ok_or_else(|| de::Error::custom("missing field")))
        .collect::<Result<Vec<_>, _>>()
        .map(Val::Tup)
}

impl<'de, 'a> Visitor<'de> for Vis<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        match self.0 {
            Schema::Bool => Ok(Val::Bool(v)),
            _ => Err(de::Error::custom("unexpected bool")),
        }
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        match self.0 {
            Schema::I8 | Schema::I16 | Schema::I32 | Schema::I64 => Ok(Val::I(v)),
            _ => Err(de::Error::custom("unexpected signed integer")),
        }
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        match self.0 {
            Schema::U8 | Schema::U16 | Schema::U32 | Schema::U64 => Ok(Val::U(v)),
            _ => Err(de::Error::custom("unexpected unsigned integer")),
        }
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        match self.0 {
            Schema::F32 => Ok(Val::F32(v.to_bits())),
            _ => Err(de::Error::custom("unexpected f32")),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        match self.0 {
            Schema::F64 => Ok(Val::F64(v.to_bits())),
            _ => Err(de::Error::custom("unexpected f64")),
        }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        match self.0 {
            Schema::Char => Ok(Val::Char(v)),
            _ => Err(de::Error::custom("unexpected char")),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        match self.0 {
            Schema::Str(_) => Ok(Val::Str(v.to_string())),
            Schema::Char => {
                let mut c = v.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Val::Char(c)),
                    _ => Err(de::Error::custom("not one char")),
                }
            }
            _ => Err(de::Error::custom("unexpected text")),
        }
    }
    fn visit_string<E: de::Error>(self, v: String) -> Result<Val, E> {
        match self.0 {
            Schema::Str(_) => Ok(Val::Str(v)),
            _ => self.visit_str(&v),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        match self.0 {
            Schema::Bytes(..) => Ok(Val::Bytes(v.to_vec())),
            _ => Err(de::Error::custom("unexpected bytes")),
        }
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Val, E> {
        match self.0 {
            Schema::Bytes(..) => Ok(Val::Bytes(v)),
            _ => Err(de::Error::custom("unexpected bytes")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Schema::Opt(_) => Ok(Val::Opt(None)),
            _ => Err(de::Error::custom("unexpected none")),
        }
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Schema::Opt(s) => Ok(Val::Opt(Some(Box::new(Seed(s).deserialize(d)?)))),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Schema::Unit | Schema::UnitStruct => Ok(Val::Unit),
            _ => Err(de::Error::custom("unexpected unit")),
        }
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Schema::Newtype(s, _) => Seed(s).deserialize(d),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Schema::Seq(s) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element_seed(Seed(s))? {
                    v.push(x);
                }
                Ok(Val::Seq(v))
            }
            Schema::Tuple(ss) | Schema::TupleStruct(ss) | Schema::Struct(ss) => fields(ss, a),
            Schema::Newtype(s, _) => a
                .next_element_seed(Seed(s))?
                .ok_or_else(|| de::Error::custom("empty newtype")),
            Schema::Bytes(..) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element::<u8>()? {
                    v.push(x);
                }
                Ok(Val::Bytes(v))
            }
            _ => Err(de::Error::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Schema::Map(s) => {
                let mut v = Vec::new();
                while let Some(k) = a.next_key::<String>()? {
                    v.push((k, a.next_value_seed(Seed(s))?));
                }
                Ok(Val::Map(v))
            }
            Schema::Struct(ss) => field_map(ss, a),
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        struct Members<'a>(&'a [Schema]);
        impl<'de, 'a> Visitor<'de> for Members<'a> {
            type Value = Val;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("variant members")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
                fields(self.0, a)
            }
            fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
                field_map(self.0, a)
            }
        }
        let vs = match self.0 {
            Schema::Enum(vs) => vs,
            _ => return Err(de::Error::custom("unexpected enum")),
        };
        let (id, acc) = a.variant_seed(Ident)?;
        let i = match id {
            Id::Num(n) => vs.iter().position(|v| v.index as u64 == n),
            Id::Name(n) => names().iter().position(|x| *x == n),
        }
        .filter(|i| *i < vs.len())
        .ok_or_else(|| de::Error::custom("unknown variant"))?;
        let p = match &vs[i].kind {
            VKind::Unit => {
                acc.unit_variant()?;
                Val::Unit
            }
            VKind::Newtype(s) => acc.newtype_variant_seed(Seed(s))?,
            VKind::Tuple(ss) => acc.tuple_variant(ss.len(), Members(ss))?,
            VKind::Struct(ss) => acc.struct_variant(&names()[..ss.len()], Members(ss))?,
        };
        Ok(Val::Enum(i, Box::new(p)))
    }
}
