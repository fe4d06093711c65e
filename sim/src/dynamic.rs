//! Between the model's types / values and the library's own self-describing ones.
use crate::schema::*;
use crate::serdes::*;
use dlhn::{Body, Header};
use std::sync::Arc;

/// The type description a type of this shape has.
pub fn header_of(s: &Schema) -> Header {
    let many = |v: &[Schema]| v.iter().map(header_of).collect::<Vec<_>>();
    match s {
        Schema::Unit => Header::Unit,
        Schema::UnitStruct => Header::Tuple(vec![]),
        Schema::Bool => Header::Boolean,
        Schema::U8 => Header::UInt8,
        Schema::U16 => Header::UInt16,
        Schema::U32 => Header::UInt32,
        Schema::U64 => Header::UInt64,
        Schema::I8 => Header::Int8,
        Schema::I16 => Header::Int16,
        Schema::I32 => Header::Int32,
        Schema::I64 => Header::Int64,
        Schema::F32 => Header::Float32,
        Schema::F64 => Header::Float64,
        Schema::Char | Schema::Str(_) => Header::String,
        Schema::Bytes(_, false) => Header::Binary,
        Schema::Bytes(_, true) => Header::Array(Box::new(Header::UInt8)),
        Schema::Opt(s) => Header::Optional(Box::new(header_of(s))),
        Schema::Seq(s) => Header::Array(Box::new(header_of(s))),
        Schema::Map(s) => Header::Map(Box::new(header_of(s))),
        Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(v) => Header::Tuple(many(v)),
        Schema::Newtype(s, false) => header_of(s),
        Schema::Newtype(s, true) => Header::Tuple(vec![header_of(s)]),
        Schema::Enum(vs) => Header::Enum(vs.iter().map(|v| variant_header(&v.kind)).collect()),
        Schema::BigUint(_) => Header::BigUInt,
        Schema::BigInt(_) => Header::BigInt,
        Schema::BigDec(_) => Header::BigDecimal,
        Schema::Date(_) => Header::Date,
        Schema::DateTime(_) => Header::DateTime,
    }
}

fn variant_header(k: &VKind) -> Header {
    match k {
        VKind::Unit => Header::Unit,
        VKind::Newtype(s) => header_of(s),
        VKind::Tuple(v) | VKind::Struct(v) => match v.len() {
            0 => Header::Unit,
            1 => header_of(&v[0]),
            _ => Header::Tuple(v.iter().map(header_of).collect()),
        },
    }
}

/// The model type for a description.
pub fn schema_of(h: &Header) -> Schema {
    match h {
        Header::Unit => Schema::Unit,
        Header::Optional(h) => Schema::opt(schema_of(h)),
        Header::Boolean => Schema::Bool,
        Header::UInt8 => Schema::U8,
        Header::UInt16 => Schema::U16,
        Header::UInt32 => Schema::U32,
        Header::UInt64 => Schema::U64,
        Header::Int8 => Schema::I8,
        Header::Int16 => Schema::I16,
        Header::Int32 => Schema::I32,
        Header::Int64 => Schema::I64,
        Header::Float32 => Schema::F32,
        Header::Float64 => Schema::F64,
        Header::BigUInt => Schema::BigUint(Form::Wrapper),
        Header::BigInt => Schema::BigInt(Form::Wrapper),
        Header::BigDecimal => Schema::BigDec(Form::Wrapper),
        Header::String => Schema::Str(false),
        Header::Binary => Schema::Bytes(false, false),
        Header::Array(h) => Schema::seq(schema_of(h)),
        Header::Tuple(v) => Schema::tuple(v.iter().map(schema_of).collect()),
        Header::Map(h) => Schema::Map(Arc::new(schema_of(h))),
        Header::Enum(v) => Schema::Enum(Arc::new(
            v.iter()
                .enumerate()
                .map(|(i, h)| Variant {
                    index: i as u32,
                    kind: VKind::Newtype(schema_of(h)),
                })
                .collect(),
        )),
        Header::Date => Schema::Date(Form::Wrapper),
        Header::DateTime => Schema::DateTime(Form::Wrapper),
    }
}

pub fn depth(h: &Header) -> usize {
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => 1 + depth(h),
        Header::Tuple(v) | Header::Enum(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// The dynamic body that holds this value.
pub fn body_of(s: &Schema, v: &Val) -> Body {
    let many = |ss: &[Schema], v: &[Val]| -> Vec<Body> {
        ss.iter().zip(v).map(|(s, v)| body_of(s, v)).collect()
    };
    match (s, v) {
        (Schema::Unit, _) => Body::Unit,
        (Schema::UnitStruct, _) => Body::Tuple(vec![]),
        (_, Val::Bool(b)) => Body::Boolean(*b),
        (Schema::U8, Val::U(x)) => Body::UInt8(*x as u8),
        (Schema::U16, Val::U(x)) => Body::UInt16(*x as u16),
        (Schema::U32, Val::U(x)) => Body::UInt32(*x as u32),
        (Schema::U64, Val::U(x)) => Body::UInt64(*x),
        (Schema::I8, Val::I(x)) => Body::Int8(*x as i8),
        (Schema::I16, Val::I(x)) => Body::Int16(*x as i16),
        (Schema::I32, Val::I(x)) => Body::Int32(*x as i32),
        (Schema::I64, Val::I(x)) => Body::Int64(*x),
        (_, Val::F32(b)) => Body::Float32(f32::from_bits(*b)),
        (_, Val::F64(b)) => Body::Float64(f64::from_bits(*b)),
        (_, Val::Char(c)) => Body::String(c.to_string()),
        (_, Val::Str(t)) => Body::String(t.clone()),
        (Schema::Bytes(_, true), Val::Bytes(b)) => {
            Body::Array(b.iter().map(|x| Body::UInt8(*x)).collect())
        }
        (_, Val::Bytes(b)) => Body::Binary(serde_bytes::ByteBuf::from(b.clone())),
        (Schema::Opt(s), Val::Opt(v)) => {
            Body::Optional(v.as_ref().map(|v| Box::new(body_of(s, v))))
        }
        (Schema::Seq(s), Val::Seq(v)) => Body::Array(v.iter().map(|x| body_of(s, x)).collect()),
        (Schema::Map(s), Val::Map(m)) => {
            Body::Map(m.iter().map(|(k, x)| (k.clone(), body_of(s, x))).collect())
        }
        (Schema::Tuple(ss) | Schema::TupleStruct(ss) | Schema::Struct(ss), Val::Tup(v)) => {
            Body::Tuple(many(ss, v))
        }
        (Schema::Newtype(s, false), v) => body_of(s, v),
        (Schema::Newtype(s, true), v) => Body::Tuple(vec![body_of(s, v)]),
        (Schema::Enum(vs), Val::Enum(i, p)) => Body::Enum(
            vs[*i].index,
            Box::new(match (&vs[*i].kind, &**p) {
                (VKind::Unit, _) => Body::Unit,
                (VKind::Newtype(s), p) => body_of(s, p),
                (VKind::Tuple(ss) | VKind::Struct(ss), Val::Tup(v)) => match ss.len() {
                    0 => Body::Unit,
                    1 => body_of(&ss[0], &v[0]),
                    _ => Body::Tuple(many(ss, v)),
                },
                _ => unreachable!(),
            }),
        ),
        (_, Val::BigUint(b)) => Body::BigUInt(big_uint(b).into()),
        (_, Val::BigInt(b)) => Body::BigInt(big_int(b).into()),
        (_, Val::BigDec(b)) => Body::BigDecimal(big_dec(b).into()),
        (_, Val::Date(y, d)) => Body::Date(date(*y, *d).into()),
        (_, Val::DateTime(t, n)) => Body::DateTime(date_time(*t, *n).into()),
        (s, v) => unreachable!("workload mismatch {s:?} {v:?}"),
    }
}

/// What a dynamic body means as a value of the type; `None` if its shape is another one.
pub fn val_of(s: &Schema, b: &Body) -> Option<Val> {
    let many = |ss: &[Schema], v: &[Body]| -> Option<Vec<Val>> {
        if ss.len() != v.len() {
            return None;
        }
        ss.iter().zip(v).map(|(s, b)| val_of(s, b)).collect()
    };
    Some(match (s, b) {
        (Schema::Unit, Body::Unit) => Val::Unit,
        (Schema::UnitStruct, Body::Tuple(v)) if v.is_empty() => Val::Unit,
        (Schema::Bool, Body::Boolean(b)) => Val::Bool(*b),
        (Schema::U8, Body::UInt8(x)) => Val::U(*x as u64),
        (Schema::U16, Body::UInt16(x)) => Val::U(*x as u64),
        (Schema::U32, Body::UInt32(x)) => Val::U(*x as u64),
        (Schema::U64, Body::UInt64(x)) => Val::U(*x),
        (Schema::I8, Body::Int8(x)) => Val::I(*x as i64),
        (Schema::I16, Body::Int16(x)) => Val::I(*x as i64),
        (Schema::I32, Body::Int32(x)) => Val::I(*x as i64),
        (Schema::I64, Body::Int64(x)) => Val::I(*x),
        (Schema::F32, Body::Float32(x)) => Val::F32(x.to_bits()),
        (Schema::F64, Body::Float64(x)) => Val::F64(x.to_bits()),
        (Schema::Char, Body::String(t)) => {
            let mut c = t.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Val::Char(c),
                _ => return None,
            }
        }
        (Schema::Str(_), Body::String(t)) => Val::Str(t.clone()),
        (Schema::Bytes(_, false), Body::Binary(b)) => Val::Bytes(b.to_vec()),
        (Schema::Bytes(_, true), Body::Array(v)) => Val::Bytes(
            v.iter()
                .map(|b| match b {
                    Body::UInt8(x) => Some(*x),
                    _ => None,
                })
                .collect::<Option<Vec<u8>>>()?,
        ),
        (Schema::Opt(s), Body::Optional(b)) => Val::Opt(match b {
            None => None,
            Some(b) => Some(Box::new(val_of(s, b)?)),
        }),
        (Schema::Seq(s), Body::Array(v)) => {
            Val::Seq(v.iter().map(|b| val_of(s, b)).collect::<Option<Vec<_>>>()?)
        }
        (Schema::Map(s), Body::Map(m)) => Val::Map(
            m.iter()
                .map(|(k, b)| Some((k.clone(), val_of(s, b)?)))
                .collect::<Option<Vec<_>>>()?,
        ),
        (Schema::Tuple(ss) | Schema::TupleStruct(ss) | Schema::Struct(ss), Body::Tuple(v)) => {
            Val::Tup(many(ss, v)?)
        }
        (Schema::Newtype(s, false), b) => val_of(s, b)?,
        (Schema::Newtype(s, true), Body::Tuple(v)) if v.len() == 1 => val_of(s, &v[0])?,
        (Schema::Enum(vs), Body::Enum(n, b)) => {
            let i = vs.iter().position(|v| v.index == *n)?;
            let p = match (&vs[i].kind, &**b) {
                (VKind::Unit, Body::Unit) => Val::Unit,
                (VKind::Newtype(s), b) => val_of(s, b)?,
                (VKind::Tuple(ss) | VKind::Struct(ss), b) => Val::Tup(match (ss.len(), b) {
                    (0, Body::Unit) => vec![],
                    (1, b) => vec![val_of(&ss[0], b)?],
                    (_, Body::Tuple(v)) => many(ss, v)?,
                    _ => return None,
                }),
                _ => return None,
            };
            Val::Enum(i, Box::new(p))
        }
        (Schema::BigUint(_), Body::BigUInt(b)) => {
            let n: num_bigint::BigUint = b.clone().into();
            Val::BigUint(mag_of_biguint(&n))
        }
        (Schema::BigInt(_), Body::BigInt(b)) => {
            let n: num_bigint::BigInt = b.clone().into();
            Val::BigInt(bytes_of_bigint(&n))
        }
        (Schema::BigDec(_), Body::BigDecimal(b)) => {
            let n: bigdecimal::BigDecimal = b.clone().into();
            val_of_bigdec(&n)
        }
        (Schema::Date(_), Body::Date(d)) => val_of_wdate(*d).ok()?,
        (Schema::DateTime(_), Body::DateTime(d)) => val_of_wdate_time(*d).ok()?,
        _ => return None,
    })
}

/// Independent notion of "this body has the shape of this description".
pub fn fits(h: &Header, b: &Body) -> bool {
    match (h, b) {
        (Header::Unit, Body::Unit)
        | (Header::Boolean, Body::Boolean(_))
        | (Header::UInt8, Body::UInt8(_))
        | (Header::UInt16, Body::UInt16(_))
        | (Header::UInt32, Body::UInt32(_))
        | (Header::UInt64, Body::UInt64(_))
        | (Header::Int8, Body::Int8(_))
        | (Header::Int16, Body::Int16(_))
        | (Header::Int32, Body::Int32(_))
        | (Header::Int64, Body::Int64(_))
        | (Header::Float32, Body::Float32(_))
        | (Header::Float64, Body::Float64(_))
        | (Header::BigUInt, Body::BigUInt(_))
        | (Header::BigInt, Body::BigInt(_))
        | (Header::BigDecimal, Body::BigDecimal(_))
        | (Header::String, Body::String(_))
        | (Header::Binary, Body::Binary(_))
        | (Header::Date, Body::Date(_))
        | (Header::DateTime, Body::DateTime(_)) => true,
        (Header::Optional(_), Body::Optional(None)) => true,
        (Header::Optional(h), Body::Optional(Some(b))) => fits(h, b),
        (Header::Array(h), Body::Array(v)) => v.iter().all(|b| fits(h, b)),
        (Header::Map(h), Body::Map(m)) => m.values().all(|b| fits(h, b)),
        (Header::Tuple(hs), Body::Tuple(v)) => {
            hs.len() == v.len() && hs.iter().zip(v).all(|(h, b)| fits(h, b))
        }
        (Header::Enum(hs), Body::Enum(i, b)) => match hs.get(*i as usize) {
            Some(h) => fits(h, b),
            None => false,
        },
        _ => false,
    }
}
