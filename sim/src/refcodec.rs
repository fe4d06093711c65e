//! Independent reference implementation of the DLHN format, written from the format description:
//! the oracle of the simulated runs and the other side of interoperability sessions. Shares no code
//! with the implementation under test.
use crate::schema::*;
use dlhn::Header;

// ---------------------------------------------------------------- writing

/// Prefix varint of `max` bits (16, 32 or 64).
pub fn put_varint(out: &mut Vec<u8>, v: u64, max: u32) {
    // n continuation bytes are announced by n leading one bits; the remaining bits of the first
    // byte are the low bits of the number. The last form has a full first byte and a fixed width.
    let last = match max {
        16 => 2,
        32 => 4,
        _ => 8,
    };
    for n in 0..last {
        if n == 7 && max == 64 {
            break;
        }
        let bits = 7 * (n as u32 + 1);
        if bits < 64 && v < (1u64 << bits) {
            let low = 7 - n as u32; // value bits in the first byte
            let ones = !(0xffu32 >> n) & 0xff;
            out.push((ones | (v as u32 & ((1u32 << low) - 1))) as u8);
            let mut rest = v >> low;
            for _ in 0..n {
                out.push(rest as u8);
                rest >>= 8;
            }
            return;
        }
    }
    match max {
        16 => {
            out.push(0xc0);
            out.extend_from_slice(&(v as u16).to_le_bytes());
        }
        32 => {
            out.push(0xf0);
            out.extend_from_slice(&(v as u32).to_le_bytes());
        }
        _ => {
            if v < 1 << 56 {
                out.push(0xfe);
                out.extend_from_slice(&v.to_le_bytes()[..7]);
            } else {
                out.push(0xff);
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
    }
}

/// Sign folding: 0, -1, 1, -2, ... become 0, 1, 2, 3, ...
pub fn fold(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        (-(v as i128) * 2 - 1) as u64
    }
}
pub fn unfold(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        -((v / 2) as i64) - 1
    }
}

pub fn encode(s: &Schema, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    put(s, v, &mut out);
    out
}

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_varint(out, b.len() as u64, 64);
    out.extend_from_slice(b);
}

pub fn put(s: &Schema, v: &Val, out: &mut Vec<u8>) {
    match (s, v) {
        (_, Val::Unit) => {}
        (_, Val::Bool(b)) => out.push(*b as u8),
        (Schema::U8, Val::U(x)) => out.push(*x as u8),
        (Schema::U16, Val::U(x)) => put_varint(out, *x, 16),
        (Schema::U32, Val::U(x)) => put_varint(out, *x, 32),
        (Schema::U64, Val::U(x)) => put_varint(out, *x, 64),
        (Schema::I8, Val::I(x)) => out.push(*x as u8),
        (Schema::I16, Val::I(x)) => put_varint(out, fold(*x), 16),
        (Schema::I32, Val::I(x)) => put_varint(out, fold(*x), 32),
        (Schema::I64, Val::I(x)) => put_varint(out, fold(*x), 64),
        (_, Val::F32(b)) => out.extend_from_slice(&b.to_le_bytes()),
        (_, Val::F64(b)) => out.extend_from_slice(&b.to_le_bytes()),
        (_, Val::Char(c)) => put_bytes(out, c.to_string().as_bytes()),
        (_, Val::Str(t)) => put_bytes(out, t.as_bytes()),
        (_, Val::Bytes(b)) => put_bytes(out, b),
        (Schema::Opt(s), Val::Opt(v)) => match v {
            None => out.push(0),
            Some(v) => {
                out.push(1);
                put(s, v, out);
            }
        },
        (Schema::Seq(s), Val::Seq(v)) => {
            put_varint(out, v.len() as u64, 64);
            for x in v {
                put(s, x, out);
            }
        }
        (Schema::Map(s), Val::Map(m)) => {
            put_varint(out, m.len() as u64, 64);
            for (k, x) in m {
                put_bytes(out, k.as_bytes());
                put(s, x, out);
            }
        }
        (Schema::Tuple(ss) | Schema::TupleStruct(ss) | Schema::Struct(ss), Val::Tup(v)) => {
            for (s, x) in ss.iter().zip(v) {
                put(s, x, out);
            }
        }
        (Schema::Newtype(s, _), v) => put(s, v, out),
        (Schema::Enum(vs), Val::Enum(i, p)) => {
            put_varint(out, vs[*i].index as u64, 32);
            match (&vs[*i].kind, &**p) {
                (VKind::Unit, _) => {}
                (VKind::Newtype(s), p) => put(s, p, out),
                (VKind::Tuple(ss) | VKind::Struct(ss), Val::Tup(v)) => {
                    for (s, x) in ss.iter().zip(v) {
                        put(s, x, out);
                    }
                }
                _ => unreachable!("workload mismatch"),
            }
        }
        (_, Val::BigUint(b)) | (_, Val::BigInt(b)) => put_bytes(out, b),
        (_, Val::BigDec(b)) => {
            put_bytes(out, &b.0);
            if !b.0.is_empty() {
                put_varint(out, fold(b.1), 64);
            }
        }
        (_, Val::Date(y, d)) => {
            put_varint(out, fold(*y - 2000), 32);
            put_varint(out, *d as u64 - 1, 16);
        }
        (_, Val::DateTime(t, n)) => {
            put_varint(out, fold(*t), 64);
            put_varint(out, *n as u64, 32);
        }
        (s, v) => unreachable!("workload mismatch {s:?} {v:?}"),
    }
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// the input ends inside the value
    Short,
    /// not an encoding of the type
    Malformed,
    /// more elements than the work limit (elements without bytes)
    Blowup,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// every number in its shortest form, maps without repeated keys, ...
    pub canonical: bool,
    pub nodes: u64,
    pub max_nodes: u64,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd {
            b,
            pos: 0,
            canonical: true,
            nodes: 0,
            max_nodes: 1 << 20,
        }
    }
    fn take(&mut self, n: u64) -> Result<&'a [u8], Bad> {
        if n > (self.b.len() - self.pos) as u64 {
            return Err(Bad::Short);
        }
        let r = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    fn byte(&mut self) -> Result<u8, Bad> {
        Ok(self.take(1)?[0])
    }
    pub fn varint(&mut self, max: u32) -> Result<u64, Bad> {
        let start = self.pos;
        let b0 = self.byte()?;
        let ones = b0.leading_ones();
        let (fixed, n) = match max {
            16 => (ones >= 2, if ones >= 2 { 2 } else { ones }),
            32 => (ones >= 4, if ones >= 4 { 4 } else { ones }),
            _ => (ones >= 7, if ones >= 7 { ones } else { ones }),
        };
        let rest = self.take(n as u64)?;
        let mut r = 0u64;
        for (i, x) in rest.iter().enumerate() {
            r |= (*x as u64) << (8 * i);
        }
        let v = if fixed {
            // bits of the first byte after the prefix carry nothing in the fixed forms
            match max {
                16 if b0 != 0xc0 => self.canonical = false,
                32 if b0 != 0xf0 => self.canonical = false,
                _ => {}
            }
            r
        } else {
            let low = 7 - n;
            (r << low) | (b0 as u64 & ((1u64 << low) - 1))
        };
        let mut again = Vec::with_capacity(9);
        put_varint(&mut again, v, max);
        if again != self.b[start..self.pos] {
            self.canonical = false;
        }
        Ok(v)
    }
    fn bytes(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.varint(64)?;
        self.take(n)
    }
    fn text(&mut self) -> Result<String, Bad> {
        let b = self.bytes()?;
        String::from_utf8(b.to_vec()).map_err(|_| Bad::Malformed)
    }
    fn node(&mut self) -> Result<(), Bad> {
        self.nodes += 1;
        if self.nodes > self.max_nodes {
            Err(Bad::Blowup)
        } else {
            Ok(())
        }
    }

    pub fn val(&mut self, s: &Schema) -> Result<Val, Bad> {
        self.node()?;
        Ok(match s {
            Schema::Unit | Schema::UnitStruct => Val::Unit,
            Schema::Bool => match self.byte()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err(Bad::Malformed),
            },
            Schema::U8 => Val::U(self.byte()? as u64),
            Schema::U16 => Val::U(self.varint(16)?),
            Schema::U32 => Val::U(self.varint(32)?),
            Schema::U64 => Val::U(self.varint(64)?),
            Schema::I8 => Val::I(self.byte()? as i8 as i64),
            Schema::I16 => Val::I(unfold(self.varint(16)?)),
            Schema::I32 => Val::I(unfold(self.varint(32)?)),
            Schema::I64 => Val::I(unfold(self.varint(64)?)),
            Schema::F32 => Val::F32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            Schema::F64 => Val::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            Schema::Char => {
                let t = self.text()?;
                let mut c = t.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Val::Char(c),
                    _ => return Err(Bad::Malformed),
                }
            }
            Schema::Str(_) => Val::Str(self.text()?),
            Schema::Bytes(..) => Val::Bytes(self.bytes()?.to_vec()),
            Schema::Opt(s) => match self.byte()? {
                0 => Val::Opt(None),
                1 => Val::Opt(Some(Box::new(self.val(s)?))),
                _ => return Err(Bad::Malformed),
            },
            Schema::Seq(s) => {
                let n = self.varint(64)?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.val(s)?);
                }
                Val::Seq(v)
            }
            Schema::Map(s) => {
                let n = self.varint(64)?;
                let mut v: Vec<(String, Val)> = Vec::new();
                let mut seen = std::collections::HashSet::new();
                for _ in 0..n {
                    let k = self.text()?;
                    if !seen.insert(k.clone()) {
                        self.canonical = false;
                    }
                    let x = self.val(s)?;
                    v.push((k, x));
                }
                Val::Map(v)
            }
            Schema::Tuple(ss) | Schema::TupleStruct(ss) | Schema::Struct(ss) => {
                Val::Tup(self.vals(ss)?)
            }
            Schema::Newtype(s, _) => self.val(s)?,
            Schema::Enum(vs) => {
                let n = self.varint(32)?;
                let i = vs
                    .iter()
                    .position(|v| v.index as u64 == n)
                    .ok_or(Bad::Malformed)?;
                let p = match &vs[i].kind {
                    VKind::Unit => Val::Unit,
                    VKind::Newtype(s) => self.val(s)?,
                    VKind::Tuple(ss) | VKind::Struct(ss) => Val::Tup(self.vals(ss)?),
                };
                Val::Enum(i, Box::new(p))
            }
            Schema::BigUint(_) => {
                let b = self.bytes()?.to_vec();
                let t = trim_unsigned(b.clone());
                if t != b {
                    self.canonical = false;
                }
                Val::BigUint(t)
            }
            Schema::BigInt(_) => {
                let b = self.bytes()?.to_vec();
                let t = trim_signed(b.clone());
                if t != b {
                    self.canonical = false;
                }
                Val::BigInt(t)
            }
            Schema::BigDec(_) => {
                let b = self.bytes()?.to_vec();
                if b.is_empty() {
                    Val::BigDec(Box::new((b, 0, 0)))
                } else {
                    let d = num_bigint::BigInt::from_signed_bytes_le(&b);
                    let scale = unfold(self.varint(64)?);
                    let (nd, ns) = norm_dec(d, scale as i128);
                    let ns = ns.max(i64::MIN as i128);
                    let t = trim_signed(nd.to_signed_bytes_le());
                    if t != b {
                        self.canonical = false;
                    }
                    Val::BigDec(Box::new((t, ns as i64, 0)))
                }
            }
            Schema::Date(f) => {
                let y = unfold(self.varint(32)?) + 2000;
                let d = self.varint(16)? + 1;
                if y > i32::MAX as i64 || d > u16::MAX as u64 {
                    return Err(Bad::Malformed);
                }
                let real = (YEAR_MIN..=YEAR_MAX).contains(&y) && d <= year_len(y) as u64;
                if !real {
                    match f {
                        // the calendar type cannot hold it
                        Form::Adapter => return Err(Bad::Malformed),
                        // the plain wrapper may hold it or refuse it
                        Form::Wrapper => self.canonical = false,
                    }
                }
                Val::Date(y, d as u32)
            }
            Schema::DateTime(f) => {
                let t = unfold(self.varint(64)?);
                let n = self.varint(32)?;
                let carried = t as i128 + (n / 1_000_000_000) as i128;
                let real = (TS_MIN as i128..=TS_MAX as i128).contains(&(t as i128))
                    && carried <= TS_MAX as i128;
                if n >= 1_000_000_000 {
                    self.canonical = false;
                }
                if !real {
                    match f {
                        Form::Adapter => return Err(Bad::Malformed),
                        Form::Wrapper => {
                            self.canonical = false;
                            return Ok(Val::DateTime(t, n as u32));
                        }
                    }
                }
                Val::DateTime(carried as i64, (n % 1_000_000_000) as u32)
            }
        })
    }
    fn vals(&mut self, ss: &[Schema]) -> Result<Vec<Val>, Bad> {
        let mut v = Vec::with_capacity(ss.len());
        for s in ss {
            v.push(self.val(s)?);
        }
        Ok(v)
    }

    pub fn header(&mut self, depth: usize) -> Result<Header, Bad> {
        self.node()?;
        let b = self.byte()?;
        let inner = |r: &mut Self| -> Result<Box<Header>, Bad> {
            if depth >= 128 {
                return Err(Bad::Malformed);
            }
            Ok(Box::new(r.header(depth + 1)?))
        };
        let many = |r: &mut Self| -> Result<Vec<Header>, Bad> {
            let n = r.varint(16)?;
            let mut v = Vec::new();
            for _ in 0..n {
                if depth >= 128 {
                    return Err(Bad::Malformed);
                }
                v.push(r.header(depth + 1)?);
            }
            Ok(v)
        };
        Ok(match b {
            0 => Header::Unit,
            1 => Header::Optional(inner(self)?),
            2 => Header::Boolean,
            3 => Header::UInt8,
            4 => Header::UInt16,
            5 => Header::UInt32,
            6 => Header::UInt64,
            8 => Header::Int8,
            9 => Header::Int16,
            10 => Header::Int32,
            11 => Header::Int64,
            13 => Header::Float32,
            14 => Header::Float64,
            15 => Header::BigUInt,
            16 => Header::BigInt,
            17 => Header::BigDecimal,
            18 => Header::String,
            19 => Header::Binary,
            20 => Header::Array(inner(self)?),
            21 => Header::Tuple(many(self)?),
            23 => Header::Map(inner(self)?),
            24 => Header::Enum(many(self)?),
            25 => Header::Date,
            26 => Header::DateTime,
            _ => return Err(Bad::Malformed),
        })
    }
}

pub fn decode_all(s: &Schema, b: &[u8]) -> Option<Val> {
    let mut r = Rd::new(b);
    r.max_nodes = u64::MAX;
    let v = r.val(s).ok()?;
    (r.pos == b.len()).then_some(v)
}

pub fn put_header(h: &Header, out: &mut Vec<u8>) {
    let many = |c: u8, v: &Vec<Header>, out: &mut Vec<u8>| {
        out.push(c);
        put_varint(out, v.len() as u64, 16);
        for x in v {
            put_header(x, out);
        }
    };
    match h {
        Header::Unit => out.push(0),
        Header::Optional(x) => {
            out.push(1);
            put_header(x, out);
        }
        Header::Boolean => out.push(2),
        Header::UInt8 => out.push(3),
        Header::UInt16 => out.push(4),
        Header::UInt32 => out.push(5),
        Header::UInt64 => out.push(6),
        Header::Int8 => out.push(8),
        Header::Int16 => out.push(9),
        Header::Int32 => out.push(10),
        Header::Int64 => out.push(11),
        Header::Float32 => out.push(13),
        Header::Float64 => out.push(14),
        Header::BigUInt => out.push(15),
        Header::BigInt => out.push(16),
        Header::BigDecimal => out.push(17),
        Header::String => out.push(18),
        Header::Binary => out.push(19),
        Header::Array(x) => {
            out.push(20);
            put_header(x, out);
        }
        Header::Tuple(v) => many(21, v, out),
        Header::Map(x) => {
            out.push(23);
            put_header(x, out);
        }
        Header::Enum(v) => many(24, v, out),
        Header::Date => out.push(25),
        Header::DateTime => out.push(26),
    }
}

pub fn header_bytes(h: &Header) -> Vec<u8> {
    let mut v = Vec::new();
    put_header(h, &mut v);
    v
}
