//! Types and values of the simulated workload, and their generation.
use crate::core::Sim;
use crate::tape::Rng;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// dlhn::BigUint, dlhn::Date, ...
    Wrapper,
    /// num_bigint::BigUint, time::Date, ... through dlhn::format::*
    Adapter,
}

#[derive(Clone, Debug)]
pub enum Schema {
    Unit,
    UnitStruct,
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Char,
    /// `true`: read through the `str` request instead of the `string` request
    Str(bool),
    /// `.0`: read through the `bytes` request instead of `byte_buf`;
    /// `.1`: the description calls it an array of bytes (same layout)
    Bytes(bool, bool),
    Opt(Arc<Schema>),
    Seq(Arc<Schema>),
    Map(Arc<Schema>),
    Tuple(Arc<Vec<Schema>>),
    TupleStruct(Arc<Vec<Schema>>),
    Struct(Arc<Vec<Schema>>),
    /// `true`: described as a tuple of one member (derived newtype structs)
    Newtype(Arc<Schema>, bool),
    Enum(Arc<Vec<Variant>>),
    BigUint(Form),
    BigInt(Form),
    BigDec(Form),
    Date(Form),
    DateTime(Form),
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub index: u32,
    pub kind: VKind,
}

#[derive(Clone, Debug)]
pub enum VKind {
    Unit,
    Newtype(Schema),
    Tuple(Vec<Schema>),
    Struct(Vec<Schema>),
}

impl VKind {
    fn void(&self) -> bool {
        match self {
            VKind::Unit => false,
            VKind::Newtype(s) => s.void(),
            VKind::Tuple(v) | VKind::Struct(v) => v.iter().any(|s| s.void()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
    Tup(Vec<Val>),
    /// position in the variant list, payload (Unit / value / Tup)
    Enum(usize, Box<Val>),
    /// magnitude, little endian, no leading zeros
    BigUint(Vec<u8>),
    /// two's complement, little endian, shortest; empty for zero
    BigInt(Vec<u8>),
    /// normalised digits and scale; `.2` trailing zeros added to the in-memory value
    BigDec(Box<(Vec<u8>, i64, u16)>),
    /// year, day of year (1-based)
    Date(i64, u32),
    /// unix seconds, nanoseconds
    DateTime(i64, u32),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Unit, Unit) => true,
            (Bool(a), Bool(b)) => a == b,
            (U(a), U(b)) => a == b,
            (I(a), I(b)) => a == b,
            (F32(a), F32(b)) => a == b,
            (F64(a), F64(b)) => a == b,
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Opt(a), Opt(b)) => a == b,
            (Seq(a), Seq(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Tup(a), Tup(b)) => a == b,
            (Enum(i, a), Enum(j, b)) => i == j && a == b,
            (BigUint(a), BigUint(b)) => a == b,
            (BigInt(a), BigInt(b)) => a == b,
            (BigDec(a), BigDec(b)) => a.0 == b.0 && a.1 == b.1,
            (Date(a, c), Date(b, d)) => a == b && c == d,
            (DateTime(a, c), DateTime(b, d)) => a == b && c == d,
            _ => false,
        }
    }
}

impl Val {
    /// Sort and de-duplicate every map (last entry wins), as a map type in memory would.
    pub fn canon_maps(&mut self) {
        match self {
            Val::Opt(Some(v)) => v.canon_maps(),
            Val::Seq(v) | Val::Tup(v) => v.iter_mut().for_each(|x| x.canon_maps()),
            Val::Enum(_, v) => v.canon_maps(),
            Val::Map(v) => {
                let mut m = std::collections::BTreeMap::new();
                for (k, mut x) in std::mem::take(v) {
                    x.canon_maps();
                    m.insert(k, x);
                }
                *v = m.into_iter().collect();
            }
            _ => {}
        }
    }
    pub fn canonical(&self) -> Val {
        let mut v = self.clone();
        v.canon_maps();
        v
    }
}

impl Schema {
    /// Values of this type occupy no bytes at all.
    pub fn zero_width(&self) -> bool {
        match self {
            Schema::Unit | Schema::UnitStruct => true,
            Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(v) => {
                v.iter().all(|s| s.zero_width())
            }
            Schema::Newtype(s, _) => s.zero_width(),
            _ => false,
        }
    }
    /// No value of it exists (an enum without cases).
    pub fn void(&self) -> bool {
        match self {
            Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(v) => v.iter().any(|s| s.void()),
            Schema::Newtype(s, _) => s.void(),
            Schema::Enum(vs) => vs.iter().all(|v| v.kind.void()),
            _ => false,
        }
    }
    /// An enum without cases.
    pub fn never() -> Schema {
        Schema::Enum(Arc::new(vec![]))
    }
    pub fn leaf(&self) -> bool {
        !matches!(
            self,
            Schema::Opt(_)
                | Schema::Seq(_)
                | Schema::Map(_)
                | Schema::Tuple(_)
                | Schema::TupleStruct(_)
                | Schema::Struct(_)
                | Schema::Newtype(..)
                | Schema::Enum(_)
        )
    }
    pub fn walk(&self, f: &mut dyn FnMut(&Schema)) {
        f(self);
        match self {
            Schema::Opt(s) | Schema::Seq(s) | Schema::Map(s) | Schema::Newtype(s, _) => s.walk(f),
            Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(v) => {
                v.iter().for_each(|s| s.walk(f))
            }
            Schema::Enum(vs) => vs.iter().for_each(|v| match &v.kind {
                VKind::Unit => {}
                VKind::Newtype(s) => s.walk(f),
                VKind::Tuple(v) | VKind::Struct(v) => v.iter().for_each(|s| s.walk(f)),
            }),
            _ => {}
        }
    }
    pub fn seq(s: Schema) -> Schema {
        Schema::Seq(Arc::new(s))
    }
    pub fn opt(s: Schema) -> Schema {
        Schema::Opt(Arc::new(s))
    }
    pub fn tuple(v: Vec<Schema>) -> Schema {
        Schema::Tuple(Arc::new(v))
    }
    pub fn structure(v: Vec<Schema>) -> Schema {
        Schema::Struct(Arc::new(v))
    }
}

/// What the generator may produce.
#[derive(Clone, Copy)]
pub struct Opts {
    /// must have a type description (dense variant numbers)
    pub described: bool,
    /// sequences of elements without bytes allowed
    pub zero_seq: bool,
    /// upper bound for nodes in a generated type / value
    pub nodes: usize,
    /// occasionally lengths up to this
    pub max_len: usize,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            described: false,
            zero_seq: true,
            nodes: 24,
            max_len: 20_000,
        }
    }
}

pub fn gen_leaf(sim: &Sim) -> Schema {
    leaf(sim, sim.draw(LEAVES as u64 + 1))
}

const LEAVES: usize = 23;
fn leaf(sim: &Sim, k: u64) -> Schema {
    use Schema::*;
    let form = |sim: &Sim| {
        if sim.draw(2) == 0 {
            Form::Wrapper
        } else {
            Form::Adapter
        }
    };
    match k {
        0 => Bool,
        1 => U8,
        2 => U16,
        3 => U32,
        4 => U64,
        5 => I8,
        6 => I16,
        7 => I32,
        8 => I64,
        9 => F32,
        10 => F64,
        11 => Char,
        12 | 13 | 14 => Str(sim.draw(4) == 3),
        15 | 16 => Bytes(sim.draw(4) == 3, false),
        17 => Unit,
        18 => BigUint(form(sim)),
        19 => BigInt(form(sim)),
        20 => BigDec(form(sim)),
        21 => Date(form(sim)),
        22 => DateTime(form(sim)),
        _ => UnitStruct,
    }
}

pub fn gen_schema(sim: &Sim, o: &Opts) -> Schema {
    let mut budget = 1 + sim.draw(o.nodes as u64) as i64;
    gen_schema_at(sim, o, 0, &mut budget)
}

fn gen_schema_at(sim: &Sim, o: &Opts, depth: usize, budget: &mut i64) -> Schema {
    *budget -= 1;
    let composite = *budget > 0 && depth < 7 && sim.chance(if depth == 0 { 720 } else { 420 });
    if !composite {
        return leaf(sim, sim.draw(LEAVES as u64 + 1));
    }
    let kids = |sim: &Sim, budget: &mut i64, lo: u64, hi: u64| -> Vec<Schema> {
        let n = sim.range(lo, hi);
        (0..n)
            .map(|_| gen_schema_at(sim, o, depth + 1, budget))
            .collect()
    };
    match sim.draw(12) {
        // around an enum without cases, of which there can be no value
        k @ 0..=4 if o.described && sim.chance(15) => {
            let e = if sim.draw(4) == 3 { Schema::tuple(vec![leaf(sim, 1), Schema::never()]) } else { Schema::never() };
            match k {
                0 | 1 => Schema::opt(e),
                2 | 3 => Schema::seq(e),
                _ => Schema::Map(Arc::new(e)),
            }
        }
        0 | 1 => Schema::opt(gen_schema_at(sim, o, depth + 1, budget)),
        2 | 3 => {
            let s = gen_schema_at(sim, o, depth + 1, budget);
            if s.zero_width() && !o.zero_seq {
                Schema::seq(Schema::Bool)
            } else {
                Schema::seq(s)
            }
        }
        4 => Schema::Map(Arc::new(gen_schema_at(sim, o, depth + 1, budget))),
        5 => Schema::Tuple(Arc::new(kids(sim, budget, 1, 6))),
        6 | 7 => {
            // sometimes wide enough for a two-byte member count
            let v = if sim.chance(12) {
                let n = if sim.chance(200) { sim.range(253, 262) } else { sim.range(126, 140) };
                (0..n).map(|i| leaf(sim, i % 5)).collect()
            } else {
                kids(sim, budget, 0, 6)
            };
            Schema::Struct(Arc::new(v))
        }
        8 => Schema::TupleStruct(Arc::new(kids(sim, budget, 2, 4))),
        9 => Schema::Newtype(Arc::new(gen_schema_at(sim, o, depth + 1, budget)), false),
        _ => {
            let wide = sim.chance(15);
            let n = if wide {
                if sim.chance(200) {
                    sim.range(254, 260)
                } else {
                    sim.range(127, 132)
                }
            } else {
                sim.range(1, 6)
            };
            let base = if o.described {
                0
            } else {
                match sim.draw(12) {
                    0 => 120,
                    1 => 16_380,
                    2 => 2_097_148,
                    3 => 268_435_452,
                    4 => u32::MAX - 270,
                    _ => 0,
                }
            };
            let vs = (0..n)
                .map(|i| Variant {
                    index: base + i as u32,
                    kind: if wide {
                        VKind::Unit
                    } else {
                        match sim.draw(4) {
                            0 if o.described && i > 0 && sim.chance(15) => VKind::Newtype(Schema::never()),
                            0 => VKind::Unit,
                            1 => VKind::Newtype(gen_schema_at(sim, o, depth + 1, budget)),
                            2 => VKind::Tuple(kids(sim, budget, 2, 4)),
                            _ => VKind::Struct(kids(sim, budget, 0, 4)),
                        }
                    },
                })
                .collect();
            Schema::Enum(Arc::new(vs))
        }
    }
}

/// Integer below 2^bits, biased to encoding-size boundaries.
pub fn gen_uint(sim: &Sim, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match sim.draw(4) {
        0 => sim.draw(17) & mask,
        1 => {
            let k = sim.draw(bits as u64 + 1) as u32;
            let p = if k >= 64 { 0 } else { 1u64 << k };
            match sim.draw(3) {
                0 => p & mask,
                1 => p.wrapping_sub(1) & mask,
                _ => p.wrapping_add(1) & mask,
            }
        }
        2 => {
            let k = 1 + sim.draw(bits as u64) as u32;
            let m = if k >= 64 { u64::MAX } else { (1u64 << k) - 1 };
            sim.draw(0) & m & mask
        }
        _ => sim.draw(0) & mask,
    }
}

pub fn gen_int(sim: &Sim, bits: u32) -> i64 {
    let m = gen_uint(sim, bits);
    // sign-extend the low `bits` of a possibly negated magnitude
    let v = if sim.draw(2) == 1 {
        (m as i64).wrapping_neg()
    } else {
        m as i64
    };
    if bits == 64 {
        v
    } else {
        let s = 64 - bits;
        (v << s) >> s
    }
}

pub const LEN_EDGES: &[usize] = &[
    126, 127, 128, 129, 130, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 12_288, 12_289,
    16_383, 16_384, 16_385, 32_767, 32_768, 65_535, 65_536, 65_537,
];

pub fn gen_len(sim: &Sim, max: usize) -> usize {
    let n = match sim.draw(40) {
        0..=29 => sim.draw(9) as usize,
        30..=33 => sim.draw(140) as usize,
        34..=37 => *sim.pick(LEN_EDGES),
        38 => sim.draw(70_000) as usize,
        _ => {
            if sim.chance(12) {
                *sim.pick(&[2_097_151usize, 2_097_152, 2_097_153])
            } else {
                sim.draw(1000) as usize
            }
        }
    };
    if n <= max {
        n
    } else {
        n % (max + 1)
    }
}

const CHARS: &[char] = &[
    'a', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}', 'é', '日', '🎃',
];

pub fn gen_char(sim: &Sim) -> char {
    match sim.draw(3) {
        0 => (b'a' + sim.draw(26) as u8) as char,
        1 => *sim.pick(CHARS),
        _ => char::from_u32(sim.draw(0x11_0000) as u32).unwrap_or('\u{e000}'),
    }
}

/// `n` bytes of valid UTF-8 text.
pub fn gen_text(sim: &Sim, n: usize) -> String {
    let kind = sim.draw(3);
    let (seed, mut r) = sim.sub();
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let c = if seed == 0 || kind == 0 {
            (b'a' + r.below(26) as u8) as char
        } else if kind == 1 {
            CHARS[r.below(CHARS.len() as u64) as usize]
        } else {
            char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{800}')
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s
}

pub fn gen_blob(sim: &Sim, n: usize) -> Vec<u8> {
    let (seed, mut r) = sim.sub();
    if seed == 0 {
        return vec![0; n];
    }
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => r.below(4) as u8,
            1 => 0xff,
            _ => r.next() as u8,
        })
        .collect()
}

/// Shortest two's complement form.
pub fn trim_signed(mut v: Vec<u8>) -> Vec<u8> {
    while v.len() > 1 {
        let last = v[v.len() - 1];
        let prev_neg = v[v.len() - 2] & 0x80 != 0;
        if (last == 0 && !prev_neg) || (last == 0xff && prev_neg) {
            v.pop();
        } else {
            break;
        }
    }
    if v == [0] {
        v.clear();
    }
    v
}

pub fn trim_unsigned(mut v: Vec<u8>) -> Vec<u8> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn gen_digits(sim: &Sim, max: usize) -> Vec<u8> {
    let n = match sim.draw(8) {
        0 => 0,
        1..=4 => sim.draw(18) as usize,
        5 => sim.draw(66) as usize,
        6 => sim.draw(300) as usize,
        _ => *sim.pick(&[127usize, 128, 129, 255, 256, 1023, 1024]),
    }
    .min(max);
    let mut v = gen_blob(sim, n);
    if n > 0 {
        match sim.draw(6) {
            0 => v[n - 1] = 0x80,
            1 => v[n - 1] = 0x7f,
            2 => {
                v[n - 1] = 0;
                if n > 1 {
                    v[n - 2] |= 0x80;
                }
            }
            3 => v[n - 1] = 0xff,
            _ => {}
        }
    }
    v
}

pub fn norm_dec(digits: num_bigint::BigInt, scale: i128) -> (num_bigint::BigInt, i128) {
    use num_traits::Zero;
    if digits.is_zero() {
        return (digits, 0);
    }
    let ten = num_bigint::BigInt::from(10);
    let (mut d, mut s) = (digits, scale);
    // cheap test on parity first; big operands only when it pays
    loop {
        if d.bit(0) {
            break;
        }
        let q = &d / &ten;
        if &q * &ten != d {
            break;
        }
        d = q;
        s -= 1;
    }
    (d, s)
}

fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn year_len(y: i64) -> u32 {
    if is_leap(y) {
        366
    } else {
        365
    }
}
/// The years the calendar library in use supports.
pub const YEAR_MIN: i64 = -9999;
pub const YEAR_MAX: i64 = 9999;
/// First and last second of the supported range (UTC).
pub const TS_MIN: i64 = -377_705_116_800;
pub const TS_MAX: i64 = 253_402_300_799;

fn gen_date(sim: &Sim) -> Val {
    let y = match sim.draw(5) {
        0 => 2000 + sim.draw(40) as i64,
        1 => {
            // around the sizes of the encoded year offset
            let d = *sim.pick(&[0i64, 31, 32, 63, 64, 65, 127, 128, 8191, 8192, 4096]);
            let y = if sim.draw(2) == 0 { 2000 + d } else { 2000 - d };
            y.clamp(YEAR_MIN, YEAR_MAX)
        }
        2 => *sim.pick(&[YEAR_MIN, -1, 0, 1, 1582, 1600, 1900, 1970, 1999, 2100, 2400, YEAR_MAX]),
        _ => YEAR_MIN + sim.draw((YEAR_MAX - YEAR_MIN + 1) as u64) as i64,
    };
    let n = year_len(y);
    let d = match sim.draw(4) {
        0 => 1,
        1 => n,
        2 => *sim.pick(&[2u32, 127, 128, 129, 130, 256, 257, 59, 60, 61, 364]),
        _ => 1 + sim.draw(n as u64) as u32,
    };
    Val::Date(y, d)
}

fn gen_datetime(sim: &Sim) -> Val {
    let t = match sim.draw(4) {
        0 => sim.draw(2_000_000_000) as i64,
        1 => {
            let k = sim.draw(39);
            let m = (1i64 << k) + sim.draw(3) as i64 - 1;
            if sim.draw(2) == 0 {
                m
            } else {
                -m
            }
        }
        2 => *sim.pick(&[0, -1, 1, TS_MIN, TS_MIN + 1, TS_MAX, TS_MAX - 1, -62_135_596_800]),
        _ => TS_MIN + sim.draw((TS_MAX - TS_MIN + 1) as u64) as i64,
    };
    let n = match sim.draw(4) {
        0 => 0,
        1 => *sim.pick(&[1u32, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455, 268_435_456]),
        2 => 999_999_999,
        _ => sim.draw(1_000_000_000) as u32,
    };
    Val::DateTime(t.clamp(TS_MIN, TS_MAX), n)
}

pub fn gen_val(sim: &Sim, s: &Schema, o: &Opts) -> Val {
    // total bytes / elements a value may have
    let mut budget = o.max_len as i64;
    gen_val_at(sim, s, &mut budget)
}

fn gen_val_at(sim: &Sim, s: &Schema, budget: &mut i64) -> Val {
    *budget -= 1;
    let room = |b: i64| b.max(0) as usize;
    match s {
        Schema::Unit | Schema::UnitStruct => Val::Unit,
        Schema::Bool => Val::Bool(sim.draw(2) == 1),
        Schema::U8 => Val::U(gen_uint(sim, 8)),
        Schema::U16 => Val::U(gen_uint(sim, 16)),
        Schema::U32 => Val::U(gen_uint(sim, 32)),
        Schema::U64 => Val::U(gen_uint(sim, 64)),
        Schema::I8 => Val::I(gen_int(sim, 8)),
        Schema::I16 => Val::I(gen_int(sim, 16)),
        Schema::I32 => Val::I(gen_int(sim, 32)),
        Schema::I64 => Val::I(gen_int(sim, 64)),
        Schema::F32 => Val::F32(match sim.draw(4) {
            0 => (sim.draw(100) as f32).to_bits(),
            1 => *sim.pick(&[
                0x8000_0000,
                0x7f80_0000,
                0xff80_0000,
                0x7fc0_0000,
                0xffc0_0000,
                0x7f80_0001,
                1,
                0x0080_0000,
                0x7f7f_ffff,
                0x7fff_ffff,
            ]),
            _ => sim.draw(1 << 32) as u32,
        }),
        Schema::F64 => Val::F64(match sim.draw(4) {
            0 => (sim.draw(100) as f64).to_bits(),
            1 => *sim.pick(&[
                1 << 63,
                0x7ff0 << 48,
                0xfff0 << 48,
                0x7ff8 << 48,
                0xfff8 << 48,
                (0x7ff0 << 48) + 1,
                1,
                0x0010 << 48,
                u64::MAX >> 1,
            ]),
            _ => sim.draw(0),
        }),
        Schema::Char => Val::Char(gen_char(sim)),
        Schema::Str(_) => {
            let n = gen_len(sim, room(*budget));
            *budget -= n as i64;
            Val::Str(gen_text(sim, n))
        }
        Schema::Bytes(..) => {
            let n = gen_len(sim, room(*budget));
            *budget -= n as i64;
            Val::Bytes(gen_blob(sim, n))
        }
        Schema::Opt(s) if s.void() => Val::Opt(None),
        Schema::Seq(s) if s.void() => Val::Seq(vec![]),
        Schema::Map(s) if s.void() => Val::Map(vec![]),
        Schema::Opt(s) => Val::Opt(if sim.draw(3) > 0 {
            Some(Box::new(gen_val_at(sim, s, budget)))
        } else {
            None
        }),
        Schema::Seq(e) => {
            let n = gen_len(sim, room(*budget));
            // long sequences of one-node elements are expanded from one entry of the tape
            let bits = match **e {
                Schema::U8 => 8,
                Schema::U16 => 16,
                Schema::U32 => 32,
                Schema::U64 => 64,
                _ => 0,
            };
            if n > 8 && (bits > 0 || e.zero_width()) {
                *budget -= n as i64;
                if bits == 0 {
                    let unit = gen_val_at(sim, e, &mut 0);
                    return Val::Seq(vec![unit; n]);
                }
                let (seed, mut r) = sim.sub();
                return Val::Seq(
                    (0..n)
                        .map(|_| {
                            Val::U(if seed == 0 {
                                0
                            } else {
                                // mixed magnitudes
                                (r.next() >> r.below(64)) & (u64::MAX >> (64 - bits))
                            })
                        })
                        .collect(),
                );
            }
            let mut v: Vec<Val> = Vec::new();
            for i in 0..n {
                if *budget <= 0 {
                    break;
                }
                // beyond a few hundred elements, repeat (keeps tapes short)
                if i >= 200 {
                    let x: Val = v[i % 200].clone();
                    *budget -= 1 + x.weight();
                    v.push(x);
                } else {
                    v.push(gen_val_at(sim, e, budget));
                }
            }
            Val::Seq(v)
        }
        Schema::Map(e) => {
            let n = match sim.draw(12) {
                0..=9 => sim.draw(5) as usize,
                10 => sim.draw(40) as usize,
                _ if sim.chance(150) => *sim.pick(&[
                    255usize, 256, 257, 300, 1000, 4096, 16_383, 16_384, 16_385, 65_535, 65_536, 65_537,
                ]),
                _ => *sim.pick(&[126usize, 127, 128, 129, 130]),
            };
            if n > 130 && *budget > 6 * n as i64 {
                // many entries are expanded from a few
                let few: Vec<Val> = (0..4).map(|_| gen_val_at(sim, e, &mut 20)).collect();
                let (_, mut r) = sim.sub();
                let base = r.below(1000) as usize;
                *budget -= n as i64 * (6 + few.iter().map(|x| x.weight()).max().unwrap_or(0));
                return Val::Map((0..n).map(|i| ((base + i).to_string(), few[i % 4].clone())).collect());
            }
            let mut v: Vec<(String, Val)> = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for i in 0..n {
                if *budget <= 0 && i > 0 {
                    break;
                }
                let l = match sim.draw(8) {
                    0 => 0,
                    1..=5 => sim.draw(9) as usize,
                    6 => sim.draw(40) as usize,
                    _ if sim.chance(150) => {
                        *sim.pick(&[255usize, 256, 4095, 4096, 16_383, 16_384, 65_535, 65_536, 65_537])
                    }
                    _ => *sim.pick(&[127usize, 128, 129, 255, 4096]),
                }
                .min(room(*budget).max(8));
                let mut k = gen_text(sim, l);
                while !seen.insert(k.clone()) {
                    k.push_str(&i.to_string());
                }
                *budget -= k.len() as i64 + 1;
                let x = gen_val_at(sim, e, budget);
                v.push((k, x));
            }
            Val::Map(v)
        }
        Schema::Tuple(v) | Schema::TupleStruct(v) | Schema::Struct(v) => {
            Val::Tup(v.iter().map(|s| gen_val_at(sim, s, budget)).collect())
        }
        Schema::Newtype(s, _) => gen_val_at(sim, s, budget),
        Schema::Enum(vs) => {
            let i = sim.draw(vs.len() as u64) as usize;
            let i = (i..vs.len()).chain(0..i).find(|i| !vs[*i].kind.void()).expect("a case with values");
            let p = match &vs[i].kind {
                VKind::Unit => Val::Unit,
                VKind::Newtype(s) => gen_val_at(sim, s, budget),
                VKind::Tuple(v) | VKind::Struct(v) => {
                    Val::Tup(v.iter().map(|s| gen_val_at(sim, s, budget)).collect())
                }
            };
            Val::Enum(i, Box::new(p))
        }
        Schema::BigUint(_) => Val::BigUint(trim_unsigned(gen_digits(sim, room(*budget).max(20)))),
        Schema::BigInt(_) => Val::BigInt(trim_signed(gen_digits(sim, room(*budget).max(20)))),
        Schema::BigDec(_) => {
            let most = if sim.chance(100) { room(*budget).clamp(40, 600) } else { 40 };
            let d = num_bigint::BigInt::from_signed_bytes_le(&gen_digits(sim, most));
            let scale = match sim.draw(4) {
                0 => sim.draw(12) as i64 - 4,
                1 => {
                    let k = sim.draw(62);
                    let m = (1i64 << k) + sim.draw(3) as i64 - 1;
                    if sim.draw(2) == 0 {
                        m
                    } else {
                        -m
                    }
                }
                2 => sim.draw(2000) as i64 - 1000,
                _ => *sim.pick(&[0i64, 0, 0, 0, 0, i64::MAX - 30, i64::MIN + 400]),
            };
            let (d, s) = norm_dec(d, scale as i128);
            let zeros = match sim.draw(100) {
                99 => *sim.pick(&[16u16, 38, 39, 77, 127, 128, 255, 256, 257, 300]),
                98 => sim.draw(90) as u16,
                k => (k % 4) as u16 * (k / 4 % 4) as u16,
            };
            use num_traits::Zero;
            if d.is_zero() {
                Val::BigDec(Box::new((Vec::new(), 0, zeros)))
            } else {
                let zeros = zeros.min(i64::MAX.saturating_sub(s as i64).min(9999) as u16);
                Val::BigDec(Box::new((trim_signed(d.to_signed_bytes_le()), s as i64, zeros)))
            }
        }
        Schema::Date(_) => gen_date(sim),
        Schema::DateTime(_) => gen_datetime(sim),
    }
}

impl Val {
    /// Rough number of elements / bytes in the value.
    pub fn weight(&self) -> i64 {
        match self {
            Val::Str(s) => 1 + s.len() as i64,
            Val::Bytes(b) => 1 + b.len() as i64,
            Val::Opt(Some(v)) => 1 + v.weight(),
            Val::Seq(v) | Val::Tup(v) => 1 + v.iter().map(|x| x.weight()).sum::<i64>(),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.len() as i64 + v.weight()).sum::<i64>(),
            Val::Enum(_, v) => 1 + v.weight(),
            Val::BigUint(b) | Val::BigInt(b) => 1 + b.len() as i64,
            _ => 1,
        }
    }
}

/// A local re-shuffle used by hash-map hashers and the like.
pub fn rng_from(sim: &Sim) -> Rng {
    sim.sub().1
}
