//! C15: values and requests the format cannot carry.
use super::*;
use crate::dynamic;
use crate::refcodec;
use crate::serdes::{Cx, Seed, Sv};
use dlhn::Header;
use serde::de::{self, Deserialize, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple};
use serde::Serialize;
use std::sync::Arc;

/// Something that cannot be written, at some place inside a value.
struct Impossible<'a> {
    kind: u64,
    key: Option<(&'a Schema, &'a Val)>,
    val: (&'a Schema, &'a Val),
    n: usize,
    /// for the numbers of 128 bits
    num: u128,
}

const CX: Cx<'static> = Cx::NONE;

impl<'a> Serialize for Impossible<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let val = Sv { s: self.val.0, v: self.val.1, cx: &CX };
        match self.kind {
            0 => {
                // a map, some of whose keys are text and one is not
                let (ks, kv) = self.key.unwrap();
                let mut m = s.serialize_map(Some(self.n + 1))?;
                for i in 0..self.n {
                    m.serialize_entry(&format!("k{i}"), &val)?;
                }
                let key = Sv { s: ks, v: kv, cx: &CX };
                if self.n % 2 == 0 {
                    m.serialize_key(&key)?;
                    m.serialize_value(&val)?;
                } else {
                    m.serialize_entry(&key, &val)?;
                }
                m.end()
            }
            1 => {
                let mut q = s.serialize_seq(None)?;
                for _ in 0..self.n {
                    q.serialize_element(&val)?;
                }
                q.end()
            }
            2 => {
                let mut m = s.serialize_map(None)?;
                for i in 0..self.n {
                    m.serialize_entry(&format!("k{i}"), &val)?;
                }
                m.end()
            }
            3 => s.serialize_i128(self.num as i128),
            4 => s.serialize_u128(self.num),
            5 => {
                let mut q = s.serialize_struct("S", self.n + 1)?;
                for i in 0..self.n {
                    q.serialize_field(crate::serdes::names()[i], &val)?;
                }
                q.skip_field("left_out")?;
                q.end()
            }
            6 => {
                let mut q = s.serialize_struct_variant("E", 3, "V", self.n + 1)?;
                q.skip_field("left_out")?;
                for i in 0..self.n {
                    q.serialize_field(crate::serdes::names()[i], &val)?;
                }
                q.end()
            }
            // the same through the helpers of serde
            7 => s.collect_seq((0..self.n.max(1) as u64 * 3).filter(|x| x % 3 == 0)),
            8 => s.collect_map((0..self.n as u64 + 1).map(|i| (i, i))),
            _ => s.collect_map((0..self.n.max(1) as u64 * 3).filter(|x| x % 3 == 0).map(|i| (i.to_string(), i))),
        }
    }
}

/// 128 bits: of every magnitude, as unsigned or signed number.
fn number(sim: &Sim) -> u128 {
    let k = sim.draw(128);
    let x = match sim.draw(4) {
        0 => sim.draw(300) as u128,
        1 => (1u128 << k).wrapping_add(sim.draw(3) as u128).wrapping_sub(1),
        2 => {
            let (_, mut r) = sim.sub();
            ((r.next() as u128) << 64 | r.next() as u128) >> k
        }
        _ => *sim.pick(&[i8::MAX as u128, i16::MAX as u128, u32::MAX as u128, i64::MAX as u128, u64::MAX as u128, i128::MAX as u128, u128::MAX]),
    };
    if sim.draw(3) == 2 {
        x.wrapping_neg()
    } else {
        x
    }
}

/// `depth` containers around it.
struct Wrapped<'a>(&'a Impossible<'a>, &'a [u64], (&'a Schema, &'a Val));
impl<'a> Serialize for Wrapped<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (first, rest) = match self.1.split_first() {
            Some(x) => x,
            None => return self.0.serialize(s),
        };
        let inner = Wrapped(self.0, rest, self.2);
        let beside = Sv { s: self.2 .0, v: self.2 .1, cx: &CX };
        match first {
            0 => s.serialize_some(&inner),
            1 => s.serialize_newtype_struct("N", &inner),
            2 => s.serialize_newtype_variant("E", 7, "V", &inner),
            3 => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&inner)?;
                q.serialize_element(&inner)?;
                q.end()
            }
            4 => {
                let mut q = s.serialize_tuple(2)?;
                q.serialize_element(&beside)?;
                q.serialize_element(&inner)?;
                q.end()
            }
            5 => {
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_entry("key", &inner)?;
                q.end()
            }
            _ => {
                let mut q = s.serialize_struct("S", 3)?;
                q.serialize_field("a", &beside)?;
                q.serialize_field("b", &inner)?;
                q.serialize_field("c", &beside)?;
                q.end()
            }
        }
    }
}

/// Key types that are not text. Newtypes around text and single characters are left out: whether
/// those count as text is for the library to say.
fn key_schema(sim: &Sim) -> Schema {
    let base = match sim.draw(20) {
        0 => Schema::U32,
        1 => Schema::U8,
        2 => Schema::U16,
        3 => Schema::U64,
        4 => Schema::I8,
        5 => Schema::I16,
        6 => Schema::I32,
        7 => Schema::I64,
        8 => Schema::F32,
        9 => Schema::F64,
        10 => Schema::Bool,
        11 => Schema::Unit,
        12 => Schema::UnitStruct,
        13 => Schema::Bytes(false, false),
        14 => Schema::BigInt(Form::Wrapper),
        15 => Schema::Date(Form::Adapter),
        16 => Schema::DateTime(Form::Wrapper),
        17 => Schema::BigDec(Form::Adapter),
        18 => Schema::Str(false),
        _ => Schema::U32,
    };
    let text = matches!(base, Schema::Str(_));
    match sim.draw(10) {
        8 if !text => Schema::Newtype(Arc::new(base), false),
        9 if !text => Schema::Newtype(Arc::new(Schema::Newtype(Arc::new(base), false)), false),
        0 => Schema::opt(base),
        1 => Schema::seq(base),
        2 => Schema::tuple(vec![base.clone(), base]),
        3 => Schema::structure(vec![base]),
        4 => {
            // enums: cases of every kind, at any place
            let n = sim.usize(1, 4) as u32;
            let kind = |sim: &Sim| match sim.draw(5) {
                0 | 1 => VKind::Unit,
                2 => VKind::Newtype(base.clone()),
                3 => VKind::Tuple(vec![base.clone(), base.clone()]),
                _ => VKind::Struct(vec![base.clone()]),
            };
            Schema::Enum(Arc::new((0..n).map(|index| Variant { index, kind: kind(sim) }).collect()))
        }
        5 => Schema::Map(Arc::new(base)),
        _ if text => Schema::Enum(Arc::new(vec![Variant {
            index: 0,
            kind: VKind::Tuple(vec![base.clone(), base]),
        }])),
        _ => base,
    }
}

pub fn c15(sim: &Sim) -> Res {
    sim.nontrivial();
    match sim.draw(9) {
        0..=3 => writes(sim),
        4 | 5 => reads(sim),
        6 | 7 => wide(sim),
        _ => close(sim),
    }
}

// ---- keys that are nearly text: refused, or written so that they read back

#[derive(Serialize, serde::Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Debug, Hash)]
struct Name(String);
#[derive(Serialize, serde::Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Debug, Hash)]
#[serde(transparent)]
struct Clear {
    name: String,
}
#[derive(Serialize, serde::Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Debug, Hash)]
enum Case {
    A,
    Bc,
    #[serde(rename = "a")]
    D,
}

fn either<K>(sim: &Sim, keys: Vec<K>) -> Res
where
    K: Serialize + for<'a> Deserialize<'a> + Ord + Clone + std::fmt::Debug,
{
    let m: std::collections::BTreeMap<K, u16> = keys.into_iter().map(|k| (k, sim.draw(70_000) as u16)).collect();
    let o = small(sim);
    let before = gen_stream(sim, 0, 2, &o);
    let w = sim_writer(sim, Policy::gen(sim));
    let ends = write_stream(sim, &before, &w, sim.draw(2) == 1)?;
    let at = w.borrow().out.len();
    let mut out = Out(w.clone());
    let pair = sim.draw(2) == 1;
    let res = safe("write", || {
        let mut s = Serializer::new(&mut out);
        if pair {
            (&m, &m).serialize(&mut s)
        } else {
            m.serialize(&mut s)
        }
    })?;
    w.borrow_mut().account();
    let data = w.borrow().out.clone();
    sim.ev("nearly-text", at as u64, m.len() as u64, res.is_ok() as u64);
    sim.count(if res.is_ok() { "accepted-nearly-text-keys" } else { "refused-nearly-text-keys" });
    if res.is_ok() {
        let r = sim_reader(sim, data[at..].to_vec(), Policy::gen(sim));
        let mut i = In(r.clone());
        let back = safe("read", || {
            let mut d = Deserializer::new(&mut i);
            if pair {
                <(std::collections::BTreeMap<K, u16>, std::collections::BTreeMap<K, u16>)>::deserialize(&mut d).map(|(a, b)| a == m && b == m)
            } else {
                std::collections::BTreeMap::<K, u16>::deserialize(&mut d).map(|a| a == m)
            }
        })?;
        let left = r.borrow().left();
        if back != Ok(true) || left != 0 {
            bail!("miswritten", "a map with the keys {:?} was written but does not read back ({back:?}, {left} bytes left)", m.keys());
        }
    }
    let r = sim_reader(sim, data[..at].to_vec(), Policy::gen(sim));
    read_stream(sim, &before, &r, &ends, sim.draw(2) == 1)
}

fn close(sim: &Sim) -> Res {
    let n = sim.usize(1, 4);
    let text = |sim: &Sim| match gen_val(sim, &Schema::Str(false), &small(sim)) {
        Val::Str(s) => s,
        _ => String::new(),
    };
    match sim.draw(7) {
        0 => either(sim, (0..n).map(|_| sim.pick(&['a', '\0', '\u{7f}', '\u{80}', 'ß', '漢', '\u{10ffff}', 'z']).to_owned()).collect()),
        1 => either(sim, (0..n).map(|_| Name(text(sim))).collect()),
        2 => either(sim, (0..n).map(|_| Clear { name: text(sim) }).collect()),
        3 => either(sim, (0..n).map(|_| Some(text(sim))).collect()),
        4 => either(sim, (0..n).map(|_| Box::new(text(sim))).collect()),
        5 => either(sim, (0..n).map(|_| (text(sim),)).collect()),
        _ => either(sim, (0..n).map(|_| sim.pick(&[Case::A, Case::Bc, Case::D]).clone()).collect()),
    }
}

/// Bytes of a stream before the refused value, over a transport; then the rest of the stream.
fn writes(sim: &Sim) -> Res {
    let o = small(sim);
    let before = gen_stream(sim, 0, 3, &o);
    let ks = key_schema(sim);
    let kv = gen_val(sim, &ks, &o).canonical();
    let vs = gen_schema(sim, &Opts { nodes: 3, ..o });
    let vv = gen_val(sim, &vs, &Opts { max_len: 60, ..o });
    let imp = Impossible {
        kind: sim.draw(10),
        key: Some((&ks, &kv)),
        val: (&vs, &vv),
        n: sim.usize(0, 3),
        num: number(sim),
    };
    let path: Vec<u64> = (0..sim.draw(5)).map(|_| sim.draw(7)).collect();
    let w = sim_writer(sim, Policy::gen(sim));
    let mut ends = write_stream(sim, &before, &w, sim.draw(2) == 1)?;
    let at = w.borrow().out.len();
    let out = Out(w.clone());
    let mut ser = Serializer::new(out.clone());
    let what = ["a map key that is not text", "a sequence of unannounced length", "a map of unannounced length", "an i128", "a u128", "a skipped member", "a skipped member of a variant", "an iterator of unknown length", "a map with number keys", "a map iterator of unknown length"][imp.kind as usize];
    let res = safe("refused write", || Wrapped(&imp, &path, (&vs, &vv)).serialize(&mut ser))?;
    sim.ev("refusal", imp.kind, path.len() as u64, res.is_ok() as u64);
    sim.count("refused-writes");
    if res.is_ok() {
        let b = w.borrow();
        bail!("miswritten", "{what} (key {ks:?}) at path {path:?} was written as {}", hex(&b.out[at..]));
    }
    // what was there stays readable; the application cuts off the refused value and goes on
    let mut data = w.borrow().out[..at].to_vec();
    let mut recs = before;
    let after = gen_stream(sim, 0, 2, &o);
    w.borrow_mut().out.clear();
    for r in after {
        let res = safe("write", || r.write_in(&Cx::NONE, &mut ser, &out))?;
        if let Err(e) = res {
            bail!("write-failed", "{} after a refusal: {e}", r.label());
        }
        ends.push(data.len() + w.borrow().out.len());
        recs.push(r);
    }
    data.extend_from_slice(&w.borrow().out);
    let r = sim_reader(sim, data, Policy::gen(sim));
    read_stream(sim, &recs, &r, &ends, sim.draw(2) == 1)
}

// ---- reads that would need to know the type from the data

struct Any;
impl<'de> Visitor<'de> for Any {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> {
        Ok(())
    }
    fn visit_u128<E>(self, _: u128) -> Result<(), E> {
        Ok(())
    }
    fn visit_i128<E>(self, _: i128) -> Result<(), E> {
        Ok(())
    }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E>(self, _: &str) -> Result<(), E> {
        Ok(())
    }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> {
        Ok(())
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_none<E>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(Any)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_element::<de::IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_entry::<de::IgnoredAny, de::IgnoredAny>()?.is_some() {}
        Ok(())
    }
}

#[derive(serde::Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    A(u64),
    B(String),
}
#[derive(serde::Deserialize)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Tagged {
    A { x: u8 },
    B { y: String },
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, u8>,
}

const REQUESTS: &[&str] = &["any", "ignored", "i128", "u128", "untagged enum", "tagged enum"];

struct Request(u64);
impl<'de> DeserializeSeed<'de> for Request {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            0 => d.deserialize_any(Any),
            1 => de::IgnoredAny::deserialize(d).map(|_| ()),
            2 => d.deserialize_i128(Any),
            3 => d.deserialize_u128(Any),
            4 => Untagged::deserialize(d).map(|_| ()),
            _ => Tagged::deserialize(d).map(|_| ()),
        }
    }
}
/// Some members of known types first, then the request.
struct After<'a>(&'a [Schema], u64);
impl<'de, 'a> DeserializeSeed<'de> for After<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        let n = self.0.len();
        struct V<'a>(&'a [Schema], u64);
        impl<'de, 'a> Visitor<'de> for V<'a> {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("members")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
                let mut v = Vec::new();
                for s in self.0 {
                    match a.next_element_seed(Seed(s))? {
                        Some(x) => v.push(x),
                        None => return Err(de::Error::custom("short")),
                    }
                }
                a.next_element_seed(Request(self.1))?;
                Ok(v)
            }
        }
        d.deserialize_tuple(n + 1, V(self.0, self.1))
    }
}

fn reads(sim: &Sim) -> Res {
    let o = small(sim);
    let recs = gen_stream(sim, 0, 3, &o);
    let w = sim_writer(sim, Policy::gen(sim));
    let ends = write_stream(sim, &recs, &w, sim.draw(2) == 1)?;
    let n = sim.usize(0, 3);
    let ss: Vec<Schema> = (0..n).map(|_| gen_schema(sim, &Opts { nodes: 3, ..o })).collect();
    let s = Schema::tuple(ss.clone());
    let v = gen_val(sim, &s, &Opts { max_len: 80, ..o });
    let mut data = w.borrow().out.clone();
    data.extend_from_slice(&refcodec::encode(&s, &v));
    // the unknown part: any valid value, of any size
    let tail = Rec::gen(sim, &o).solo()?;
    data.extend_from_slice(&tail);
    data.extend_from_slice(&[1, 2, 3, 1, 65, 0, 0, 0]);
    let req = sim.draw(REQUESTS.len() as u64);
    let r = sim_reader(sim, data, Policy::gen(sim));
    let i = In(r.clone());
    let mut j = i.clone();
    let mut de = Deserializer::new(&mut j);
    for (k, rec) in recs.iter().enumerate() {
        let res = safe("read", || rec.read_in(&mut de, &i))?;
        rec.check("different-value", res)?;
        if r.borrow().pos != ends[k] {
            bail!("out-of-step", "{}", rec.label());
        }
    }
    let what = REQUESTS[req as usize];
    let res = safe("refused read", || {
        if n == 0 && sim.draw(2) == 1 {
            if sim.draw(2) == 1 {
                Flat::deserialize(&mut de).map(|_| vec![])
            } else {
                Request(req).deserialize(&mut de).map(|_| vec![])
            }
        } else {
            After(&ss, req).deserialize(&mut de)
        }
    })?;
    sim.ev("refusal", 100 + req, n as u64, res.is_ok() as u64);
    sim.count("refused-reads");
    r.borrow_mut().account();
    if let Ok(v) = res {
        bail!("misread", "a read that needs the type from the data ({what}) succeeded: {v:?}");
    }
    Ok(())
}

/// Descriptions with more members than can be counted, anywhere inside a description.
fn wide(sim: &Sim) -> Res {
    let n = match sim.draw(3) {
        0 => 65_536,
        1 => 65_535 + sim.usize(1, 300),
        _ => 65_536 * sim.usize(1, 3) + sim.usize(0, 2),
    };
    let leaf = sim.pick(&[Header::Unit, Header::Boolean, Header::String, Header::Int64]).clone();
    let mut h = if sim.draw(2) == 0 { Header::Tuple(vec![leaf; n]) } else { Header::Enum(vec![leaf; n]) };
    let o = small(sim);
    for _ in 0..sim.draw(4) {
        let beside = dynamic::header_of(&gen_schema(sim, &Opts { described: true, nodes: 4, ..o }));
        h = match sim.draw(5) {
            0 => Header::Optional(Box::new(h)),
            1 => Header::Array(Box::new(h)),
            2 => Header::Map(Box::new(h)),
            3 => Header::Tuple(vec![beside, h]),
            _ => Header::Enum(vec![beside, h]),
        };
    }
    let recs = gen_stream(sim, 0, 2, &o);
    let w = sim_writer(sim, Policy::gen(sim));
    let ends = write_stream(sim, &recs, &w, false)?;
    let at = w.borrow().out.len();
    let out = Out(w.clone());
    let res = safe("refused description", || write_header(&h, &out))?;
    sim.ev("refusal", 200, n as u64, res.is_ok() as u64);
    sim.count("refused-descriptions");
    if res.is_ok() {
        bail!("miswritten", "a description with {n} members was written as {}", hex(&w.borrow().out[at..]));
    }
    let mut data = w.borrow().out.clone();
    data.truncate(at);
    w.borrow_mut().account();
    let r = sim_reader(sim, data, Policy::gen(sim));
    read_stream(sim, &recs, &r, &ends, sim.draw(2) == 1)
}
