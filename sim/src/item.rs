//! What travels: records (a value of some type, as typed value or dynamic body, or a type
//! description), how the code under test writes and reads them, and what the reference says.
use crate::core::*;
use crate::dynamic;
use crate::env::*;
use crate::refcodec;
use crate::schema::*;
use crate::serdes::*;
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::sync::Arc;

/// A real type (derived `Serialize`, `Deserialize`, `SerializeHeader`).
pub trait Subject: Sync {
    fn name(&self) -> &'static str;
    fn schema(&self) -> &Arc<Schema>;
    fn traits(&self) -> Traits;
    fn ser(&self, v: &Val, hash_seed: u64, ser: &mut Serializer<Out>) -> Result<(), String>;
    fn de(&self, de: &mut Deserializer<In>) -> Result<Val, String>;
    fn header(&self, w: &mut Out) -> std::io::Result<()>;
}

#[derive(Clone, Copy, Default)]
pub struct Traits {
    /// has a type description
    pub described: bool,
    /// contains a hash map: byte order of entries is not determined
    pub hashed: bool,
    /// unbounded recursion: not read from damaged input (see known findings)
    pub recursive: bool,
}

#[derive(Clone)]
pub enum Ty {
    Dyn(Arc<Schema>),
    Subj(&'static dyn Subject),
}

impl Ty {
    pub fn schema(&self) -> &Schema {
        match self {
            Ty::Dyn(s) => s,
            Ty::Subj(s) => s.schema(),
        }
    }
    pub fn arc(&self) -> Arc<Schema> {
        match self {
            Ty::Dyn(s) => s.clone(),
            Ty::Subj(s) => s.schema().clone(),
        }
    }
    pub fn label(&self) -> String {
        match self {
            Ty::Dyn(s) => short(format!("{s:?}")),
            Ty::Subj(s) => s.name().to_string(),
        }
    }
    /// Write one typed value.
    pub fn write(&self, v: &Val, cx: &Cx, seed: u64, ser: &mut Serializer<Out>) -> Result<(), String> {
        match self {
            Ty::Dyn(s) => Sv { s, v, cx }.serialize(&mut *ser).map_err(|e| e.to_string()),
            Ty::Subj(t) => t.ser(v, seed, ser),
        }
    }
    /// Read one typed value.
    pub fn read(&self, de: &mut Deserializer<In>) -> Result<Val, String> {
        match self {
            Ty::Dyn(s) => Seed(s).deserialize(&mut *de).map_err(|e| e.to_string()),
            Ty::Subj(t) => t.de(de),
        }
    }
}

pub fn write_body(b: &Body, ser: &mut Serializer<Out>) -> Result<(), String> {
    b.serialize(&mut *ser).map_err(|e| e.to_string())
}
pub fn read_body(h: &Header, de: &mut Deserializer<In>) -> Result<Body, String> {
    Body::deserialize(h, de).map_err(|e| e.to_string())
}
pub fn write_header(h: &Header, w: &Out) -> Result<(), String> {
    h.serialize(&mut w.clone()).map_err(|e| e.to_string())
}
pub fn read_header(r: &In) -> Result<Header, String> {
    r.clone().deserialize_header().map_err(|e| e.to_string())
}

/// Generates a type; `subj` allows real types.
pub fn gen_ty(sim: &Sim, o: &Opts, subj: bool) -> Ty {
    if subj && sim.draw(4) == 3 {
        let all = crate::subjects::all();
        let i = sim.draw(all.len() as u64) as usize;
        if !o.described || all[i].traits().described {
            return Ty::Subj(all[i]);
        }
    }
    Ty::Dyn(Arc::new(gen_schema(sim, o)))
}

/// A type without values around `s`.
pub fn with_void(sim: &Sim, s: Schema) -> Schema {
    match sim.draw(4) {
        0 => Schema::never(),
        1 => Schema::tuple(vec![s, Schema::never()]),
        2 => Schema::tuple(vec![Schema::never(), s]),
        _ => Schema::Enum(Arc::new(vec![
            Variant { index: 0, kind: VKind::Newtype(Schema::never()) },
            Variant { index: 1, kind: VKind::Newtype(Schema::tuple(vec![s, Schema::never()])) },
        ])),
    }
}

#[derive(Clone)]
pub enum Rec {
    Typed(Ty, Val, u64),
    Dynamic(Arc<Schema>, Val, Arc<Header>, Body),
    /// written as a dynamic body, read as the type it stands for
    Loose(Ty, Val, Body),
    Header(Arc<Header>),
    /// the derived description of a real type
    Derived(&'static dyn Subject),
}

/// What a read of a record yields, in comparable form.
#[derive(Clone, Debug)]
pub enum Got {
    Val(Val),
    Body(Body),
    Header(Header),
}

impl Rec {
    pub fn gen(sim: &Sim, o: &Opts) -> Rec {
        match sim.draw(8) {
            0..=4 => {
                let t = gen_ty(sim, o, true);
                let v = gen_val(sim, t.schema(), o);
                Rec::typed(sim, t, v)
            }
            5 | 6 if sim.chance(150) => {
                // no description is involved: case numbers up to the highest
                let t = Ty::Dyn(Arc::new(gen_schema(sim, o)));
                let v = gen_val(sim, t.schema(), o).canonical();
                let b = dynamic::body_of(t.schema(), &v);
                Rec::Loose(t, v, b)
            }
            5 | 6 => {
                let t = gen_ty(sim, &Opts { described: true, ..*o }, true);
                Rec::gen_dynamic(sim, t.arc(), o)
            }
            _ => Rec::gen_header(sim, o),
        }
    }
    pub fn typed(sim: &Sim, t: Ty, v: Val) -> Rec {
        let v = match &t {
            Ty::Subj(s) if s.traits().hashed => v.canonical(),
            // in-memory maps of real types are ordered by key
            Ty::Subj(_) => v.canonical(),
            _ => v,
        };
        let seed = match &t {
            Ty::Subj(s) if s.traits().hashed => sim.draw(0),
            _ => 0,
        };
        Rec::Typed(t, v, seed)
    }
    pub fn gen_dynamic(sim: &Sim, s: Arc<Schema>, o: &Opts) -> Rec {
        Rec::dynamic(s.clone(), gen_val(sim, &s, o))
    }
    pub fn dynamic(s: Arc<Schema>, v: Val) -> Rec {
        let v = v.canonical();
        let b = dynamic::body_of(&s, &v);
        let h = Arc::new(dynamic::header_of(&s));
        Rec::Dynamic(s, v, h, b)
    }
    pub fn gen_header(sim: &Sim, o: &Opts) -> Rec {
        if sim.draw(3) == 2 {
            let all = crate::subjects::all();
            let s = all[sim.draw(all.len() as u64) as usize];
            if s.traits().described {
                return Rec::Derived(s);
            }
        }
        let mut s = gen_schema(sim, &Opts { described: true, ..*o });
        if sim.chance(15) {
            // of something that has no values
            s = with_void(sim, s);
        }
        Rec::Header(Arc::new(dynamic::header_of(&s)))
    }

    pub fn label(&self) -> String {
        match self {
            Rec::Typed(t, v, _) => short(format!("value of {}: {:?}", t.label(), v)),
            Rec::Dynamic(_, _, h, b) => short(format!("body {b:?} of {h:?}")),
            Rec::Loose(t, _, b) => short(format!("body {b:?} in place of a value of {}", t.label())),
            Rec::Header(h) => short(format!("description {h:?}")),
            Rec::Derived(s) => format!("derived description of {}", s.name()),
        }
    }
    /// Write with a writer object of its own.
    pub fn write(&self, w: &Out) -> Result<(), String> {
        self.write_cx(&Cx::NONE, w)
    }
    pub fn write_cx(&self, cx: &Cx, w: &Out) -> Result<(), String> {
        self.write_in(cx, &mut Serializer::new(w.clone()), w)
    }
    /// Write with a writer object that is used for the whole session.
    pub fn write_in(&self, cx: &Cx, ser: &mut Serializer<Out>, w: &Out) -> Result<(), String> {
        match self {
            Rec::Typed(t, v, seed) => t.write(v, cx, *seed, ser),
            Rec::Dynamic(_, _, _, b) | Rec::Loose(_, _, b) => write_body(b, ser),
            Rec::Header(h) => write_header(h, w),
            Rec::Derived(s) => s.header(&mut w.clone()).map_err(|e| e.to_string()),
        }
    }
    /// The bytes the format prescribes; `None` where the order of a hash map decides.
    pub fn expected(&self) -> Option<Vec<u8>> {
        match self {
            Rec::Typed(Ty::Subj(s), _, _) if s.traits().hashed => None,
            Rec::Typed(t, v, _) => Some(refcodec::encode(t.schema(), v)),
            Rec::Loose(t, v, _) => Some(refcodec::encode(t.schema(), v)),
            Rec::Dynamic(s, v, _, _) => Some(refcodec::encode(s, v)),
            Rec::Header(h) => Some(refcodec::header_bytes(h)),
            Rec::Derived(s) => Some(refcodec::header_bytes(&dynamic::header_of(s.schema()))),
        }
    }
    /// Fault-free bytes as the code under test writes them.
    pub fn solo(&self) -> Res<Vec<u8>> {
        let out = shared(Vec::new());
        let o = Out(out.clone());
        match safe("write", || self.write(&o))? {
            Ok(()) => Ok(out.take()),
            Err(e) => viol("write-failed", format!("{} could not be written: {e}", self.label())),
        }
    }
    pub fn read(&self, r: &In) -> Result<Got, String> {
        let mut i = r.clone();
        self.read_in(&mut Deserializer::new(&mut i), r)
    }
    pub fn read_in(&self, de: &mut Deserializer<In>, r: &In) -> Result<Got, String> {
        match self {
            Rec::Typed(t, _, _) | Rec::Loose(t, _, _) => t.read(de).map(Got::Val),
            Rec::Dynamic(_, _, h, _) => read_body(h, de).map(Got::Body),
            Rec::Header(_) | Rec::Derived(_) => read_header(r).map(Got::Header),
        }
    }
    pub fn matches(&self, g: &Got) -> bool {
        match (self, g) {
            (Rec::Typed(Ty::Subj(_), v, _), Got::Val(g)) => v.canonical() == g.canonical(),
            (Rec::Typed(_, v, _), Got::Val(g)) => v == g,
            (Rec::Loose(_, v, _), Got::Val(g)) => g.canonical() == *v,
            // through the model's eyes, so that NaN payloads compare bit for bit
            (Rec::Dynamic(s, v, _, _), Got::Body(g)) => {
                dynamic::val_of(s, g).map(|g| g.canonical() == *v).unwrap_or(false)
            }
            (Rec::Header(h), Got::Header(g)) => **h == *g,
            (Rec::Derived(s), Got::Header(g)) => dynamic::header_of(s.schema()) == *g,
            _ => false,
        }
    }
    pub fn check(&self, class: &str, r: Result<Got, String>) -> Res {
        match r {
            Ok(g) if self.matches(&g) => Ok(()),
            Ok(g) => viol(
                class,
                format!("{} was read as {}", self.label(), short(format!("{g:?}"))),
            ),
            Err(e) => viol(
                "read-failed",
                format!("{} could not be read back: {e}", self.label()),
            ),
        }
    }
}
