//! C14: numbers and calendar values in all their representations.
use super::*;
use crate::dynamic;
use crate::refcodec;
use dlhn::{Body, Header};
use serde::{Deserialize, Serialize};
use std::convert::TryInto;
use std::sync::Arc;

fn leaf(sim: &Sim) -> Schema {
    let f = Form::Wrapper;
    match sim.draw(5) {
        0 => Schema::BigUint(f),
        1 => Schema::BigInt(f),
        2 => Schema::BigDec(f),
        3 => Schema::Date(f),
        _ => Schema::DateTime(f),
    }
}

fn shape(sim: &Sim, depth: usize) -> Schema {
    if depth >= 3 {
        return leaf(sim);
    }
    match sim.draw(10) {
        0..=3 => leaf(sim),
        4 => Schema::opt(shape(sim, depth + 1)),
        5 => Schema::seq(shape(sim, depth + 1)),
        6 => Schema::Map(Arc::new(shape(sim, depth + 1))),
        7 => Schema::Enum(Arc::new(
            (0..sim.range(1, 3))
                .map(|i| Variant { index: i as u32, kind: VKind::Newtype(shape(sim, depth + 1)) })
                .collect(),
        )),
        _ => Schema::structure((0..sim.range(1, 5)).map(|_| shape(sim, depth + 1)).collect()),
    }
}

/// The same type with representations chosen anew at every place.
fn reform(sim: &Sim, s: &Schema) -> Schema {
    let f = |sim: &Sim| if sim.draw(2) == 0 { Form::Wrapper } else { Form::Adapter };
    match s {
        Schema::BigUint(_) => Schema::BigUint(f(sim)),
        Schema::BigInt(_) => Schema::BigInt(f(sim)),
        Schema::BigDec(_) => Schema::BigDec(f(sim)),
        Schema::Date(_) => Schema::Date(f(sim)),
        Schema::DateTime(_) => Schema::DateTime(f(sim)),
        Schema::Opt(s) => Schema::opt(reform(sim, s)),
        Schema::Seq(s) => Schema::seq(reform(sim, s)),
        Schema::Map(s) => Schema::Map(Arc::new(reform(sim, s))),
        Schema::Struct(v) => Schema::structure(v.iter().map(|s| reform(sim, s)).collect()),
        Schema::Enum(v) => Schema::Enum(Arc::new(
            v.iter()
                .map(|x| Variant {
                    index: x.index,
                    kind: match &x.kind {
                        VKind::Newtype(s) => VKind::Newtype(reform(sim, s)),
                        k => k.clone(),
                    },
                })
                .collect(),
        )),
        s => s.clone(),
    }
}

/// Calendar values of a peer that may not exist: the representations must agree on whether they do,
/// and on which instant they are.
fn phantoms(sim: &Sim) -> Res {
    let n = sim.usize(1, 6);
    for _ in 0..n {
        let days = sim.draw(2) == 0;
        // what a peer may put on the wire: a signed and an unsigned number
        let (a, b): (i64, u64) = if days {
            let y = match gen_val(sim, &Schema::Date(Form::Wrapper), &small(sim)) {
                Val::Date(y, _) => y,
                _ => unreachable!(),
            };
            let y = match sim.draw(8) {
                0 => *sim.pick(&[-10_000i64, -9999, 9999, 10_000, 32_767, -32_768, 65_536 + 2000, i32::MAX as i64, i32::MAX as i64 - 1, i32::MIN as i64 + 2000]),
                1 => y / 100 * 100,
                2 => y / 4 * 4,
                _ => y,
            };
            let d = match sim.draw(4) {
                0 => *sim.pick(&[0u64, 1, 364, 365, 366, 367, 511, 65_533, 65_534]),
                1 => 363 + sim.draw(5),
                2 => sim.draw(65_535),
                _ => sim.draw(366),
            };
            let off = if sim.draw(20) == 19 { *sim.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1999]) } else { y - 2000 };
            (off, d)
        } else {
            let (t, ns) = match gen_val(sim, &Schema::DateTime(Form::Wrapper), &small(sim)) {
                Val::DateTime(t, n) => (t, n as u64),
                _ => unreachable!(),
            };
            let t = match sim.draw(6) {
                0 => *sim.pick(&[TS_MIN - 1, TS_MIN, TS_MAX - 4, TS_MAX - 3, TS_MAX, TS_MAX + 1, i64::MIN, i64::MAX, TS_MAX - 1]),
                _ => t,
            };
            let ns = match sim.draw(4) {
                0 => *sim.pick(&[999_999_999u64, 1_000_000_000, 1_000_000_001, 1_999_999_999, 2_000_000_000, 3_999_999_999, 4_000_000_000, u32::MAX as u64]),
                1 => sim.draw(1 << 32),
                _ => ns,
            };
            (t, ns)
        };
        let mut data = Vec::new();
        if days {
            let (a, b) = (a as i32, b as u16);
            refcodec::put_varint(&mut data, ((a as i64) << 1 ^ (a as i64) >> 63) as u64 & u32::MAX as u64, 32);
            refcodec::put_varint(&mut data, b as u64, 16);
        } else {
            refcodec::put_varint(&mut data, ((a << 1) ^ (a >> 63)) as u64, 64);
            refcodec::put_varint(&mut data, b, 32);
        }
        let s = |f| if days { Schema::Date(f) } else { Schema::DateTime(f) };
        sim.hash_bytes("phantom", &data);
        sim.note(|| format!("{:?} as {} from {}", (a, b), if days { "date" } else { "timestamp" }, hex(&data)));
        // what they mean: the reference, strict as the calendar type is
        let want = refcodec::decode_all(&s(Form::Adapter), &data);
        sim.count(if want.is_some() { "calendar:exists" } else { "calendar:does-not-exist" });
        let policy = Policy::gen(sim);
        let input = || {
            let r = sim_reader(sim, data.clone(), policy.clone());
            In(r)
        };
        let mut i = input();
        let adapter: Option<Val> = safe("read", || {
            let mut d = Deserializer::new(&mut i);
            if days {
                dlhn::format::date::deserialize(&mut d).ok().map(crate::serdes::val_of_date)
            } else {
                dlhn::format::date_time::deserialize(&mut d).ok().map(crate::serdes::val_of_date_time)
            }
        })?;
        let dynamic_form = sim.draw(2) == 1;
        let mut i = input();
        // the wrapper may hold what does not exist, but must not turn it into another day
        let (wrapper, again): (Option<Val>, Option<Vec<u8>>) = safe("read", || {
            let mut d = Deserializer::new(&mut i);
            let mut out = Vec::new();
            if days {
                let w = if dynamic_form {
                    match Body::deserialize(&Header::Date, &mut d) {
                        Ok(Body::Date(w)) => Ok(w),
                        _ => Err(()),
                    }
                } else {
                    dlhn::Date::deserialize(&mut d).or(Err(()))
                };
                match w {
                    Err(()) => (None, None),
                    Ok(w) => {
                        let ok = w.serialize(&mut Serializer::new(&mut out)).is_ok();
                        let t: Result<time::Date, ()> = w.try_into();
                        (t.ok().map(crate::serdes::val_of_date), ok.then_some(out))
                    }
                }
            } else {
                let w = if dynamic_form {
                    match Body::deserialize(&Header::DateTime, &mut d) {
                        Ok(Body::DateTime(w)) => Ok(w),
                        _ => Err(()),
                    }
                } else {
                    dlhn::DateTime::deserialize(&mut d).or(Err(()))
                };
                match w {
                    Err(()) => (None, None),
                    Ok(w) => {
                        let ok = w.serialize(&mut Serializer::new(&mut out)).is_ok();
                        let t: Result<time::OffsetDateTime, ()> = w.try_into();
                        (t.ok().map(crate::serdes::val_of_date_time), ok.then_some(out))
                    }
                }
            }
        })?;
        if adapter != wrapper || adapter != want {
            bail!(
                "other-instant",
                "{} ({a}, {b}) is {adapter:?} through the adapter, {wrapper:?} through the {}, and means {want:?}",
                if days { "date" } else { "timestamp" },
                if dynamic_form { "dynamic body" } else { "wrapper" }
            );
        }
        // a wrapper that holds it writes what it holds
        if let Some(out) = again {
            let back = refcodec::decode_all(&s(Form::Wrapper), &out);
            let meant = refcodec::decode_all(&s(Form::Wrapper), &data);
            if back != meant {
                bail!("other-instant", "{} held in a wrapper was written as {}", hex(&data), hex(&out));
            }
        }
    }
    Ok(())
}

pub fn c14(sim: &Sim) -> Res {
    sim.nontrivial();
    if sim.draw(6) == 5 {
        return phantoms(sim);
    }
    let o = Opts {
        max_len: *sim.pick(&[40usize, 200, 3000, 20_000]),
        ..Opts::default()
    };
    let n = sim.usize(1, 5);
    let mut items = Vec::new();
    for _ in 0..n {
        let s = shape(sim, if sim.draw(2) == 0 { 3 } else { 0 });
        let v = gen_val(sim, &s, &o).canonical();
        sim.note(|| format!("{s:?}: {}", short(format!("{v:?}"))));
        items.push((s, v));
    }
    // the same values in several mixtures of representations
    let mut streams: Vec<(Vec<u8>, Vec<usize>)> = Vec::new();
    for pass in 0..3 {
        let recs: Vec<Rec> = items
            .iter()
            .map(|(s, v)| {
                if pass == 0 || sim.draw(3) == 0 {
                    let b = dynamic::body_of(s, v);
                    Rec::Dynamic(Arc::new(s.clone()), v.clone(), Arc::new(dynamic::header_of(s)), b)
                } else {
                    Rec::Typed(Ty::Dyn(Arc::new(reform(sim, s))), v.clone(), 0)
                }
            })
            .collect();
        let w = sim_writer(sim, Policy::gen(sim));
        let ends = write_stream(sim, &recs, &w, sim.draw(2) == 1)?;
        let out = w.borrow().out.clone();
        let mut want = Vec::new();
        for (s, v) in &items {
            want.extend_from_slice(&refcodec::encode(s, v));
        }
        if out != want {
            bail!(
                "other-bytes",
                "{} wrote {}, in every representation it should be {}",
                short(recs.iter().map(|r| r.label()).collect::<Vec<_>>().join("; ")),
                hex(&out),
                hex(&want)
            );
        }
        streams.push((out, ends));
    }
    sim.hash_bytes("stream", &streams[0].0);
    for (data, ends) in &streams {
        let recs: Vec<Rec> = items
            .iter()
            .map(|(s, v)| {
                if sim.draw(3) == 0 {
                    let b = dynamic::body_of(s, v);
                    Rec::Dynamic(Arc::new(s.clone()), v.clone(), Arc::new(dynamic::header_of(s)), b)
                } else {
                    Rec::Typed(Ty::Dyn(Arc::new(reform(sim, s))), v.clone(), 0)
                }
            })
            .collect();
        let r = sim_reader(sim, data.clone(), Policy::gen(sim));
        read_stream(sim, &recs, &r, ends, sim.draw(2) == 1)?;
    }
    Ok(())
}
