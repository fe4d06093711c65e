//! C11, C13, C16: self-describing streams, relays, checking gateways.
use super::*;
use crate::dynamic;
use crate::refcodec;
use crate::world::*;
use dlhn::{Body, Header};
use std::sync::Arc;

/// Descriptions far from the ordinary: very deep, very wide.
fn extreme(sim: &Sim) -> Arc<Schema> {
    let leaf = |sim: &Sim| sim.pick(&[Schema::Bool, Schema::U8, Schema::I64, Schema::Unit, Schema::Str(false)]).clone();
    match sim.draw(4) {
        3 => {
            // long bodies
            let e = if sim.draw(2) == 0 { leaf(sim) } else { gen_leaf(sim) };
            Arc::new(if sim.draw(2) == 0 { Schema::Map(Arc::new(e)) } else { Schema::seq(e) })
        }
        0 => {
            // nesting
            let n = match sim.draw(3) {
                0 => sim.usize(20, 127),
                1 => 127,
                _ => 128,
            };
            let mut s = gen_leaf(sim);
            let plain = sim.draw(3) > 0;
            for _ in 0..n {
                s = match sim.draw(if plain { 5 } else { 8 }) {
                    0 => Schema::opt(s),
                    1 => Schema::seq(s),
                    2 => Schema::tuple(vec![s]),
                    5 => Schema::tuple(vec![gen_leaf(sim), s]),
                    6 => Schema::tuple(vec![s, gen_leaf(sim)]),
                    7 => Schema::Enum(Arc::new(vec![
                        Variant { index: 0, kind: VKind::Newtype(gen_leaf(sim)) },
                        Variant { index: 1, kind: VKind::Newtype(s) },
                    ])),
                    3 => Schema::Map(Arc::new(s)),
                    _ => Schema::Enum(Arc::new(vec![Variant { index: 0, kind: VKind::Newtype(s) }])),
                };
            }
            Arc::new(s)
        }
        k => {
            let n = *sim.pick(&[127usize, 128, 129, 255, 256, 257, 16_383, 16_384, 16_385, 65_534, 65_535]);
            let a = leaf(sim);
            let b = leaf(sim);
            if k == 1 {
                Arc::new(Schema::tuple((0..n).map(|i| if i % 7 == 3 { b.clone() } else { a.clone() }).collect()))
            } else {
                Arc::new(Schema::Enum(Arc::new(
                    (0..n)
                        .map(|i| Variant {
                            index: i as u32,
                            kind: VKind::Newtype(if i % 7 == 3 { b.clone() } else { a.clone() }),
                        })
                        .collect(),
                )))
            }
        }
    }
}

pub fn c11(sim: &Sim) -> Res {
    sim.nontrivial();
    let threaded = sim.draw(8) == 7;
    let (o, s) = if !threaded && sim.chance(60) {
        sim.count("extreme-descriptions");
        let s = extreme(sim);
        let long = matches!(&*s, Schema::Map(e) | Schema::Seq(e) if !matches!(&**e, Schema::Map(_) | Schema::Seq(_)));
        (Opts { nodes: 4, max_len: if !long { 60 } else if sim.draw(6) == 5 { 600_000 } else { 30_000 }, ..Opts::default() }, s)
    } else {
        let o = if threaded { small(sim) } else { opts(sim) };
        let t = gen_ty(sim, &Opts { described: true, ..o }, true);
        (o, if sim.chance(10) { Arc::new(with_void(sim, (*t.arc()).clone())) } else { t.arc() })
    };
    let (mut s, mut first) = (s, None);
    if !threaded && sim.chance(5) {
        let (hs, v) = huge_val(sim, usize::MAX);
        s = Arc::new(hs);
        first = Some(v);
    }
    let h = Arc::new(dynamic::header_of(&s));
    let mut recs = vec![Rec::Header(h.clone())];
    if let Some(v) = first {
        recs.push(Rec::dynamic(s.clone(), v));
    }
    // no body of a type without values
    for _ in 0..if s.void() { 0 } else { sim.usize(0, 5) } {
        let v = gen_val(sim, &s, &o).canonical();
        let b = dynamic::body_of(&s, &v);
        recs.push(Rec::Dynamic(s.clone(), v, h.clone(), b));
    }
    let w = sim_writer(sim, Policy::gen(sim));
    let ends = write_stream(sim, &recs, &w, sim.draw(2) == 1)?;
    let data = w.borrow().out.clone();
    sim.hash_bytes("stream", &data);
    if threaded && data.len() < 3000 {
        return piped(sim, &recs, &data);
    }
    let r = sim_reader(sim, data.clone(), Policy::gen(sim));
    let w2 = sim_writer(sim, Policy::gen(sim));
    copy(&recs, &ends, In(r.clone()), Out(w2.clone()), &|| Some(r.borrow().pos))?;
    if w2.borrow().out != data {
        bail!("rewritten", "the stream {} was re-written as {}", hex(&data), hex(&w2.borrow().out));
    }
    let left = r.borrow().left();
    r.borrow_mut().account();
    w2.borrow_mut().account();
    if left != 0 {
        bail!("left-over", "{left} bytes left");
    }
    Ok(())
}

/// The reader that knows nothing: takes the description from the stream, then the bodies, and writes
/// on what it understood.
fn copy(recs: &[Rec], ends: &[usize], i: In, o: Out, pos: &dyn Fn() -> Option<usize>) -> Res {
    let h = match safe("read of a description", || read_header(&i))? {
        Ok(h) => h,
        Err(e) => bail!("read-failed", "{}: {e}", recs[0].label()),
    };
    if !recs[0].matches(&Got::Header(h.clone())) {
        bail!("different-description", "{} was read as {}", recs[0].label(), short(format!("{h:?}")));
    }
    if let Err(e) = write_header(&h, &o) {
        bail!("write-failed", "{} re-written: {e}", recs[0].label());
    }
    let mut j = i.clone();
    for (k, rec) in recs.iter().enumerate() {
        if k > 0 {
            let b = match safe("read of a body", || read_body(&h, &mut Deserializer::new(&mut j)))? {
                Ok(b) => b,
                Err(e) => bail!("read-failed", "{}: {e}", rec.label()),
            };
            rec.check("different-body", Ok(Got::Body(b.clone())))?;
            if let Err(e) = write_body(&b, &mut Serializer::new(o.clone())) {
                bail!("write-failed", "{} re-written: {e}", rec.label());
            }
        }
        if let Some(p) = pos() {
            if p != ends[k] {
                bail!("out-of-step", "after {} the reader is at {p}, not {}", rec.label(), ends[k]);
            }
        }
    }
    Ok(())
}

fn piped(sim: &Sim, recs: &[Rec], data: &[u8]) -> Res {
    let world = World::new(sim, 3, 200_000 + 400 * data.len() as u64);
    let cap = sim.usize(1, 40);
    let (a, b) = (world.pipe(sim, cap), world.pipe(sim, cap));
    let p: Vec<Policy> = (0..4).map(|_| Policy::gen(sim)).collect();
    let p = &p;
    world.run(vec![
        Box::new(move |cx: &Ctx| {
            let o = Out(shared(cx.writer(a, p[0].clone())));
            for r in recs {
                if let Err(e) = r.write(&o) {
                    bail!("write-failed", "{}: {e}", r.label());
                }
            }
            Ok(())
        }),
        Box::new(move |cx: &Ctx| {
            let i = In(shared(cx.reader(a, p[1].clone())));
            let o = Out(shared(cx.writer(b, p[2].clone())));
            copy(recs, &[], i, o, &|| None)
        }),
        Box::new(move |cx: &Ctx| {
            use std::io::Read;
            let mut i = cx.reader(b, p[3].clone());
            let mut got = Vec::new();
            if let Err(e) = i.read_to_end(&mut got) {
                bail!("harness", "{e}");
            }
            if got != data {
                bail!("rewritten", "the stream {} was re-written as {}", hex(data), hex(&got));
            }
            Ok(())
        }),
    ])
}

// ---------------------------------------------------------------- C13

fn described() -> &'static [&'static dyn Subject] {
    use std::sync::OnceLock;
    static D: OnceLock<Vec<&'static dyn Subject>> = OnceLock::new();
    D.get_or_init(|| crate::subjects::all().iter().copied().filter(|s| s.traits().described).collect())
}

/// A relay: knows only the description in front of the stream.
fn relay(
    t: &'static dyn Subject,
    vals: &[Val],
    i: &In,
    o: &Out,
    ends: Option<&[usize]>,
    pos: &dyn Fn() -> usize,
) -> Res {
    let h = match safe("read of a derived description", || read_header(i))? {
        Ok(h) => h,
        Err(e) => bail!("bad-description", "the description of {} cannot be read: {e}", t.name()),
    };
    if let Err(e) = write_header(&h, o) {
        bail!("write-failed", "description of {} re-written: {e}", t.name());
    }
    let mut j = i.clone();
    let mut de = Deserializer::new(&mut j);
    let mut ser = Serializer::new(o.clone());
    for (k, v) in vals.iter().enumerate() {
        let b = match safe("read of a body under a derived description", || read_body(&h, &mut de))? {
            Ok(b) => b,
            Err(e) => bail!(
                "not-understood",
                "{:?} of type {} cannot be read under its description {h:?}: {e}",
                v,
                t.name()
            ),
        };
        if let Some(e) = ends {
            if pos() != e[k] {
                bail!(
                    "out-of-step",
                    "under the description of {} value {k} ends at byte {}, really at {}",
                    t.name(),
                    pos(),
                    e[k]
                );
            }
        }
        let seen = dynamic::val_of(t.schema(), &b).map(|x| x.canonical());
        if seen.as_ref() != Some(&v.canonical()) {
            bail!(
                "seen-differently",
                "{} value {:?} is seen by a relay as {}",
                t.name(),
                short(format!("{v:?}")),
                short(format!("{b:?}"))
            );
        }
        if !safe("check of a body", || b.validate(&h))? {
            bail!("refused", "a body of {} is refused by its own description: {}", t.name(), short(format!("{b:?}")));
        }
        if let Err(e) = write_body(&b, &mut ser) {
            bail!("write-failed", "body of {} re-written: {e}", t.name());
        }
    }
    Ok(())
}

pub fn c13(sim: &Sim) -> Res {
    sim.nontrivial();
    let all = described();
    let t = all[sim.draw(all.len() as u64) as usize];
    let threaded = sim.draw(25) == 24;
    let o = match sim.draw(4) {
        _ if threaded => Opts { nodes: 5, max_len: 60, ..Opts::default() },
        0 => opts(sim),
        _ => small(sim),
    };
    let vals: Vec<Val> = (0..sim.usize(0, 5)).map(|_| gen_val(sim, t.schema(), &o).canonical()).collect();
    let seed = if t.traits().hashed { sim.draw(0) } else { 0 };
    let hops = sim.usize(1, 3);
    sim.note(|| format!("{} through {hops} relays: {:?}", t.name(), vals));
    let recs: Vec<Rec> = std::iter::once(Rec::Derived(t))
        .chain(vals.iter().map(|v| Rec::Typed(Ty::Subj(t), v.clone(), seed)))
        .collect();
    let w = sim_writer(sim, Policy::gen(sim));
    let mut ends = write_stream(sim, &recs, &w, sim.draw(2) == 1)?;
    let first = w.borrow().out.clone();
    sim.hash_bytes("stream", &first);
    let receive = |i: &In| -> Res {
        // the receiver knows the type: it skips the description
        if let Err(e) = safe("read of a derived description", || read_header(i))? {
            bail!("bad-description", "the description of {} cannot be read: {e}", t.name());
        }
        let mut j = i.clone();
        for r in &recs[1..] {
            let res = safe("read", || r.read_in(&mut Deserializer::new(&mut j), i))?;
            r.check("lost-in-relay", res)?;
        }
        Ok(())
    };
    if threaded && first.len() < 3000 {
        let world = World::new(sim, hops + 2, 300_000 + 600 * (hops * first.len()) as u64);
        let cap = sim.usize(1, 40).max(first.len() / 150);
        let pipes: Vec<usize> = (0..=hops).map(|_| world.pipe(sim, cap)).collect();
        let pol: Vec<Policy> = (0..2 * hops + 2).map(|_| Policy::gen(sim)).collect();
        let (recs, pipes, pol, vals) = (&recs, &pipes, &pol, &vals);
        let receive = &receive;
        let mut parties: Vec<Party> = Vec::new();
        parties.push(Box::new(move |cx: &Ctx| {
            let o = Out(shared(cx.writer(pipes[0], pol[0].clone())));
            for r in recs {
                if let Err(e) = r.write(&o) {
                    bail!("write-failed", "{}: {e}", r.label());
                }
            }
            Ok(())
        }));
        for k in 0..hops {
            parties.push(Box::new(move |cx: &Ctx| {
                let i = In(shared(cx.reader(pipes[k], pol[2 * k + 1].clone())));
                let o = Out(shared(cx.writer(pipes[k + 1], pol[2 * k + 2].clone())));
                relay(t, vals, &i, &o, None, &|| 0)
            }));
        }
        parties.push(Box::new(move |cx: &Ctx| {
            receive(&In(shared(cx.reader(pipes[hops], pol[2 * hops + 1].clone()))))
        }));
        return world.run(parties);
    }
    let mut data = first.clone();
    for hop in 0..hops {
        let r = sim_reader(sim, data.clone(), Policy::gen(sim));
        let w = sim_writer(sim, Policy::gen(sim));
        let (i, o) = (In(r.clone()), Out(w.clone()));
        relay(t, &vals, &i, &o, Some(&ends[1..]), &|| r.borrow().pos)?;
        if r.borrow().left() != 0 {
            bail!("out-of-step", "{} bytes of {} left over", r.borrow().left(), t.name());
        }
        r.borrow_mut().account();
        w.borrow_mut().account();
        let out = w.borrow().out.clone();
        let order_kept = !t.traits().hashed || hop > 0;
        if order_kept && out != data {
            bail!("relayed-differently", "{}: {} was relayed as {}", t.name(), hex(&data), hex(&out));
        }
        if !order_kept && out.len() != data.len() {
            bail!("relayed-differently", "{}: {} bytes were relayed as {}", t.name(), data.len(), out.len());
        }
        if !order_kept {
            // entries were re-ordered, so values may end elsewhere only if they are not whole
            let mut rd = refcodec::Rd::new(&out);
            let mut e2 = vec![];
            if rd.header(0).is_ok() {
                e2.push(rd.pos);
                for _ in &vals {
                    if rd.val(t.schema()).is_err() {
                        break;
                    }
                    e2.push(rd.pos);
                }
            }
            if e2 != ends {
                bail!("relayed-differently", "{}: relayed values end at {e2:?} instead of {ends:?}", t.name());
            }
            ends = e2;
        }
        data = out;
    }
    let r = sim_reader(sim, data, Policy::gen(sim));
    receive(&In(r.clone()))?;
    let left = r.borrow().left();
    r.borrow_mut().account();
    if left != 0 {
        bail!("out-of-step", "{left} bytes of {} left over at the receiver", t.name());
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// A description that was true once: some part of it has changed since.
fn outdated(sim: &Sim, h: &Header) -> Header {
    fn leaf(sim: &Sim) -> Header {
        sim.pick(&[
            Header::Unit,
            Header::Boolean,
            Header::UInt8,
            Header::UInt16,
            Header::UInt32,
            Header::UInt64,
            Header::Int8,
            Header::Int16,
            Header::Int32,
            Header::Int64,
            Header::Float32,
            Header::Float64,
            Header::BigUInt,
            Header::BigInt,
            Header::BigDecimal,
            Header::String,
            Header::Binary,
            Header::Date,
            Header::DateTime,
        ])
        .clone()
    }
    fn many(sim: &Sim, v: &[Header]) -> Vec<Header> {
        let mut v = v.to_vec();
        match sim.draw(7) {
            6 => {
                // as many more or less as one byte of a count can hide
                let n = *sim.pick(&[128usize, 256, 512]);
                if v.len() >= n && sim.draw(2) == 0 {
                    v.truncate(v.len() - n);
                } else {
                    let x = v.last().cloned().unwrap_or_else(|| leaf(sim));
                    let x = if dynamic::depth(&x) > 0 { leaf(sim) } else { x };
                    v.extend(vec![x; n]);
                }
            }
            0 => v.push(leaf(sim)),
            1 if !v.is_empty() => {
                v.pop();
            }
            2 if !v.is_empty() => {
                let i = sim.usize(0, v.len() - 1);
                v.remove(i);
            }
            3 if v.len() > 1 => {
                let i = sim.usize(0, v.len() - 2);
                v.swap(i, i + 1);
            }
            4 => v.insert(0, leaf(sim)),
            _ if !v.is_empty() => {
                let i = sim.usize(0, v.len() - 1);
                v[i] = go(sim, &v[i].clone());
            }
            _ => {}
        }
        v
    }
    fn go(sim: &Sim, h: &Header) -> Header {
        let here = sim.draw(5) == 4;
        match h {
            Header::Optional(x) if here => (**x).clone(),
            Header::Array(x) if here => match sim.draw(3) {
                0 => (**x).clone(),
                1 => Header::Map(x.clone()),
                _ => Header::Tuple(vec![(**x).clone()]),
            },
            Header::Map(x) if here => Header::Array(x.clone()),
            Header::Tuple(v) if here => {
                if sim.draw(2) == 0 {
                    Header::Enum(v.clone())
                } else {
                    v.first().cloned().unwrap_or(Header::Unit)
                }
            }
            Header::Enum(v) if here => Header::Tuple(v.clone()),
            Header::Optional(x) => Header::Optional(Box::new(go(sim, x))),
            Header::Array(x) => Header::Array(Box::new(go(sim, x))),
            Header::Map(x) => Header::Map(Box::new(go(sim, x))),
            Header::Tuple(v) => Header::Tuple(many(sim, v)),
            Header::Enum(v) => Header::Enum(many(sim, v)),
            x => match sim.draw(3) {
                0 => Header::Optional(Box::new(x.clone())),
                1 => Header::Tuple(vec![x.clone()]),
                _ => leaf(sim),
            },
        }
    }
    go(sim, h)
}

struct Sess {
    h: Arc<Header>,
    s: Arc<Schema>,
    bytes: Vec<u8>,
    sent: Vec<(Val, usize)>,
}

pub fn c16(sim: &Sim) -> Res {
    sim.nontrivial();
    let o = small(sim);
    let n = sim.usize(1, 4);
    let mut ss: Vec<Sess> = Vec::new();
    for k in 0..n {
        let h = if k > 0 && sim.draw(2) == 1 {
            let j = sim.usize(0, k - 1);
            let h = ss[j].h.clone();
            let h2 = outdated(sim, &h);
            if dynamic::schema_of(&h2).void() {
                (*h).clone()
            } else {
                h2
            }
        } else {
            let t = gen_ty(sim, &Opts { described: true, ..o }, true);
            dynamic::header_of(t.schema())
        };
        if dynamic::depth(&h) > 120 {
            return Ok(());
        }
        let s = Arc::new(dynamic::schema_of(&h));
        let mut bytes = Vec::new();
        match safe("write of a description", || h.serialize(&mut bytes))? {
            Ok(()) => {}
            Err(e) => bail!("write-failed", "{h:?}: {e}"),
        }
        ss.push(Sess { h: Arc::new(h), s, bytes, sent: vec![] });
    }
    let mut pool: Vec<(usize, Arc<Schema>, Body)> = Vec::new();
    for _ in 0..sim.usize(1, 10) {
        let k = sim.usize(0, n - 1);
        // who produced it, and where it arrives
        let (s, b) = match sim.draw(6) {
            0 | 1 | 2 => {
                let s = ss[k].s.clone();
                let v = gen_val(sim, &s, &o).canonical();
                let b = dynamic::body_of(&s, &v);
                (s, b)
            }
            3 if !pool.is_empty() => {
                sim.count("fault:duplicated");
                let (_, s, b) = sim.pick(&pool).clone();
                (s, b)
            }
            4 => {
                sim.count("fault:misrouted");
                let j = sim.usize(0, n - 1);
                let s = ss[j].s.clone();
                let v = gen_val(sim, &s, &o).canonical();
                let b = dynamic::body_of(&s, &v);
                (s, b)
            }
            _ => {
                sim.count("fault:outdated-peer");
                let h = outdated(sim, &ss[k].h);
                let s = Arc::new(dynamic::schema_of(&h));
                if s.void() {
                    continue;
                }
                let v = gen_val(sim, &s, &o).canonical();
                let b = dynamic::body_of(&s, &v);
                (s, b)
            }
        };
        pool.push((k, s, b.clone()));
        gateway(sim, &mut ss[k], b)?;
    }
    for s in &ss {
        let r = sim_reader(sim, s.bytes.clone(), Policy::gen(sim));
        let i = In(r.clone());
        let h = match safe("read of a description", || read_header(&i))? {
            Ok(h) => h,
            Err(e) => bail!("read-failed", "{:?}: {e}", s.h),
        };
        if h != *s.h {
            bail!("different-description", "{:?} was read as {h:?}", s.h);
        }
        for (v, end) in &s.sent {
            let mut j = i.clone();
            let b = match safe("read of a body", || read_body(&h, &mut Deserializer::new(&mut j)))? {
                Ok(b) => b,
                Err(e) => bail!("out-of-step", "a reader of {h:?} failed at the forwarded {}: {e}", short(format!("{v:?}"))),
            };
            if dynamic::val_of(&s.s, &b).map(|x| x.canonical()).as_ref() != Some(v) || r.borrow().pos != *end {
                bail!(
                    "out-of-step",
                    "a reader of {h:?} reads the forwarded {} as {} (at byte {}, expected {end})",
                    short(format!("{v:?}")),
                    short(format!("{b:?}")),
                    r.borrow().pos
                );
            }
            // what was read under the description is accepted under it
            if !safe("check of a body", || b.validate(&h))? {
                bail!("refused", "{} was read under {h:?} but does not pass its check", short(format!("{b:?}")));
            }
        }
        let mut b = r.borrow_mut();
        b.account();
        if b.left() != 0 {
            bail!("out-of-step", "{} bytes of forwarded bodies left over", b.left());
        }
    }
    Ok(())
}

fn gateway(sim: &Sim, to: &mut Sess, b: Body) -> Res {
    // now and then the case number itself is out of the range of the description
    let mut b = if sim.chance(60) { renumber(sim, b) } else { b };
    // ... an array longer than usual, and some part of the body of another shape
    if sim.chance(80) {
        stretch(sim, &mut b);
    }
    if sim.chance(120) {
        sim.count("fault:deformed");
        deform(sim, &mut b);
    }
    let fits = dynamic::fits(&to.h, &b);
    let ok = safe("check of a body", || b.validate(&to.h))?;
    sim.ev("gateway", fits as u64, ok as u64, to.bytes.len() as u64);
    sim.count(if fits { "bodies-that-fit" } else { "bodies-of-another-shape" });
    if ok && !fits {
        bail!("let-through", "{} passes the check for {:?}", short(format!("{b:?}")), to.h);
    }
    if !ok && fits {
        bail!("refused", "{} is refused for {:?}", short(format!("{b:?}")), to.h);
    }
    if ok {
        let v = match dynamic::val_of(&to.s, &b) {
            Some(v) => v.canonical(),
            None => bail!("harness", "fitting body has no value"),
        };
        let out = shared(std::mem::take(&mut to.bytes));
        let res = safe("write of a body", || write_body(&b, &mut Serializer::new(Out(out.clone()))))?;
        to.bytes = out.take();
        if let Err(e) = res {
            bail!("write-failed", "{}: {e}", short(format!("{b:?}")));
        }
        to.sent.push((v, to.bytes.len()));
    }
    Ok(())
}

fn renumber(sim: &Sim, b: Body) -> Body {
    match b {
        Body::Enum(i, x) => Body::Enum(
            match sim.draw(4) {
                0 => i.wrapping_add(1),
                1 => i.wrapping_add(256),
                2 => i.wrapping_add(65_536),
                _ => u32::MAX,
            },
            x,
        ),
        Body::Tuple(mut v) if !v.is_empty() => {
            let k = sim.usize(0, v.len() - 1);
            let x = std::mem::replace(&mut v[k], Body::Unit);
            v[k] = renumber(sim, x);
            Body::Tuple(v)
        }
        Body::Array(mut v) if !v.is_empty() => {
            let k = v.len() - 1;
            let x = std::mem::replace(&mut v[k], Body::Unit);
            v[k] = renumber(sim, x);
            Body::Array(v)
        }
        Body::Optional(Some(x)) => Body::Optional(Some(Box::new(renumber(sim, *x)))),
        x => x,
    }
}

/// Repeats the elements of an array (found going down the last members) up to an edge of sizes.
fn stretch(sim: &Sim, b: &mut Body) {
    match b {
        Body::Array(v) if !v.is_empty() => {
            let n = *sim.pick(&[2usize, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4097]);
            let k = v.len();
            if size_of_body(&v[0]) * n < 20_000 {
                while v.len() < n {
                    v.push(v[v.len() % k].clone());
                }
            }
        }
        Body::Map(m) if !m.is_empty() => {
            let n = *sim.pick(&[2usize, 127, 128, 129, 255, 256, 257, 1000]);
            let x = m.values().next().unwrap().clone();
            if size_of_body(&x) * n < 20_000 {
                for i in m.len()..n {
                    m.insert(format!("{i}"), x.clone());
                }
            }
        }
        Body::Tuple(v) if !v.is_empty() => {
            let k = sim.usize(0, v.len() - 1);
            stretch(sim, &mut v[k]);
        }
        Body::Enum(_, x) | Body::Optional(Some(x)) => stretch(sim, x),
        _ => {}
    }
}

fn size_of_body(b: &Body) -> usize {
    match b {
        Body::Array(v) | Body::Tuple(v) => 1 + v.iter().map(size_of_body).sum::<usize>(),
        Body::Map(m) => 1 + m.values().map(size_of_body).sum::<usize>(),
        Body::Enum(_, x) | Body::Optional(Some(x)) => 1 + size_of_body(x),
        Body::String(s) => 1 + s.len() / 16,
        Body::Binary(s) => 1 + s.len() / 16,
        _ => 1,
    }
}

/// Replaces one part of a body by something of (in all likelihood) another shape.
fn deform(sim: &Sim, b: &mut Body) {
    let here = sim.draw(4) == 3;
    let at = |sim: &Sim, n: usize| if sim.draw(2) == 0 { n - 1 } else { sim.usize(0, n - 1) };
    match b {
        Body::Array(v) if !here && !v.is_empty() => {
            let k = at(sim, v.len());
            deform(sim, &mut v[k]);
        }
        Body::Tuple(v) if !here && !v.is_empty() => {
            let k = at(sim, v.len());
            deform(sim, &mut v[k]);
        }
        Body::Map(m) if !here && !m.is_empty() => {
            let k = at(sim, m.len());
            deform(sim, m.values_mut().nth(k).unwrap());
        }
        Body::Enum(_, x) | Body::Optional(Some(x)) if !here => deform(sim, x),
        b => {
            *b = match sim.draw(10) {
                0 => Body::Unit,
                1 => Body::Boolean(false),
                2 => Body::UInt8(0),
                3 => Body::String(String::new()),
                4 => Body::Optional(None),
                5 => Body::Array(vec![]),
                6 => Body::Tuple(vec![]),
                7 => Body::Map(Default::default()),
                8 => Body::Tuple(vec![b.clone()]),
                _ => Body::Enum(0, Box::new(Body::Unit)),
            }
        }
    }
}
