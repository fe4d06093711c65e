//! C09, C10, C12: bytes damaged in transit or at rest.
use super::*;
use crate::alloc;
use crate::dynamic;
use crate::refcodec::{self, Bad, Rd};
use dlhn::Header;
use std::sync::Arc;

const BAD_TEXT: &[&[u8]] = &[
    &[0xff],
    &[0x80],
    &[0xc0, 0x80],
    &[0xed, 0xa0, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xe2, 0x82],
    &[0xf8, 0x88, 0x80, 0x80, 0x80],
    &[0xc3],
];

/// A position, most often near the front of one of the marked places (starts of records).
fn place(sim: &Sim, n: usize, marks: &[usize]) -> usize {
    if n == 0 {
        return 0;
    }
    match sim.draw(4) {
        0 | 1 => (*sim.pick(marks) + sim.usize(0, 12)).min(n - 1),
        2 => sim.usize(0, n - 1),
        _ => n - 1 - sim.usize(0, n.min(12) - 1),
    }
}

fn range(sim: &Sim, n: usize, marks: &[usize]) -> (usize, usize) {
    let a = place(sim, n, marks);
    let l = match sim.draw(4) {
        0 | 1 => sim.usize(1, 4),
        2 => sim.usize(1, 40),
        _ => sim.usize(1, 600),
    };
    (a, (a + l).min(n))
}

/// A claimed length or count that has nothing to do with what follows.
fn claim(sim: &Sim) -> u64 {
    match sim.draw(8) {
        0 => sim.draw(300),
        1 => 1 << sim.range(7, 24),
        2 | 3 => 1 << sim.range(25, 40),
        4 => (1u64 << sim.range(41, 63)).wrapping_sub(sim.draw(3)),
        5 => u64::MAX - sim.draw(9),
        6 => (i64::MAX as u64).wrapping_add(sim.draw(9)).wrapping_sub(4),
        _ => *sim.pick(&[u32::MAX as u64, u32::MAX as u64 + 1, 4095, 4096, 4097, 65_535, 65_536]),
    }
}

/// One act of damage.
pub fn damage(sim: &Sim, b: &mut Vec<u8>, marks: &[usize], foreign: &[u8]) {
    let n = b.len();
    let kind = sim.draw(15);
    sim.ev("damage", kind, n as u64, 0);
    match kind {
        0 | 1 => {
            if n > 0 {
                let i = place(sim, n, marks);
                b[i] ^= 1 << sim.draw(8);
                sim.count("fault:bit-flip");
            }
        }
        2 | 3 => {
            if n > 0 {
                let i = place(sim, n, marks);
                b[i] = match sim.draw(3) {
                    0 => *sim.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]),
                    1 => b[i].wrapping_add(1 + sim.draw(4) as u8),
                    _ => sim.draw(256) as u8,
                };
                sim.count("fault:byte-changed");
            }
        }
        4 => {
            let (x, y) = range(sim, n, marks);
            for k in x..y {
                b[k] = 0;
            }
            sim.count("fault:range-zeroed");
        }
        5 => {
            let (x, y) = range(sim, n, marks);
            b.drain(x..y);
            sim.count("fault:range-lost");
        }
        6 => {
            let (x, y) = range(sim, n, marks);
            let d = b[x..y].to_vec();
            let at = sim.usize(0, 1) * y.saturating_sub(x) + x;
            b.splice(at..at, d);
            sim.count("fault:range-repeated");
        }
        7 => {
            let (x, y) = range(sim, n, marks);
            let (p, q) = range(sim, n, marks);
            if y <= p {
                let mut c = b[..x].to_vec();
                c.extend_from_slice(&b[p..q]);
                c.extend_from_slice(&b[y..p]);
                c.extend_from_slice(&b[x..y]);
                c.extend_from_slice(&b[q..]);
                *b = c;
                sim.count("fault:ranges-swapped");
            }
        }
        8 => {
            let i = if n == 0 { 0 } else { place(sim, n, marks) };
            let k = match sim.draw(3) {
                0 => sim.usize(1, 6),
                1 => sim.usize(1, 60),
                _ => sim.usize(1, 500),
            };
            let (seed, mut r) = sim.sub();
            let style = r.below(3);
            let d: Vec<u8> = (0..k)
                .map(|_| {
                    if seed == 0 {
                        0
                    } else if style == 0 {
                        r.below(27) as u8
                    } else {
                        r.next() as u8
                    }
                })
                .collect();
            if sim.draw(2) == 0 {
                b.splice(i..i, d);
            } else {
                let e = (i + k).min(n);
                b.splice(i..e, d);
            }
            sim.count("fault:garbage");
        }
        9 => {
            if n > 0 {
                b.truncate(sim.usize(0, n - 1));
                sim.count("fault:cut");
            }
        }
        10 | 11 => {
            let v = claim(sim);
            let i = if n == 0 { 0 } else { place(sim, n, marks) };
            let mut d = Vec::new();
            refcodec::put_varint(&mut d, v, 64);
            let e = if n == 0 { 0 } else { i + sim.usize(0, 1) };
            b.splice(i..e, d);
            sim.count("fault:forged-length");
        }
        12 => {
            if n > 0 {
                let d = *sim.pick(BAD_TEXT);
                let i = place(sim, n, marks);
                let e = if sim.draw(2) == 0 { (i + d.len()).min(n) } else { i };
                b.splice(i..e, d.iter().copied());
                sim.count("fault:bad-text");
            }
        }
        13 => {
            // part of another stream
            if !foreign.is_empty() {
                let (x, y) = range(sim, foreign.len(), &[0]);
                let i = if n == 0 { 0 } else { place(sim, n, marks) };
                let e = if sim.draw(2) == 0 { (i + y - x).min(n) } else { i };
                b.splice(i..e, foreign[x..y].iter().copied());
                sim.count("fault:spliced");
            }
        }
        _ => {
            // a long run of one byte: endless nesting, endless continuation
            let x = *sim.pick(&[1u8, 20, 23, 0xff, 0, 0x15, 0x18]);
            let k = match sim.draw(4) {
                0 => sim.usize(1, 40),
                1 => sim.usize(100, 160),
                2 => sim.usize(200, 3000),
                _ => sim.usize(10_000, 150_000),
            };
            let i = if n == 0 { 0 } else { place(sim, n, marks) };
            let unit: &[u8] = match x {
                0x15 => &[0x15, 1],
                0x18 => &[0x18, 1],
                _ => std::slice::from_ref(&x),
            };
            let d: Vec<u8> = unit.iter().copied().cycle().take(k * unit.len()).collect();
            b.splice(i..i, d);
            sim.count("fault:byte-run");
        }
    }
}

pub enum Target {
    Typed(Ty),
    Dynamic(Arc<Schema>, Arc<Header>),
    Header,
}

enum Meaning {
    Val(Val),
    Header(Header),
}

pub const NODES: u64 = 300_000;

impl Target {
    fn oracle(&self, b: &[u8]) -> Result<(Meaning, usize, bool, u64), (Bad, u64)> {
        let mut rd = Rd::new(b);
        rd.max_nodes = NODES;
        let m = match self {
            Target::Typed(t) => rd.val(t.schema()).map(Meaning::Val),
            Target::Dynamic(s, _) => rd.val(s).map(Meaning::Val),
            Target::Header => rd.header(0).map(Meaning::Header),
        };
        match m {
            Ok(m) => Ok((m, rd.pos, rd.canonical, rd.nodes)),
            Err(e) => Err((e, rd.nodes)),
        }
    }
    fn read(&self, i: &In) -> Result<Got, String> {
        let mut j = i.clone();
        match self {
            Target::Typed(t) => t.read(&mut Deserializer::new(&mut j)).map(Got::Val),
            Target::Dynamic(_, h) => read_body(h, &mut Deserializer::new(&mut j)).map(Got::Body),
            Target::Header => read_header(i).map(Got::Header),
        }
    }
    fn label(&self) -> String {
        match self {
            Target::Typed(t) => format!("value of {}", t.label()),
            Target::Dynamic(_, h) => short(format!("body of {h:?}")),
            Target::Header => "description".into(),
        }
    }
    /// Bytes of memory one decoded node or one received byte may cost.
    fn cost(&self) -> usize {
        match self {
            Target::Typed(Ty::Subj(_)) => 8192,
            _ => 1024,
        }
    }
}

fn agrees(t: &Target, m: &Meaning, g: &Got) -> bool {
    match (t, m, g) {
        (Target::Typed(Ty::Subj(_)), Meaning::Val(v), Got::Val(g)) => v.canonical() == g.canonical(),
        (Target::Typed(_), Meaning::Val(v), Got::Val(g)) => v == g,
        (Target::Dynamic(s, _), Meaning::Val(v), Got::Body(b)) => dynamic::val_of(s, b)
            .map(|g| g.canonical() == v.canonical())
            .unwrap_or(false),
        (Target::Header, Meaning::Header(h), Got::Header(g)) => h == g,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// never crashes, never exhausts
    Safe,
    /// and accepts exactly what the format defines
    Exact,
}

/// Reads `targets` one after another from damaged bytes; stops at the first error. Returns the
/// descriptions that could be read.
pub fn read_damaged(sim: &Sim, data: Vec<u8>, targets: &[Target], judge: Judge) -> Res<Vec<Header>> {
    let fault = if judge == Judge::Safe && sim.chance(80) && !data.is_empty() {
        Some((sim.usize(0, data.len() - 1), gen_fault(sim)))
    } else {
        None
    };
    let pol = if sim.draw(3) == 2 { Policy::gen(sim) } else { Policy::smooth() };
    sim.hash_bytes("damaged", &data);
    sim.note(|| format!("bytes {}", hex(&data)));
    let r = sim_reader(sim, data, pol);
    r.borrow_mut().fault = fault;
    let mut headers = Vec::new();
    for t in targets {
        let pos = r.borrow().pos;
        let rest = r.borrow().data[pos..].to_vec();
        let want = t.oracle(&rest);
        let nodes = match &want {
            Ok(x) => x.3,
            Err((Bad::Blowup, _)) => {
                // known finding K1: a count of elements that take no bytes
                sim.count("skipped:zero-width-count");
                break;
            }
            Err((_, n)) => *n,
        };
        sim.note(|| format!("read {} from {}", t.label(), hex(&rest)));
        let i = In(r.clone());
        let before = alloc::reset_peak();
        let (total, cpu, calls) = (alloc::total(), alloc::cpu_ms(), r.borrow().calls);
        let res = guarded("read of damaged bytes", || t.read(&i))
            .map_err(|v| Viol { class: v.class, msg: format!("{} from {}: {}", t.label(), hex(&rest), v.msg) })?;
        let used = alloc::peak().saturating_sub(before);
        let room = (12 << 20) + t.cost() * (rest.len() + nodes as usize);
        if used > room {
            bail!(
                "memory",
                "{} from {} ({} bytes): needs {} MiB of memory, proportionate would be {} MiB",
                t.label(),
                hex(&rest),
                rest.len(),
                used >> 20,
                room >> 20
            );
        }
        let took = r.borrow().pos - pos;
        // the same for work: bytes copied into new memory, and processor time (a hundred times what is usual)
        let copied = alloc::total().wrapping_sub(total);
        let room = (32 << 20) + 64 * took + 8 * t.cost() * nodes as usize;
        if copied > room {
            bail!(
                "work",
                "{} from {}: {} MiB of memory allocated altogether for {took} bytes, proportionate would be {} MiB",
                t.label(),
                hex(&rest),
                copied >> 20,
                room >> 20
            );
        }
        let ms = alloc::cpu_ms().saturating_sub(cpu);
        let fair = 6_000 + (took as u64 + nodes + r.borrow().calls.saturating_sub(calls)) / 1000;
        if ms > fair {
            bail!("work", "{} from {}: {ms} ms for {took} bytes", t.label(), hex(&rest));
        }
        sim.ev("outcome", matches!(res, Some(Ok(_))) as u64, took as u64, 0);
        let res = match res {
            Some(x) => x,
            None => break,
        };
        sim.count(if res.is_ok() { "reads-accepted" } else { "reads-refused" });
        sim.nontrivial();
        if judge == Judge::Exact {
            match (&want, &res) {
                (Err((b, _)), Ok(g)) => bail!(
                    "accepted",
                    "{} from {}: not an encoding ({b:?}) but read as {}",
                    t.label(),
                    hex(&rest),
                    short(format!("{g:?}"))
                ),
                (Ok((m, n, canonical, _)), Ok(g)) => {
                    if !agrees(t, m, g) || *n != took {
                        bail!(
                            "misread",
                            "{} from {}: means {} ({n} bytes, {}), read as {} ({took} bytes)",
                            t.label(),
                            hex(&rest),
                            match m {
                                Meaning::Val(v) => short(format!("{v:?}")),
                                Meaning::Header(h) => short(format!("{h:?}")),
                            },
                            if *canonical { "as prescribed" } else { "not as a writer would" },
                            short(format!("{g:?}"))
                        );
                    }
                }
                (Ok((_, n, true, _)), Err(e)) => bail!(
                    "refused",
                    "{} from {}: a valid encoding of {n} bytes was refused: {e}",
                    t.label(),
                    hex(&rest[..*n])
                ),
                _ => {}
            }
        }
        match res {
            Ok(Got::Header(h)) => headers.push(h),
            Ok(_) => {}
            Err(_) => break,
        }
    }
    r.borrow_mut().account();
    Ok(headers)
}

/// A type whose values are read from damaged bytes: not recursive (known finding K2).
fn target_ty(sim: &Sim, o: &Opts) -> Ty {
    let t = gen_ty(sim, o, true);
    match &t {
        Ty::Subj(s) if s.traits().recursive => Ty::Dyn(Arc::new(Schema::seq(Schema::U32))),
        _ => t,
    }
}

fn dam_opts(sim: &Sim) -> Opts {
    let (nodes, max_len) = match sim.draw(6) {
        0 | 1 => (3, 40),
        2 | 3 => (8, 200),
        4 => (20, 400),
        _ => (3, 5000),
    };
    Opts { described: false, zero_seq: true, nodes, max_len }
}

fn typed(sim: &Sim, judge: Judge) -> Res {
    let o = dam_opts(sim);
    let n = sim.usize(1, 3);
    let mut data = Vec::new();
    let mut marks = vec![0];
    let mut targets = Vec::new();
    if sim.draw(2000) == 1999 {
        let rec = huge(sim, usize::MAX);
        data = rec.solo()?;
        marks.push(data.len());
        targets.push(match rec {
            Rec::Dynamic(s, _, h, _) => Target::Dynamic(s, h),
            Rec::Typed(t, ..) => Target::Typed(t),
            _ => unreachable!(),
        });
    }
    for _ in 0..n {
        let t = target_ty(sim, &o);
        let v = gen_val(sim, t.schema(), &o);
        data.extend_from_slice(&Rec::typed(sim, t.clone(), v).solo()?);
        marks.push(data.len());
        targets.push(Target::Typed(t));
    }
    finish(sim, &o, data, marks, targets, judge)
}

fn finish(sim: &Sim, o: &Opts, mut data: Vec<u8>, marks: Vec<usize>, mut targets: Vec<Target>, judge: Judge) -> Res {
    let foreign = if sim.draw(3) == 2 {
        Rec::gen(sim, o).solo()?
    } else {
        vec![]
    };
    let k = match sim.draw(6) {
        0..=2 => 1,
        3 => 2,
        4 => sim.usize(2, 6),
        _ => 0,
    };
    for _ in 0..k {
        damage(sim, &mut data, &marks, &foreign);
    }
    if k == 0 {
        match sim.draw(3) {
            // delivered to a reader of something else
            0 => {
                sim.count("fault:misrouted");
                targets = vec![Target::Typed(target_ty(sim, o))];
            }
            // only garbage
            1 => {
                sim.count("fault:garbage");
                let n = sim.usize(0, 80);
                let (_, mut r) = sim.sub();
                let style = r.below(4);
                data = (0..n)
                    .map(|_| match style {
                        0 => r.below(4) as u8,
                        1 => r.below(27) as u8,
                        2 => [0u8, 1, 0x7f, 0x80, 0xff, 0xfe, 0xf0][r.below(7) as usize],
                        _ => r.next() as u8,
                    })
                    .collect();
            }
            // framing lost: reading starts somewhere inside
            _ => {
                sim.count("fault:framing-lost");
                let n = data.len();
                if n > 0 {
                    data.drain(..sim.usize(0, n - 1));
                }
            }
        }
    }
    read_damaged(sim, data, &targets, judge).map(|_| ())
}

pub fn c09(sim: &Sim) -> Res {
    typed(sim, Judge::Safe)
}

fn dynamic_stream(sim: &Sim, judge: Judge) -> Res {
    let o = dam_opts(sim);
    let t = gen_ty(sim, &Opts { described: true, ..o }, true);
    let h = dynamic::header_of(t.schema());
    let mut marks = vec![0];
    if sim.draw(2) == 1 {
        // the description itself is damaged; whatever it then says is used to read on
        let mut data = refcodec::header_bytes(&h);
        marks.push(data.len());
        let mut tail = Vec::new();
        for _ in 0..sim.usize(0, 2) {
            let v = gen_val(sim, t.schema(), &o);
            tail.extend_from_slice(&refcodec::encode(t.schema(), &v));
        }
        let foreign = if sim.draw(3) == 2 { Rec::gen(sim, &o).solo()? } else { vec![] };
        for _ in 0..sim.usize(1, 3) {
            damage(sim, &mut data, &marks, &foreign);
        }
        data.extend_from_slice(&tail);
        let mut rd = Rd::new(&data);
        rd.max_nodes = NODES;
        let after = rd.header(0).map(|_| rd.pos).unwrap_or(0);
        let hs = read_damaged(sim, data.clone(), &[Target::Header], judge)?;
        if let Some(h) = hs.into_iter().next() {
            let s = Arc::new(dynamic::schema_of(&h));
            let h = Arc::new(h);
            let mut body = data[after.min(data.len())..].to_vec();
            if sim.draw(3) == 2 {
                damage(sim, &mut body, &[0], &foreign);
            }
            let ts: Vec<Target> = (0..sim.usize(1, 3)).map(|_| Target::Dynamic(s.clone(), h.clone())).collect();
            read_damaged(sim, body, &ts, judge)?;
        }
        return Ok(());
    }
    let s = Arc::new(dynamic::schema_of(&h));
    let h = Arc::new(h);
    let mut data = Vec::new();
    let n = sim.usize(1, 3);
    let mut targets = Vec::new();
    for _ in 0..n {
        let v = gen_val(sim, t.schema(), &o);
        data.extend_from_slice(&refcodec::encode(t.schema(), &v));
        marks.push(data.len());
        targets.push(Target::Dynamic(s.clone(), h.clone()));
    }
    finish(sim, &o, data, marks, targets, judge)
}

pub fn c12(sim: &Sim) -> Res {
    dynamic_stream(sim, Judge::Safe)
}

pub fn c10(sim: &Sim) -> Res {
    match sim.draw(3) {
        0 | 1 => typed(sim, Judge::Exact),
        _ => dynamic_stream(sim, Judge::Exact),
    }
}
