//! One simulated scenario per property.
use crate::bail;
use crate::core::*;
use crate::env::*;
use crate::item::*;
use crate::schema::*;
use dlhn::{Deserializer, Serializer};
use std::cell::RefCell;
use std::rc::Rc;

pub mod bits;
pub mod damage;
pub mod descr;
pub mod faults;
pub mod known;
pub mod log;
pub mod refuse;
pub mod sessions;
pub mod stream;
pub mod talk;

/// Workload sizes of this run (swarm style: most runs small, some with long values).
pub fn opts(sim: &Sim) -> Opts {
    let (nodes, max_len) = match sim.draw(12) {
        0..=3 => (6, 300),
        4..=6 => (16, 1500),
        7 | 8 => (40, 5_000),
        9 => (10, 20_000),
        10 => (4, 80_000),
        _ => (24, 3000),
    };
    Opts {
        described: false,
        zero_seq: true,
        nodes,
        max_len,
    }
}
pub fn small(sim: &Sim) -> Opts {
    let (nodes, max_len) = match sim.draw(6) {
        0 | 1 => (4, 60),
        2 | 3 => (10, 200),
        4 => (20, 400),
        _ => (5, 5000),
    };
    Opts {
        described: false,
        zero_seq: true,
        nodes,
        max_len,
    }
}

pub fn gen_stream(sim: &Sim, lo: usize, hi: usize, o: &Opts) -> Vec<Rec> {
    let n = sim.usize(lo, hi);
    (0..n).map(|_| Rec::gen(sim, o)).collect()
}

/// What a value that refuses to be written says.
pub fn refusal(i: usize) -> String {
    ["field refuses", "", "Write error", "end of input", " ", "\u{fffd}\n\0"][i % 6].to_string()
}

/// A record around one text or byte string longer than any buffer is likely to be.
pub fn huge(sim: &Sim, most: usize) -> Rec {
    let (s, v) = huge_val(sim, most);
    let s = std::sync::Arc::new(s);
    if sim.draw(3) == 2 {
        return Rec::dynamic(s, v);
    }
    Rec::Typed(Ty::Dyn(s), v, 0)
}

pub fn huge_val(sim: &Sim, most: usize) -> (Schema, Val) {
    let near = |sim: &Sim, n: usize| match sim.draw(3) {
        0 => n + sim.usize(0, 6) - 3,
        1 => n + sim.usize(0, 9000),
        _ => sim.usize(n / 2, n),
    };
    let n = match sim.draw(40) {
        0..=19 => near(sim, 1 << sim.range(13, 17)),
        20..=29 => near(sim, 1 << sim.range(18, 19)),
        30..=36 => near(sim, 1 << 20),
        37 | 38 => near(sim, 1 << sim.range(21, 22)),
        _ => {
            if sim.draw(4) == 3 {
                near(sim, 1 << sim.range(24, 25))
            } else {
                near(sim, 3 << 20)
            }
        }
    }
    .min(most);
    let (s, v) = if sim.draw(2) == 1 {
        (Schema::Str(sim.draw(4) == 3), Val::Str(gen_text(sim, n)))
    } else {
        (Schema::Bytes(sim.draw(4) == 3, false), Val::Bytes(gen_blob(sim, n)))
    };
    sim.count("huge-records");
    match sim.draw(5) {
        0 => (s, v),
        1 => (Schema::opt(s), Val::Opt(Some(Box::new(v)))),
        2 => (Schema::seq(s), Val::Seq(vec![v])),
        3 => (Schema::Map(std::sync::Arc::new(s)), Val::Map(vec![("k".into(), v)])),
        _ => (
            Schema::structure(vec![Schema::Bool, s, Schema::U16]),
            Val::Tup(vec![Val::Bool(true), v, Val::U(sim.draw(65536))]),
        ),
    }
}

/// A deeply nested value, body or description.
pub fn deep(sim: &Sim, lo: usize, hi: usize) -> Rec {
    let mut s = Schema::U16;
    let mut v = Val::U(sim.draw(65536));
    let n = sim.usize(lo, hi);
    for _ in 0..n {
        match sim.draw(5) {
            0 => {
                s = Schema::opt(s);
                v = Val::Opt(Some(Box::new(v)));
            }
            1 => {
                s = Schema::seq(s);
                v = Val::Seq(vec![v]);
            }
            2 => {
                s = Schema::structure(vec![Schema::Bool, s]);
                v = Val::Tup(vec![Val::Bool(true), v]);
            }
            3 => {
                s = Schema::Map(std::sync::Arc::new(s));
                v = Val::Map(vec![("k".into(), v)]);
            }
            _ => {
                s = Schema::seq(Schema::opt(s));
                v = Val::Seq(vec![Val::Opt(None), Val::Opt(Some(Box::new(v)))]);
            }
        }
    }
    let s = std::sync::Arc::new(s);
    match sim.draw(3) {
        0 => Rec::Typed(Ty::Dyn(s), v, 0),
        1 => Rec::dynamic(s, v),
        _ => Rec::Header(std::sync::Arc::new(crate::dynamic::header_of(&s))),
    }
}

pub type SR = Rc<RefCell<SimReader>>;
pub type SW = Rc<RefCell<SimWriter>>;

/// Write a stream over a faultless (but splitting, interrupting) transport; returns the end offsets.
pub fn write_stream(sim: &Sim, recs: &[Rec], w: &SW, one: bool) -> Res<Vec<usize>> {
    let o = Out(w.clone());
    let mut session = one.then(|| Serializer::new(o.clone()));
    let mut ends = Vec::new();
    for r in recs {
        sim.note(|| format!("write {}", r.label()));
        let res = safe("write", || match &mut session {
            Some(s) => r.write_in(&crate::serdes::Cx::NONE, s, &o),
            None => r.write(&o),
        })?;
        if let Err(e) = res {
            bail!("write-failed", "{} could not be written: {e}", r.label());
        }
        ends.push(w.borrow().out.len());
        sim.ev("wrote", *ends.last().unwrap() as u64, 0, 0);
    }
    w.borrow_mut().account();
    Ok(ends)
}

/// Read a stream over a faultless transport and compare every record and the bytes it took.
pub fn read_stream(sim: &Sim, recs: &[Rec], r: &SR, ends: &[usize], one: bool) -> Res {
    let i = In(r.clone());
    let mut j = i.clone();
    let mut session = one.then(|| Deserializer::new(&mut j));
    for (k, rec) in recs.iter().enumerate() {
        let res = safe("read", || match &mut session {
            Some(d) => rec.read_in(d, &i),
            None => rec.read(&i),
        })?;
        sim.ev("read", k as u64, r.borrow().pos as u64, res.is_ok() as u64);
        rec.check("different-value", res)?;
        let pos = r.borrow().pos;
        if pos != ends[k] {
            bail!(
                "out-of-step",
                "after reading record {k} ({}) the reader is at byte {pos}, the record ends at {}",
                rec.label(),
                ends[k]
            );
        }
    }
    let mut r = r.borrow_mut();
    r.account();
    if r.left() != 0 {
        bail!("left-over", "{} bytes left after the last record", r.left());
    }
    Ok(())
}

pub fn sim_writer(sim: &Sim, p: Policy) -> SW {
    shared(SimWriter::new(sim, p))
}
pub fn sim_reader(sim: &Sim, data: Vec<u8>, p: Policy) -> SR {
    shared(SimReader::new(sim, data, p))
}

/// Positions 0..n worth trying: all if few, else the edges and a sample.
pub fn positions(sim: &Sim, n: usize, all: usize, sample: usize, edges: &[usize]) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    if n <= all {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, n - 1, n - 2];
    for e in edges {
        for d in [-1i64, 0, 1] {
            let x = *e as i64 + d;
            if x >= 0 && (x as usize) < n && v.len() < sample {
                v.push(x as usize);
            }
        }
    }
    let (_, mut r) = sim.sub();
    while v.len() < sample {
        v.push(match r.below(5) {
            4 => n - 1 - r.below(n.min(9000) as u64) as usize,
            // near the start, where tags and lengths are
            0 => r.below(n.min(40) as u64) as usize,
            1 => [127usize, 128, 129, 4095, 4096, 4097, 4099][r.below(7) as usize] % n,
            _ => r.below(n as u64) as usize,
        });
    }
    v.sort();
    v.dedup();
    v
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Sim) -> Res,
    /// runs per tier: quick, thorough
    pub runs: (u64, u64),
    pub level: &'static str,
    pub measure: &'static str,
    /// how runs are made and what makes one count
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static str,
    pub stub: &'static str,
}

pub fn all() -> Vec<Prop> {
    const REAL: &str = "dlhn and dlhn_derive as built from /repo (Serializer, Deserializer, Header, Body, wrappers, adapters, derived descriptions), serde, std read/write defaults";
    const STUB: &str = "transports (simulated readers, writers, pipes, log storage), clock, thread scheduler, hash-map order; reference codec as oracle and peer";
    const BASE: &str = "the reference codec (sim/src/refcodec.rs), written from README and the format's published layout, is right about the format";
    let p = |id, run, runs, level, measure, rule, assumptions| Prop {
        id,
        run,
        runs,
        level,
        measure,
        rule,
        assumptions,
        real: REAL,
        stub: STUB,
    };
    vec![
        p("C01", stream::c01 as fn(&Sim) -> Res, (70_000, 4200_000), "exploration",
          "distinct event traces (record layouts, call splits, interruptions, turns)",
          "a run draws a stream of 0-12 records (generated types, real derived types, descriptions, dynamic bodies) and the behaviour of every transport call; it counts when at least one record was written and read back",
          &[BASE, "values whose own Serialize/Deserialize impls are lossy (asymmetric skips, aliases: K4) are outside"]),
        p("C02", stream::c02, (200_000, 12000_000), "exploration",
          "distinct event traces (byte streams and their splits, turns of the peers)",
          "a run draws a stream or a request/reply session between this implementation and the reference peer and compares every byte; it counts when at least one value crossed",
          &[BASE]),
        p("C03", faults::c03, (500_000, 30000_000), "fault_enumeration",
          "distinct event traces (values, fault positions and kinds)",
          "a run draws one record and injects one failure at every byte position of its encoding (all positions up to a limit, else edges and a sample), with drawn kind and call splitting; it counts when a fault fired",
          &[BASE]),
        p("C04", faults::c04, (250_000, 15000_000), "fault_enumeration",
          "distinct event traces (streams, cut positions)",
          "a run draws a stream and cuts it at every byte (all positions up to a limit, else edges and a sample); it counts when at least one cut fell inside a record",
          &[BASE]),
        p("C05", faults::c05, (500_000, 30000_000), "fault_enumeration",
          "distinct event traces (values, fault positions and kinds)",
          "a run draws one encoded record and makes the reader fail at every byte position (all positions up to a limit, else edges and a sample); it counts when a fault fired",
          &[BASE]),
        p("C06", talk::c06, (80_000, 4800_000), "exploration",
          "distinct event traces (conversations, interleavings)",
          "a run draws a stream read behind a fence (nothing beyond the value may be asked for) and, in part of the runs, a conversation of several parties over pipes with drawn capacity, latency and schedule; it counts when a value was read",
          &["parties interleave at transport calls; the code between two calls runs uninterrupted"]),
        p("C07", log::c07, (60_000, 3600_000), "exploration",
          "distinct event traces (crash, sync and checkpoint histories, interleavings)",
          "a run draws a history of appends, syncs, reads, checkpoints and crashes of writer and reader over a log whose unsynced tail is lost or torn; it counts when a record was delivered or a crash fired",
          &["storage keeps what was synced and a prefix of what was not (append-only log; no reordering of appended blocks)"]),
        p("C08", sessions::c08, (120_000, 7200_000), "exploration",
          "distinct event traces (session mixes, interleavings)",
          "a run draws several sessions (threads under the simulated scheduler, encoders nested in values, decoders inside transports), runs each alone and all together (when they touch a static of the library: in many orders, stopped at those accesses), and compares; it counts when sessions overlapped",
          &["threads interleave at transport calls and at compiled-in points (basic blocks, loads and stores of dlhn and of generic code instantiated for it); memory is sequentially consistent; read-modify-write instructions are points only through their basic block"]),
        p("C09", damage::c09, (800_000, 48000_000), "exploration",
          "distinct event traces (damaged streams, outcomes)",
          "a run draws values, damages their bytes (15 kinds of damage) and reads them; it counts when a read took place",
          &["memory bound: 12 MiB + 1 KiB (8 KiB for derived types) per byte received or element decoded", "zero-width elements (K1) and recursive target types (K2) are recorded findings and kept out of the random runs"]),
        p("C10", damage::c10, (1000_000, 60000_000), "exploration",
          "distinct event traces (damaged streams, outcomes)",
          "a run draws values, damages their bytes and compares the outcome of every read with the reference decoder; it counts when a read took place",
          &[BASE]),
        p("C11", descr::c11, (90_000, 5400_000), "exploration",
          "distinct event traces (descriptions, bodies, splits)",
          "a run draws a description and bodies, writes, reads, and re-writes them over drawn transports; it counts when a description was recovered",
          &[BASE]),
        p("C12", damage::c12, (800_000, 48000_000), "exploration",
          "distinct event traces (damaged descriptions and bodies, outcomes)",
          "a run draws descriptions and bodies, damages their bytes and reads them; it counts when a read took place",
          &["memory bound: 12 MiB + 1 KiB per byte received or element decoded", "zero-width elements (K1) are a recorded finding and kept out of the random runs"]),
        p("C13", descr::c13, (80_000, 4800_000), "exploration",
          "distinct event traces (types, values, relay chains)",
          "a run draws one of the derived or built-in types, values, and a chain of 1-3 relays over drawn transports; every run counts",
          &[BASE, "programs: a fixed set of about a hundred generated type definitions covering every shape and attribute the derive knows"]),
        p("C14", bits::c14, (150_000, 9000_000), "exploration",
          "distinct event traces (values, representation pairs, splits)",
          "a run draws a number or instant, writes it in one representation and reads it in another over drawn transports; every run counts",
          &[BASE]),
        p("C15", refuse::c15, (300_000, 18000_000), "exploration",
          "distinct event traces (refused requests, positions)",
          "a run draws a request the format cannot carry, at a drawn place inside a value and a stream; it counts when the request was made",
          &[BASE]),
        p("C16", descr::c16, (400_000, 24000_000), "exploration",
          "distinct event traces (misrouting histories, decisions)",
          "a run draws sessions, bodies and a history of misrouted, duplicated and outdated deliveries; every run counts",
          &[BASE]),
    ]
}
