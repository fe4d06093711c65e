//! C01, C02: streams over a splitting, interrupting, delaying transport.
use super::*;
use crate::refcodec::{self, Rd};
use crate::world::*;
use std::sync::Mutex;

/// Tickers and other long runs of values are covered by repeating the generated records.
fn typed_stream(sim: &Sim, o: &Opts) -> Vec<Rec> {
    let n = sim.usize(1, 10);
    let mut v: Vec<Rec> = Vec::new();
    if o.max_len <= 1500 && sim.chance(6) {
        // a long session of small values
        let few: Vec<Rec> = (0..n)
            .map(|_| {
                let o = Opts { nodes: 3, max_len: 30, ..*o };
                let t = gen_ty(sim, &o, true);
                let x = gen_val(sim, t.schema(), &o);
                Rec::typed(sim, t, x)
            })
            .collect();
        let n = *sim.pick(&[127usize, 128, 129, 255, 256, 257, 300, 1024, 1025, 4097]);
        return (0..n).map(|i| few[i * 7 % few.len()].clone()).collect();
    }
    for _ in 0..n {
        if !v.is_empty() && sim.chance(250) {
            // same type again, other value
            let k = sim.usize(0, v.len() - 1);
            if let Rec::Typed(t, ..) = &v[k] {
                let t = t.clone();
                let x = gen_val(sim, t.schema(), o);
                v.push(Rec::typed(sim, t, x));
                continue;
            }
        }
        let t = gen_ty(sim, o, true);
        let x = gen_val(sim, t.schema(), o);
        v.push(Rec::typed(sim, t, x));
    }
    v
}

pub fn c01(sim: &Sim) -> Res {
    let threaded = sim.draw(8) == 7;
    let o = if threaded {
        small(sim)
    } else if sim.chance(6) {
        Opts {
            nodes: 3,
            max_len: 2_200_000,
            ..opts(sim)
        }
    } else {
        opts(sim)
    };
    let mut recs = typed_stream(sim, &o);
    if sim.chance(30) {
        recs.push(deep(sim, 1, 64));
    }
    sim.nontrivial();
    if threaded {
        return c01_pipe(sim, recs);
    }
    if sim.chance(8) {
        recs.push(huge(sim, usize::MAX));
    }
    let w = sim_writer(sim, Policy::gen(sim));
    let ends = write_stream(sim, &recs, &w, sim.draw(2) == 1)?;
    let data = w.borrow().out.clone();
    sim.hash_bytes("stream", &data);
    let r = sim_reader(sim, data, Policy::gen(sim));
    read_stream(sim, &recs, &r, &ends, sim.draw(2) == 1)
}

fn c01_pipe(sim: &Sim, recs: Vec<Rec>) -> Res {
    let total: usize = recs
        .iter()
        .map(|r| match r {
            Rec::Typed(_, v, _) => v.weight() as usize * 4,
            _ => 64,
        })
        .sum();
    let world = World::new(sim, 2, 200_000 + 60 * total as u64);
    // long streams get larger pipes, so that the number of steps stays bounded
    let cap = sim.usize(1, 40).max(total / 200);
    let p = world.pipe(sim, cap);
    let (pw, pr) = (Policy::gen(sim), Policy::gen(sim));
    let (one_w, one_r) = (sim.draw(2) == 1, sim.draw(2) == 1);
    let recs = &recs;
    world.run(vec![
        Box::new(move |cx: &Ctx| {
            let w = shared(cx.writer(p, pw));
            let o = Out(w);
            let mut s = one_w.then(|| Serializer::new(o.clone()));
            for r in recs {
                let res = match &mut s {
                    Some(s) => r.write_in(&crate::serdes::Cx::NONE, s, &o),
                    None => r.write(&o),
                };
                if let Err(e) = res {
                    bail!("write-failed", "{} could not be written: {e}", r.label());
                }
            }
            Ok(())
        }),
        Box::new(move |cx: &Ctx| {
            let r = shared(cx.reader(p, pr));
            let i = In(r.clone());
            let mut j = i.clone();
            let mut d = one_r.then(|| Deserializer::new(&mut j));
            for rec in recs {
                let res = match &mut d {
                    Some(d) => rec.read_in(d, &i),
                    None => rec.read(&i),
                };
                rec.check("different-value", res)?;
            }
            let mut rest = [0u8; 1];
            use std::io::Read;
            let mut i = i;
            loop {
                match i.read(&mut rest) {
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    Ok(0) => return Ok(()),
                    _ => bail!("left-over", "bytes left after the last record"),
                }
            }
        }),
    ])
}

// ---------------------------------------------------------------- C02

fn compare_bytes(rec: &Rec, got: &[u8]) -> Res {
    match rec.expected() {
        Some(want) => {
            if want != got {
                bail!(
                    "wrong-bytes",
                    "{}: wrote {}, the format says {}",
                    rec.label(),
                    hex(got),
                    hex(&want)
                );
            }
        }
        None => {
            if let Rec::Typed(t, v, _) = rec {
                let mut rd = Rd::new(got);
                match rd.val(t.schema()) {
                    Ok(x) if x.canonical() == v.canonical() && rd.pos == got.len() && rd.canonical => {}
                    other => bail!(
                        "wrong-bytes",
                        "{}: wrote {}, which means {:?}",
                        rec.label(),
                        hex(got),
                        other
                    ),
                }
            }
        }
    }
    Ok(())
}

pub fn c02(sim: &Sim) -> Res {
    sim.nontrivial();
    if sim.draw(10) == 9 {
        return c02_peers(sim);
    }
    let o = opts(sim);
    let mut recs = gen_stream(sim, 1, 8, &o);
    if sim.chance(3) {
        recs.insert(0, huge(sim, usize::MAX));
    }
    // turn by turn: we write to the peer, the peer writes to us
    let w = sim_writer(sim, Policy::gen(sim));
    let out = Out(w.clone());
    let mut session = (sim.draw(2) == 1).then(|| Serializer::new(out.clone()));
    let rpol = Policy::gen(sim);
    for r in &recs {
        if sim.draw(3) == 2 {
            // the peer's turn: its bytes come from the reference encoder
            let bytes = match r.expected() {
                Some(b) => b,
                None => continue,
            };
            sim.ev("peer", bytes.len() as u64, 0, 0);
            sim.hash_bytes("peer", &bytes);
            let rd = sim_reader(sim, bytes.clone(), rpol.clone());
            let i = In(rd.clone());
            let got = safe("read", || r.read(&i))?;
            rd.borrow_mut().account();
            r.check("peer-misunderstood", got)?;
            if rd.borrow().left() != 0 {
                bail!(
                    "peer-misunderstood",
                    "{} bytes of {} left unread",
                    rd.borrow().left(),
                    r.label()
                );
            }
            continue;
        }
        let before = w.borrow().out.len();
        let res = safe("write", || match &mut session {
            Some(s) => r.write_in(&crate::serdes::Cx::NONE, s, &out),
            None => r.write(&out),
        })?;
        if let Err(e) = res {
            bail!("write-failed", "{} could not be written: {e}", r.label());
        }
        let b = w.borrow();
        sim.hash_bytes("wrote", &b.out[before..]);
        compare_bytes(r, &b.out[before..])?;
    }
    w.borrow_mut().account();
    Ok(())
}

/// A conversation with a peer that only has the reference codec, over pipes, in the world.
fn c02_peers(sim: &Sim) -> Res {
    let o = Opts {
        nodes: 8,
        max_len: 150,
        ..Opts::default()
    };
    let turns: Vec<(bool, Rec)> = gen_stream(sim, 1, 6, &o)
        .into_iter()
        .filter(|r| r.expected().map(|b| b.len() <= 600).unwrap_or(false))
        .map(|r| (sim.draw(2) == 1, r))
        .collect();
    let world = World::new(sim, 2, 200_000);
    let cap = sim.usize(1, 60);
    let (to_peer, from_peer) = (world.pipe(sim, cap), world.pipe(sim, cap));
    let pol: Vec<Policy> = (0..4).map(|_| Policy::gen(sim)).collect();
    let turns = &turns;
    let log: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
    let log = &log;
    let (p0, p1, p2, p3) = (pol[0].clone(), pol[1].clone(), pol[2].clone(), pol[3].clone());
    world.run(vec![
        Box::new(move |cx: &Ctx| {
            let o = Out(shared(cx.writer(to_peer, p0)));
            let i = In(shared(cx.reader(from_peer, p1)));
            for (peer_speaks, r) in turns {
                if *peer_speaks {
                    r.check("peer-misunderstood", r.read(&i))?;
                } else if let Err(e) = r.write(&o) {
                    bail!("write-failed", "{} could not be written: {e}", r.label());
                }
            }
            Ok(())
        }),
        Box::new(move |cx: &Ctx| {
            use std::io::{Read, Write};
            let mut o = Out(shared(cx.writer(from_peer, p2)));
            let mut i = In(shared(cx.reader(to_peer, p3)));
            for (peer_speaks, r) in turns {
                let want = r.expected().unwrap();
                if *peer_speaks {
                    o.write_all(&want).map_err(|e| Viol {
                        class: "peer-hung-up".into(),
                        msg: e.to_string(),
                    })?;
                    continue;
                }
                // read byte by byte until the reference decoder is satisfied
                let mut got = Vec::new();
                let (s, header) = match r {
                    Rec::Typed(t, ..) | Rec::Loose(t, ..) => (t.arc(), false),
                    Rec::Dynamic(s, ..) => (s.clone(), false),
                    _ => (std::sync::Arc::new(Schema::Unit), true),
                };
                loop {
                    let mut rd = Rd::new(&got);
                    let res = if header {
                        rd.header(0).map(|_| ())
                    } else {
                        rd.val(&s).map(|_| ())
                    };
                    match res {
                        Ok(()) => break,
                        Err(refcodec::Bad::Short) => {}
                        Err(e) => bail!("wrong-bytes", "{}: peer got {} ({e:?})", r.label(), hex(&got)),
                    }
                    let mut b = [0u8; 1];
                    match i.read(&mut b) {
                        Ok(1) => got.push(b[0]),
                        Ok(_) => bail!("wrong-bytes", "{}: connection ended after {}", r.label(), hex(&got)),
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => bail!("peer-hung-up", "{e}"),
                    }
                }
                log.lock().unwrap().push(got.clone());
                if got != want {
                    bail!("wrong-bytes", "{}: wrote {}, the format says {}", r.label(), hex(&got), hex(&want));
                }
            }
            Ok(())
        }),
    ])
}
