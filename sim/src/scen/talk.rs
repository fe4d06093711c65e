//! C06: parties taking turns; reads never reach past the value, writes hold nothing back.
use super::*;
use crate::serdes::Cx;
use crate::world::*;

pub fn c06(sim: &Sim) -> Res {
    sim.nontrivial();
    if sim.draw(4) == 3 {
        conversation(sim)
    } else {
        fenced(sim)
    }
}

/// One stream over one transport that watches every request made of it.
fn fenced(sim: &Sim) -> Res {
    let o = opts(sim);
    let mut recs = gen_stream(sim, 1, 7, &o);
    if sim.chance(4) {
        recs.insert(0, huge(sim, usize::MAX));
    }
    let w = sim_writer(sim, Policy::gen(sim));
    let out = Out(w.clone());
    let mut session = (sim.draw(2) == 1).then(|| Serializer::new(out.clone()));
    let mut ends = Vec::new();
    for r in &recs {
        let solo = r.solo()?;
        let at = w.borrow().out.len();
        let res = safe("write", || match &mut session {
            Some(s) => r.write_in(&Cx::NONE, s, &out),
            None => r.write(&out),
        })?;
        if let Err(e) = res {
            bail!("write-failed", "{} could not be written: {e}", r.label());
        }
        let b = w.borrow();
        if b.out[at..] != solo[..] {
            bail!(
                "held-back",
                "{}: success reported, but the transport was given {} instead of {}",
                r.label(),
                hex(&b.out[at..]),
                hex(&solo)
            );
        }
        ends.push(b.out.len());
    }
    drop(session);
    if w.borrow().out.len() != *ends.last().unwrap() {
        bail!("held-back", "bytes written when the writer was dropped");
    }
    let mut data = w.borrow().out.clone();
    w.borrow_mut().account();
    sim.hash_bytes("stream", &data);
    // what follows belongs to somebody else
    data.extend_from_slice(&[*sim.pick(&[0u8, 1, 0x41, 0xff]); 5000]);
    let r = sim_reader(sim, data, Policy::gen(sim));
    let i = In(r.clone());
    let mut j = i.clone();
    let mut session = (sim.draw(2) == 1).then(|| Deserializer::new(&mut j));
    for (k, rec) in recs.iter().enumerate() {
        r.borrow_mut().fence = Some(ends[k]);
        let res = safe("read", || match &mut session {
            Some(d) => rec.read_in(d, &i),
            None => rec.read(&i),
        })?;
        let b = r.borrow();
        sim.ev("read", k as u64, b.pos as u64, b.calls);
        rec.check("different-value", res)?;
        if let Some((pos, n)) = b.over {
            bail!(
                "read-ahead",
                "{}: asked for {n} bytes at byte {pos}, but the value ends at byte {}",
                rec.label(),
                ends[k]
            );
        }
        if b.pos != ends[k] {
            bail!("out-of-step", "{}: took bytes up to {}, the value ends at {}", rec.label(), b.pos, ends[k]);
        }
    }
    drop(session);
    let mut b = r.borrow_mut();
    if b.pos != *ends.last().unwrap() {
        bail!("out-of-step", "bytes taken when the reader was dropped");
    }
    b.account();
    Ok(())
}

struct Msg {
    from: usize,
    to: usize,
    rec: Rec,
    len: usize,
}

/// Several parties, a connection between each two of them, one message at a time.
fn conversation(sim: &Sim) -> Res {
    let n = sim.usize(2, 4);
    let o = Opts {
        nodes: 8,
        max_len: if sim.draw(3) == 2 { 400 } else { 60 },
        ..Opts::default()
    };
    let mut script = Vec::new();
    let mut total = 0;
    for _ in 0..sim.usize(1, 10) {
        let from = sim.usize(0, n - 1);
        let to = (from + sim.usize(1, n - 1)) % n;
        let rec = Rec::gen(sim, &o);
        let len = rec.solo()?.len();
        if len > 3000 {
            continue;
        }
        sim.note(|| format!("{from} to {to}: {} ({len} bytes)", rec.label()));
        total += len;
        script.push(Msg { from, to, rec, len });
    }
    let world = World::new(sim, n, 100_000 + 400 * total as u64);
    let cap = sim.usize(1, 24).max(total / 150);
    let mut pipe = vec![vec![usize::MAX; n]; n];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                pipe[a][b] = world.pipe(sim, cap);
            }
        }
    }
    let pol: Vec<(Policy, Policy)> = (0..n).map(|_| (Policy::gen(sim), Policy::gen(sim))).collect();
    let one: Vec<bool> = (0..n).map(|_| sim.draw(2) == 1).collect();
    let think: Vec<u64> = (0..n).map(|_| *sim.pick(&[0u64, 0, 3_000, 40_000_000])).collect();
    let (script, pipe, pol, one, think) = (&script, &pipe, &pol, &one, &think);
    let mut parties: Vec<Party> = Vec::new();
    for me in 0..n {
        let world = world.clone();
        parties.push(Box::new(move |cx: &Ctx| {
            let mut readers: Vec<Option<std::rc::Rc<std::cell::RefCell<PipeReader>>>> = Vec::new();
            let mut ins: Vec<Option<In>> = Vec::new();
            let mut outs: Vec<Option<Out>> = Vec::new();
            for other in 0..n {
                if other == me {
                    readers.push(None);
                    ins.push(None);
                    outs.push(None);
                    continue;
                }
                let r = shared(cx.reader(pipe[other][me], pol[me].0.clone()));
                ins.push(Some(In(r.clone())));
                readers.push(Some(r));
                outs.push(Some(Out(shared(cx.writer(pipe[me][other], pol[me].1.clone())))));
            }
            let plain: Vec<Option<In>> = ins.clone();
            let mut des: Vec<Option<Deserializer<In>>> = ins
                .iter_mut()
                .map(|i| if one[me] { i.as_mut().map(Deserializer::new) } else { None })
                .collect();
            let mut sers: Vec<Option<Serializer<Out>>> = outs
                .iter()
                .map(|o| if one[me] { o.clone().map(Serializer::new) } else { None })
                .collect();
            let mut sent = vec![0u64; n];
            for m in script {
                if m.from == me {
                    let o = outs[m.to].as_ref().unwrap();
                    let res = match &mut sers[m.to] {
                        Some(s) => m.rec.write_in(&Cx::NONE, s, o),
                        None => m.rec.write(o),
                    };
                    if let Err(e) = res {
                        bail!("write-failed", "{} could not be written: {e}", m.rec.label());
                    }
                    sent[m.to] += m.len as u64;
                    let w = world.written(pipe[me][m.to]);
                    if w != sent[m.to] {
                        bail!(
                            "held-back",
                            "{}: success reported with {w} of {} bytes handed to the connection",
                            m.rec.label(),
                            sent[m.to]
                        );
                    }
                } else if m.to == me {
                    let r = readers[m.from].as_ref().unwrap();
                    r.borrow_mut().need = Some(m.len);
                    let i = plain[m.from].as_ref().unwrap();
                    let res = match &mut des[m.from] {
                        Some(d) => m.rec.read_in(d, i),
                        None => m.rec.read(i),
                    };
                    m.rec.check("different-value", res)?;
                    let b = r.borrow();
                    if let Some((need, asked)) = b.over {
                        bail!(
                            "read-ahead",
                            "{}: asked for {asked} bytes when {need} were still to come",
                            m.rec.label()
                        );
                    }
                    if b.need != Some(0) {
                        bail!("out-of-step", "{}: {:?} of its bytes left unread", m.rec.label(), b.need);
                    }
                }
                if think[me] > 0 {
                    cx.sleep(think[me]);
                }
            }
            Ok(())
        }));
    }
    world.run(parties)
}
