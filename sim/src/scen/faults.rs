//! C03, C04, C05: failing writers, cut streams, failing readers.
use super::*;
use crate::serdes::Cx;

pub fn c03(sim: &Sim) -> Res {
    sim.nontrivial();
    let o = small(sim);
    let rec = if sim.draw(1500) == 1499 { huge(sim, 1 << 21) } else { Rec::gen(sim, &o) };
    let next = Rec::gen(sim, &Opts { nodes: 3, max_len: 40, ..o });
    let before = if sim.draw(3) == 2 {
        Some(Rec::gen(sim, &Opts { nodes: 3, max_len: 40, ..o }))
    } else {
        None
    };
    let solo = rec.solo()?;
    let solo_next = next.solo()?;
    let solo_before = match &before {
        Some(b) => b.solo()?,
        None => vec![],
    };
    sim.note(|| format!("{} = {}", rec.label(), hex(&solo)));
    sim.hash_bytes("solo", &solo);
    let one = sim.draw(2) == 1;
    let mut pos = positions(sim, solo.len(), 48, 24, &[]);
    pos.push(solo.len()); // no fault inside: must succeed
    for p in pos {
        let f = gen_fault(sim);
        let pol = if sim.draw(2) == 1 { Policy::gen(sim) } else { Policy::smooth() };
        let w = sim_writer(sim, pol);
        let out = Out(w.clone());
        let sticky = sim.draw(2) == 1;
        w.borrow_mut().sticky = sticky;
        let mut session = one.then(|| Serializer::new(out.clone()));
        let mut write = |r: &Rec| {
            guarded("write", || match &mut session {
                Some(s) => r.write_in(&Cx::NONE, s, &out),
                None => r.write(&out),
            })
        };
        if let Some(b) = &before {
            match write(b)? {
                Some(Ok(())) => {}
                _ => bail!("write-failed", "{} could not be written", b.label()),
            }
        }
        let base = solo_before.len();
        w.borrow_mut().fault = Some((base + p, f));
        let res = write(&rec)?;
        sim.ev("wres", p as u64, res.is_some() as u64, matches!(res, Some(Ok(()))) as u64);
        {
            let mut b = w.borrow_mut();
            b.account();
            if p == solo.len() {
                match &res {
                    Some(Ok(())) if b.fired == 0 && b.out[base..] == solo[..] => {}
                    Some(Ok(())) | Some(Err(_)) | None if b.fired > 0 => bail!(
                        "extra-write",
                        "{}: writes more than its {} bytes",
                        rec.label(),
                        solo.len()
                    ),
                    Some(Err(e)) => bail!("write-failed", "{} failed without a fault: {e}", rec.label()),
                    _ => bail!("wrong-prefix", "{}: wrote {} instead of {}", rec.label(), hex(&b.out[base..]), hex(&solo)),
                }
                continue;
            }
            if b.fired == 0 {
                bail!(
                    "wrong-prefix",
                    "{}: wrote only {} of {} bytes",
                    rec.label(),
                    b.out.len() - base,
                    solo.len()
                );
            }
            if let Some(Ok(())) = res {
                bail!(
                    "lost-failure",
                    "{}: success reported although the writer failed ({f:?}) after {p} of {} bytes",
                    rec.label(),
                    solo.len()
                );
            }
            if b.out[base..] != solo[..p] {
                bail!(
                    "wrong-prefix",
                    "{}: after a failure ({f:?}) at byte {p} the writer holds {}, not the first {p} bytes of {}",
                    rec.label(),
                    hex(&b.out[base..]),
                    hex(&solo)
                );
            }
        }
        if res.is_none() || sticky {
            continue; // dead process / dead device
        }
        // the device works again: the next value is not polluted by the failed one
        match write(&next)? {
            Some(Ok(())) => {}
            r => bail!("write-failed", "{} after a healed fault: {r:?}", next.label()),
        }
        let b = w.borrow();
        if b.out[base + p..] != solo_next[..] {
            bail!(
                "late-write",
                "after a failed write of {} the next value {} arrived as {} instead of {}",
                rec.label(),
                next.label(),
                hex(&b.out[base + p..]),
                hex(&solo_next)
            );
        }
    }
    poison(sim, &rec, &solo, &next, &solo_next)
}

/// A field of the value itself refuses to be written.
fn poison(sim: &Sim, rec: &Rec, solo: &[u8], next: &Rec, solo_next: &[u8]) -> Res {
    let (t, v, seed) = match rec {
        Rec::Typed(t @ Ty::Dyn(_), v, seed) => (t, v, *seed),
        _ => return Ok(()),
    };
    let n = sim.range(0, 12) as i64;
    let boom = || Err(refusal(n as usize + solo.len()));
    let cx = Cx::at(n, &boom);
    let w = sim_writer(sim, Policy::gen(sim));
    let out = Out(w.clone());
    let mut ser = Serializer::new(out.clone());
    let res = safe("write", || t.write(v, &cx, seed, &mut ser))?;
    let hit = cx.countdown.get() < 0;
    sim.ev("poison", n as u64, hit as u64, res.is_ok() as u64);
    if hit {
        sim.count("fault:value-refuses");
        if res.is_ok() {
            bail!("lost-failure", "{}: success reported although a field failed", rec.label());
        }
    } else if let Err(e) = &res {
        bail!("write-failed", "{} failed without a fault: {e}", rec.label());
    }
    let len = w.borrow().out.len();
    if len > solo.len() || w.borrow().out[..] != solo[..len] {
        bail!("wrong-prefix", "{}: wrote {} which does not start {}", rec.label(), hex(&w.borrow().out), hex(solo));
    }
    if let Err(e) = safe("write", || next.write_in(&Cx::NONE, &mut ser, &out))? {
        bail!("write-failed", "{} after a refused value: {e}", next.label());
    }
    let mut b = w.borrow_mut();
    b.account();
    if b.out[len..] != solo_next[..] {
        bail!("late-write", "after a refused value {} arrived as {}", next.label(), hex(&b.out[len..]));
    }
    Ok(())
}

pub fn c04(sim: &Sim) -> Res {
    sim.nontrivial();
    let o = small(sim);
    let mut recs = gen_stream(sim, 1, 5, &o);
    if sim.draw(1500) == 1499 {
        let at = sim.usize(0, recs.len());
        recs.insert(at, huge(sim, 1 << 21));
    }
    let mut data = Vec::new();
    let mut ends = Vec::new();
    for r in &recs {
        data.extend_from_slice(&r.solo()?);
        ends.push(data.len());
        sim.note(|| format!("record {} ends at {}", r.label(), data.len()));
    }
    sim.hash_bytes("stream", &data);
    let cuts = positions(sim, data.len(), 120, 40, &ends);
    for c in cuts {
        // Most cuts are torn files read plainly; some come from a writer that dies, or a connection
        // that ends, with the reader seeing it in pieces.
        let style = sim.draw(4);
        let mut data = data.clone();
        let pol = if style >= 2 { Policy::gen(sim) } else { Policy::smooth() };
        let r;
        if style == 1 {
            // end of input announced while the transport still could deliver more
            r = sim_reader(sim, data, pol);
            r.borrow_mut().fault = Some((c, Fault::Zero));
            r.borrow_mut().sticky = sim.draw(2) == 1;
        } else {
            data.truncate(c);
            sim.count("fault:cut");
            r = sim_reader(sim, data, pol);
        }
        let one = sim.draw(2) == 1;
        let i = In(r.clone());
        let mut j = i.clone();
        let mut session = one.then(|| Deserializer::new(&mut j));
        for (k, rec) in recs.iter().enumerate() {
            let complete = ends[k] <= c;
            let res = safe("read of a cut stream", || match &mut session {
                Some(d) => rec.read_in(d, &i),
                None => rec.read(&i),
            })?;
            sim.ev("cut", c as u64, k as u64, res.is_ok() as u64);
            if complete {
                rec.check("wrong-before-cut", res)?;
                if r.borrow().pos != ends[k] {
                    bail!("out-of-step", "record {k} of a stream cut at {c} took bytes up to {}", r.borrow().pos);
                }
            } else {
                if let Ok(g) = res {
                    bail!(
                        "made-up",
                        "{} needs bytes up to {} but the stream ends at {c}; read as {}",
                        rec.label(),
                        ends[k],
                        short(format!("{g:?}"))
                    );
                }
                break;
            }
        }
        r.borrow_mut().account();
    }
    Ok(())
}

pub fn c05(sim: &Sim) -> Res {
    sim.nontrivial();
    let o = small(sim);
    let rec = if sim.draw(1500) == 1499 { huge(sim, 1 << 21) } else { Rec::gen(sim, &o) };
    let lead = if sim.draw(3) == 2 {
        Some(Rec::gen(sim, &Opts { nodes: 3, max_len: 40, ..o }))
    } else {
        None
    };
    let solo = rec.solo()?;
    let lead_bytes = match &lead {
        Some(l) => l.solo()?,
        None => vec![],
    };
    let base = lead_bytes.len();
    sim.hash_bytes("solo", &solo);
    sim.note(|| format!("{} = {}", rec.label(), hex(&solo)));
    // what follows the value must not be taken as part of it
    let tail = vec![*sim.pick(&[0u8, 1, 0x41, 0xff]); 600];
    let mut pos = positions(sim, solo.len(), 48, 24, &[]);
    pos.push(solo.len());
    for p in pos {
        let f = gen_fault(sim);
        let pol = if sim.draw(2) == 1 { Policy::gen(sim) } else { Policy::smooth() };
        let mut data = lead_bytes.clone();
        data.extend_from_slice(&solo);
        data.extend_from_slice(&tail);
        let r = sim_reader(sim, data, pol);
        {
            let mut b = r.borrow_mut();
            b.fault = Some((base + p, f));
            b.sticky = sim.draw(2) == 1;
            b.max_calls = b.max_calls.max(3_000_000);
        }
        let i = In(r.clone());
        let mut j = i.clone();
        let one = sim.draw(2) == 1;
        let mut session = one.then(|| Deserializer::new(&mut j));
        if let Some(l) = &lead {
            let res = safe("read", || match &mut session {
                Some(d) => l.read_in(d, &i),
                None => l.read(&i),
            })?;
            l.check("different-value", res)?;
        }
        let res = guarded("read from a failing reader", || match &mut session {
            Some(d) => rec.read_in(d, &i),
            None => rec.read(&i),
        })?;
        let mut b = r.borrow_mut();
        sim.ev("rres", p as u64, b.fired, matches!(res, Some(Ok(_))) as u64);
        b.account();
        if p == solo.len() {
            // fault only after the value: splits and interruptions alone change nothing
            if b.fired > 0 {
                bail!("read-ahead", "{}: reads past its end at byte {p}", rec.label());
            }
            match res {
                Some(x) => rec.check("different-value", x)?,
                None => bail!("read-ahead", "{}: reads past its end", rec.label()),
            }
            continue;
        }
        if b.fired == 0 {
            bail!("missing-read", "{}: result {} without reading byte {p}", rec.label(), short(format!("{res:?}")));
        }
        if let Some(Ok(g)) = &res {
            bail!(
                "made-up",
                "{}: the reader failed ({f:?}) after {p} of {} bytes, yet the read returned {}",
                rec.label(),
                solo.len(),
                short(format!("{g:?}"))
            );
        }
        if b.after_fault_bytes > 0 {
            bail!(
                "read-after-failure",
                "{}: {} bytes consumed after the reader failed ({f:?}) at byte {p}",
                rec.label(),
                b.after_fault_bytes
            );
        }
        if b.after_fault_calls > 8 {
            bail!("retry", "{}: reader called {} times after it failed ({f:?})", rec.label(), b.after_fault_calls);
        }
    }
    Ok(())
}
