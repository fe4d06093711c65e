//! C07: an append-only log whose writer and reader crash and restart.
use super::*;
use crate::dynamic;
use crate::refcodec;
use crate::tape::Rng;
use crate::world::*;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

/// The storage: bytes beyond `durable` may be lost by a machine crash.
#[derive(Default)]
struct Disk {
    bytes: Vec<u8>,
    durable: usize,
    /// changes when the tail was cut by a recovery: readers that are in the middle of it give up
    cuts: u64,
}

struct Shared {
    disk: Disk,
    /// what the model says the log holds: end offset and sequence number of each complete record
    model: Vec<(usize, u64)>,
    delivered: Vec<u64>,
    /// the reader's saved offset; always the end of the last delivered record
    saved: usize,
    /// everything dies at this many storage calls from now
    fuse: Option<u64>,
    dead: bool,
    next: u64,
    writer_done: bool,
}

type Sh = Arc<Mutex<Shared>>;

fn lock(s: &Sh) -> std::sync::MutexGuard<'_, Shared> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

/// Every storage call: a chance for the others to run, and for the machine to die.
fn call(cx: &Ctx, sh: &Sh) {
    cx.step();
    let mut s = lock(sh);
    if let Some(f) = &mut s.fuse {
        if *f == 0 {
            s.dead = true;
        } else {
            *f -= 1;
        }
    }
    if s.dead {
        drop(s);
        std::panic::panic_any(Crash);
    }
}

/// How one process dies on its own.
struct Own(Option<u64>);
impl Own {
    fn tick(&mut self, sim: &Sim, what: &'static str) {
        if let Some(n) = &mut self.0 {
            if *n == 0 {
                sim.count(what);
                self.0 = None;
                std::panic::panic_any(Crash);
            }
            *n -= 1;
        }
    }
}

struct LogWriter {
    cx: Ctx,
    sim: Sim,
    sh: Sh,
    policy: Policy,
    own: Own,
}
impl Write for LogWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        call(&self.cx, &self.sh);
        self.own.tick(&self.sim, "fault:writer-crash");
        if self.policy.interrupt() {
            self.sim.count("fault:interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.policy.take(b.len());
        if n < b.len() {
            self.sim.count("fault:short-write");
        }
        lock(&self.sh).disk.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct LogReader {
    cx: Ctx,
    sim: Sim,
    sh: Sh,
    pos: usize,
    policy: Policy,
    own: Own,
    cuts: u64,
    /// at the durable end: wait for more instead of reporting the end
    tail: bool,
    /// no waiting: the run is over and everything is durable
    drain: bool,
}
impl Read for LogReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut waited = 0;
        loop {
            call(&self.cx, &self.sh);
            self.own.tick(&self.sim, "fault:reader-crash");
            if self.policy.interrupt() {
                self.sim.count("fault:interrupted");
                return Err(io::ErrorKind::Interrupted.into());
            }
            let s = lock(&self.sh);
            if s.disk.cuts != self.cuts {
                return Err(io::ErrorKind::ConnectionReset.into());
            }
            let avail = s.disk.durable.saturating_sub(self.pos);
            if avail == 0 {
                if !self.tail || self.drain || s.writer_done || waited > 40 {
                    drop(s);
                    self.sim.count("fault:premature-end");
                    return Ok(0);
                }
                waited += 1;
                drop(s);
                self.cx.sleep(50_000);
                continue;
            }
            let want = b.len().min(avail);
            let n = self.policy.take(want);
            if n < b.len() {
                self.sim.count("fault:short-read");
            }
            b[..n].copy_from_slice(&s.disk.bytes[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
    }
}

/// What kind of log it is.
struct Kind {
    /// record k has type tys[k % len]; the first member is the sequence number
    tys: Vec<Ty>,
    /// self-describing log: one description, then bodies
    header: Option<Arc<dlhn::Header>>,
    head_len: usize,
    /// sample payloads per type
    vals: Vec<Vec<Val>>,
}

impl Kind {
    fn rec(&self, ordinal: usize, seq: u64) -> Rec {
        let k = ordinal % self.tys.len();
        let t = &self.tys[k];
        let pay = self.vals[k][seq as usize % self.vals[k].len()].clone();
        let v = Val::Tup(vec![Val::U(seq), pay]);
        match &self.header {
            Some(h) => {
                let s = t.arc();
                let v = v.canonical();
                let b = dynamic::body_of(&s, &v);
                Rec::Dynamic(s, v, h.clone(), b)
            }
            None => Rec::Typed(t.clone(), v, seq),
        }
    }
    /// Read the record with this ordinal, whatever it is; yields its sequence number and payload.
    fn read(&self, ordinal: usize, h: Option<&dlhn::Header>, de: &mut Deserializer<In>) -> Result<Val, String> {
        let t = &self.tys[ordinal % self.tys.len()];
        match h {
            Some(h) => {
                let b = read_body(h, de)?;
                dynamic::val_of(t.schema(), &b).ok_or_else(|| "body of another shape".to_string())
            }
            None => t.read(de),
        }
    }
}

fn gen_kind(sim: &Sim) -> Kind {
    let described = sim.draw(3) == 2;
    let o = Opts {
        described,
        zero_seq: true,
        nodes: 6,
        max_len: if sim.draw(4) == 3 { 600 } else { 60 },
    };
    let n = if described { 1 } else { sim.usize(1, 3) };
    let mut tys = Vec::new();
    let mut vals = Vec::new();
    // values that cross every buffer boundary in the code
    let big = sim.draw(6) == 5;
    for _ in 0..n {
        if big {
            let len = |sim: &Sim| match sim.draw(3) {
                0 => sim.usize(4000, 4300),
                1 => sim.usize(100, 160),
                _ => sim.usize(4097, 14_000),
            };
            let text = sim.draw(2) == 0;
            let (s, mut vs) = (if text { Schema::Str(false) } else { Schema::Bytes(false, false) }, Vec::new());
            for _ in 0..3 {
                let n = len(sim);
                let (_, mut r) = sim.sub();
                vs.push(if text {
                    Val::Str((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect())
                } else {
                    Val::Bytes((0..n).map(|_| r.below(256) as u8).collect())
                });
            }
            vals.push(vs);
            tys.push(Ty::Dyn(Arc::new(Schema::tuple(vec![Schema::U64, s]))));
            continue;
        }
        let s = gen_schema(sim, &o);
        // small payloads of a few values each
        let mut vs = Vec::new();
        for _ in 0..3 {
            vs.push(gen_val(sim, &s, &o).canonical());
        }
        vals.push(vs);
        tys.push(Ty::Dyn(Arc::new(Schema::tuple(vec![Schema::U64, s]))));
    }
    let header = described.then(|| Arc::new(dynamic::header_of(tys[0].schema())));
    let head_len = header.as_ref().map(|h| refcodec::header_bytes(h).len()).unwrap_or(0);
    Kind { tys, header, head_len, vals }
}

/// Reads from `pos` (an end of a record) until the durable bytes end in the middle of a record.
fn session(
    kind: &Kind,
    r: std::rc::Rc<std::cell::RefCell<LogReader>>,
    per_record: bool,
    mut ordinal: usize,
    start: usize,
    mut on: impl FnMut(usize, usize, Val) -> Res<bool>,
) -> Res {
    let i = In(r.clone());
    // the description is at the start of the log
    let mut head = None;
    if kind.header.is_some() {
        r.borrow_mut().pos = 0;
        match read_header(&i) {
            Ok(h) => {
                if r.borrow().pos != kind.head_len {
                    bail!("lost-place", "the description ends at {}, the reader is at {}", kind.head_len, r.borrow().pos);
                }
                head = Some(h);
            }
            Err(_) => return Ok(()),
        }
    }
    if start > r.borrow().pos || kind.header.is_none() {
        r.borrow_mut().pos = start;
    }
    let mut j = i.clone();
    let mut one = (!per_record).then(|| Deserializer::new(&mut j));
    loop {
        let mut k = i.clone();
        let res = match &mut one {
            Some(d) => kind.read(ordinal, head.as_ref(), d),
            None => kind.read(ordinal, head.as_ref(), &mut Deserializer::new(&mut k)),
        };
        match res {
            Ok(v) => {
                let pos = r.borrow().pos;
                if !on(ordinal, pos, v)? {
                    return Ok(());
                }
                ordinal += 1;
            }
            Err(_) => return Ok(()),
        }
    }
}

fn check_rec(kind: &Kind, ordinal: usize, v: &Val, want: (usize, u64), pos: usize) -> Res<u64> {
    let rec = kind.rec(ordinal, want.1);
    let (seq, ok) = match (&rec, v) {
        (Rec::Typed(_, w, _) | Rec::Dynamic(_, w, _, _), Val::Tup(m)) => (
            match m.first() {
                Some(Val::U(x)) => *x,
                _ => u64::MAX,
            },
            w == v,
        ),
        _ => (u64::MAX, false),
    };
    if !ok || pos != want.0 {
        bail!(
            "wrong-record",
            "record {ordinal} of the log is number {} ending at {}, read was {} ending at {pos}",
            want.1,
            want.0,
            short(format!("{v:?}"))
        );
    }
    Ok(seq)
}

pub fn c07(sim: &Sim) -> Res {
    sim.nontrivial();
    let kind = gen_kind(sim);
    let sh: Sh = Arc::new(Mutex::new(Shared {
        disk: Disk::default(),
        model: Vec::new(),
        delivered: Vec::new(),
        saved: kind.head_len,
        fuse: None,
        dead: false,
        next: 1,
        writer_done: false,
    }));
    let epochs = sim.usize(1, 5);
    for e in 0..=epochs {
        epoch(sim, &kind, &sh, e == epochs)?;
        // the machine is down: only durable bytes (and perhaps some more) survive
        let mut s = lock(&sh);
        if e < epochs {
            let (d, n) = (s.disk.durable, s.disk.bytes.len());
            let keep = d + sim.draw((n - d) as u64 + 1) as usize;
            if s.dead {
                sim.count("fault:machine-crash");
            }
            if keep < n {
                sim.count("fault:lost-unsynced-bytes");
                if !s.model.iter().any(|m| m.0 == keep) && keep > kind.head_len {
                    sim.count("fault:torn-record");
                }
            }
            sim.ev("machine-crash", d as u64, keep as u64, n as u64);
            s.disk.bytes.truncate(keep);
            s.disk.durable = keep;
            s.model.retain(|m| m.0 <= keep);
            s.disk.cuts += 1;
            s.dead = false;
            s.fuse = None;
        }
    }
    // faults have stopped and the reader has caught up
    let s = lock(&sh);
    let want: Vec<u64> = s.model.iter().map(|m| m.1).collect();
    if s.delivered != want {
        bail!(
            "log",
            "the log holds the records {want:?}, the reader was given {:?}",
            s.delivered
        );
    }
    sim.count_n("records-delivered", s.delivered.len() as u64);
    Ok(())
}

/// From boot to the next machine crash.
fn epoch(sim: &Sim, kind: &Kind, sh: &Sh, last: bool) -> Res {
    let world = World::new(sim, 2, 3_000_000);
    {
        let mut s = lock(sh);
        s.writer_done = false;
        if !last {
            s.fuse = Some(match sim.draw(3) {
                0 => sim.draw(40),
                1 => sim.draw(300),
                _ => sim.draw(2500),
            });
        }
    }
    let appends = sim.usize(0, 8);
    let lives = if last { 1 } else { sim.usize(1, 3) };
    // all decisions of the two parties come from their own generators
    let (ws, mut wr) = sim.sub();
    let (rs, mut rr) = sim.sub();
    let (pw, pr) = (Policy::gen(sim), Policy::gen(sim));
    let (sw, sr) = (sh.clone(), sh.clone());
    let (simw, simr) = (sim.clone(), sim.clone());
    let wcrash = if last || ws == 0 { 0 } else { 400 };
    let rcrash = if last || rs == 0 { 0 } else { 400 };
    world.run(vec![
        Box::new(move |cx: &Ctx| {
            for life in 0..lives {
                let own = life + 1 < lives && wr.chance(wcrash);
                let own = Own(own.then(|| wr.below(60)));
                match caught(|| writer_life(cx, &simw, kind, &sw, appends, &mut wr, pw.clone(), own, last)) {
                    Caught::Done(r) => r?,
                    Caught::Crashed => {
                        if lock(&sw).dead {
                            std::panic::panic_any(Crash);
                        }
                    }
                    Caught::Stopped => std::panic::panic_any(Stopped),
                    Caught::Livelock(m) => bail!("livelock", "{m}"),
                    Caught::Panic(m) => bail!("panic", "writer panicked: {m}"),
                }
            }
            lock(&sw).writer_done = true;
            Ok(())
        }),
        Box::new(move |cx: &Ctx| {
            loop {
                let finish = last && lock(&sr).writer_done;
                let own = Own((!finish && rr.chance(rcrash)).then(|| rr.below(80)));
                match caught(|| reader_life(cx, &simr, kind, &sr, &mut rr, pr.clone(), own, finish)) {
                    Caught::Done(r) => r?,
                    Caught::Crashed => {
                        if lock(&sr).dead {
                            std::panic::panic_any(Crash);
                        }
                    }
                    Caught::Stopped => std::panic::panic_any(Stopped),
                    Caught::Livelock(m) => bail!("livelock", "{m}"),
                    Caught::Panic(m) => bail!("panic", "reader panicked: {m}"),
                }
                if finish || (!last && lock(&sr).writer_done) {
                    return Ok(());
                }
                cx.sleep(20_000 + rr.below(400_000));
            }
        }),
    ])
}

fn new_reader(cx: &Ctx, sim: &Sim, sh: &Sh, policy: Policy, own: Own, tail: bool) -> LogReader {
    LogReader {
        cx: cx.clone(),
        sim: sim.clone(),
        sh: sh.clone(),
        pos: 0,
        policy,
        own,
        cuts: lock(sh).disk.cuts,
        tail,
        drain: false,
    }
}

#[allow(clippy::too_many_arguments)]
fn writer_life(
    cx: &Ctx,
    sim: &Sim,
    kind: &Kind,
    sh: &Sh,
    appends: usize,
    rng: &mut Rng,
    policy: Policy,
    own: Own,
    last: bool,
) -> Res {
    call(cx, sh);
    // recovery: the bytes that survived are all there is; find the end of the last complete record
    let have = lock(sh).disk.bytes.len();
    let bytes = lock(sh).disk.bytes.clone();
    let scan = sim_reader(sim, bytes, policy.clone());
    let i = In(scan.clone());
    let mut end = 0;
    let mut n = 0;
    let mut head_ok = true;
    let mut head = None;
    if kind.header.is_some() {
        match read_header(&i) {
            Ok(h) => {
                end = scan.borrow().pos;
                head = Some(h);
            }
            Err(_) => head_ok = false,
        }
    }
    if head_ok {
        let mut j = i.clone();
        let mut one = rng.chance(500).then(|| Deserializer::new(&mut j));
        loop {
            let mut k = i.clone();
            let res = match &mut one {
                Some(d) => kind.read(n, head.as_ref(), d),
                None => kind.read(n, head.as_ref(), &mut Deserializer::new(&mut k)),
            };
            match res {
                Ok(v) => {
                    end = scan.borrow().pos;
                    let want = lock(sh).model.get(n).copied();
                    match want {
                        Some(w) => {
                            check_rec(kind, n, &v, w, end)?;
                        }
                        None => bail!(
                            "made-up",
                            "recovery finds a record that was never completely written: {}",
                            short(format!("{v:?}"))
                        ),
                    }
                    n += 1;
                }
                Err(_) => break,
            }
        }
    }
    scan.borrow_mut().account();
    {
        let mut s = lock(sh);
        if n != s.model.len() {
            bail!(
                "lost-record",
                "the log holds {} complete records, recovery finds {n}",
                s.model.len()
            );
        }
        sim.ev("recovered", n as u64, end as u64, have as u64);
        if end < s.disk.bytes.len() {
            s.disk.bytes.truncate(end);
            s.disk.durable = s.disk.durable.min(end);
            s.disk.cuts += 1;
        }
    }
    let w = shared(LogWriter {
        cx: cx.clone(),
        sim: sim.clone(),
        sh: sh.clone(),
        policy,
        own,
    });
    let out = Out(w);
    if end == 0 {
        if let Some(h) = &kind.header {
            if let Err(e) = write_header(h, &out) {
                bail!("write-failed", "description could not be written: {e}");
            }
        }
    }
    let mut one = rng.chance(500).then(|| Serializer::new(out.clone()));
    for _ in 0..appends {
        let (ordinal, seq) = {
            let mut s = lock(sh);
            s.next += 1;
            (s.model.len(), s.next)
        };
        let rec = kind.rec(ordinal, seq);
        let res = match &mut one {
            Some(s) => rec.write_in(&crate::serdes::Cx::NONE, s, &out),
            None => rec.write(&out),
        };
        if let Err(e) = res {
            bail!("write-failed", "{} could not be written: {e}", rec.label());
        }
        {
            let mut s = lock(sh);
            let end = s.disk.bytes.len();
            s.model.push((end, seq));
            sim.ev("append", end as u64, seq, 0);
            // the operating system may write back any part at any time
            match rng.below(4) {
                0 => s.disk.durable = s.disk.bytes.len(),
                1 => {
                    let (d, n) = (s.disk.durable, s.disk.bytes.len());
                    s.disk.durable = d + rng.below((n - d) as u64 + 1) as usize;
                }
                _ => {}
            }
        }
        call(cx, sh);
        if rng.chance(200) {
            cx.sleep(rng.below(300_000));
        }
    }
    if last || rng.chance(500) {
        let mut s = lock(sh);
        s.disk.durable = s.disk.bytes.len();
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn reader_life(
    cx: &Ctx,
    sim: &Sim,
    kind: &Kind,
    sh: &Sh,
    rng: &mut Rng,
    policy: Policy,
    own: Own,
    finish: bool,
) -> Res {
    let (saved, ordinal) = {
        let s = lock(sh);
        (s.saved, s.delivered.len())
    };
    let mut r = new_reader(cx, sim, sh, policy, own, rng.chance(500));
    r.drain = finish;
    let r = shared(r);
    let mut quota = if finish { u64::MAX } else { 1 + rng.below(12) };
    sim.ev("reader", saved as u64, ordinal as u64, finish as u64);
    session(kind, r, rng.chance(500), ordinal, saved, |ordinal, pos, v| {
        let mut s = lock(sh);
        let want = match s.model.get(ordinal) {
            Some(w) => *w,
            None => bail!(
                "made-up",
                "record {ordinal} was read but never completely written: {}",
                short(format!("{v:?}"))
            ),
        };
        let seq = check_rec(kind, ordinal, &v, want, pos)?;
        // handing over and saving the offset are one atomic step of the application
        s.delivered.push(seq);
        s.saved = pos;
        quota -= 1;
        Ok(quota > 0)
    })
}
