//! C08: many sessions at once, on several threads and inside one another.
use super::*;
use crate::serdes::Cx;
use crate::world::*;
use std::cell::Cell;
use std::io::{self, Read, Write};

/// Everything about one session is fixed before any of it runs.
#[derive(Clone)]
struct Spec {
    recs: Vec<Rec>,
    /// bytes for a reading session; `None`: a writing session
    input: Option<Vec<u8>>,
    policy: Policy,
    fault: Option<(usize, Fault)>,
    sticky: bool,
    one: bool,
    /// a member of record `.0` refuses at leaf `.1`
    poison: Option<(usize, i64)>,
}

#[derive(Clone, PartialEq, Default)]
struct Outcome {
    bytes: Vec<u8>,
    results: Vec<String>,
    crashed: bool,
}

impl Outcome {
    fn diff(&self, o: &Outcome) -> String {
        if self.crashed != o.crashed {
            return format!("crashed {} / {}", self.crashed, o.crashed);
        }
        for (i, (a, b)) in self.results.iter().zip(&o.results).enumerate() {
            if a != b {
                return short(format!("step {i}: alone {a}; together {b}"));
            }
        }
        if self.results.len() != o.results.len() {
            return format!("{} / {} steps", self.results.len(), o.results.len());
        }
        format!("bytes {} / {}", hex(&self.bytes), hex(&o.bytes))
    }
}

fn gen_spec(sim: &Sim, small_only: bool) -> Res<Spec> {
    gen_spec_in(sim, small_only, false, false)
}

/// `nest`: with a deeply nested record among them; `big`: with a long one.
fn gen_spec_in(sim: &Sim, small_only: bool, nest: bool, big: bool) -> Res<Spec> {
    let o = if small_only {
        Opts { nodes: 5, max_len: 120, ..Opts::default() }
    } else {
        small(sim)
    };
    let mut recs = gen_stream(sim, if nest { 0 } else { 1 }, 4, &o);
    if nest {
        let at = sim.usize(0, recs.len());
        recs.insert(at, deep(sim, 30, 60));
    }
    if big {
        let at = sim.usize(0, recs.len());
        recs.insert(at, huge(sim, 20_000));
    }
    spec_of(sim, recs)
}

/// Sessions of one type, with values of their own: they pass the same places in the library.
fn gen_twins(sim: &Sim, n: usize) -> Res<Vec<Spec>> {
    let described = sim.draw(3) == 2;
    let o = Opts { nodes: 4, max_len: 60, described, ..Opts::default() };
    let t = gen_ty(sim, &o, true);
    (0..n)
        .map(|_| {
            let recs = (0..sim.usize(1, 6))
                .map(|_| {
                    if described {
                        return Rec::gen_dynamic(sim, t.arc(), &o);
                    }
                    let v = gen_val(sim, t.schema(), &o);
                    Rec::typed(sim, t.clone(), v)
                })
                .collect();
            spec_of(sim, recs)
        })
        .collect()
}

fn spec_of(sim: &Sim, recs: Vec<Rec>) -> Res<Spec> {
    let mut input = None;
    let mut n = 0;
    let reading = sim.draw(2) == 1;
    let mut bytes = Vec::new();
    for r in &recs {
        bytes.extend_from_slice(&r.solo()?);
    }
    let mut cut = false;
    if reading {
        if sim.draw(3) == 2 && !bytes.is_empty() {
            // damaged input; only shortened, so that nothing depends on limits of damage runs
            bytes.truncate(sim.usize(0, bytes.len() - 1));
            sim.count("fault:cut");
            cut = true;
        }
        n = bytes.len();
        input = Some(bytes);
    } else {
        n = n.max(bytes.len());
    }
    let fault = if !cut && n > 0 && sim.draw(3) == 2 {
        Some((sim.usize(0, n - 1), gen_fault(sim)))
    } else {
        None
    };
    let poison = if !reading && sim.draw(4) == 3 {
        Some((sim.usize(0, recs.len() - 1), sim.draw(6) as i64))
    } else {
        None
    };
    Ok(Spec {
        recs,
        input,
        policy: Policy::gen(sim),
        fault,
        sticky: sim.draw(2) == 1,
        one: sim.draw(2) == 1,
        poison,
    })
}

impl Spec {
    /// Runs the session alone and counts its accesses to statics.
    fn run_counted(&self, sim: &Sim) -> Res<(Outcome, u64)> {
        struct Counting<'a>(&'a Cell<u64>);
        impl Drop for Counting<'_> {
            fn drop(&mut self) {
                self.0.set(self.0.get() + simrt::disarm().1);
            }
        }
        let n = Cell::new(0);
        let out = self.run_with(sim, None, None, &|| {
            simrt::arm(u64::MAX, 1, Box::new(|_| u64::MAX));
            Counting(&n)
        })?;
        Ok((out, n.get()))
    }
    /// Runs the session. `hook` is called at every transport call, `between` before every record,
    /// `inner` at leaf `.0` of record 0 while it is being written.
    fn run(&self, sim: &Sim, hook: Option<Hook>, inner: Option<(i64, &dyn Fn())>) -> Res<Outcome> {
        self.run_with(sim, hook, inner, &|| ())
    }
    /// `around` is called before every call into the library; what it returns is dropped after it.
    fn run_with<G>(
        &self,
        sim: &Sim,
        hook: Option<Hook>,
        inner: Option<(i64, &dyn Fn())>,
        around: &dyn Fn() -> G,
    ) -> Res<Outcome> {
        let mut out = Outcome::default();
        match &self.input {
            Some(data) => {
                let r = sim_reader(sim, data.clone(), self.policy.clone());
                {
                    let mut b = r.borrow_mut();
                    b.fault = self.fault;
                    b.sticky = self.sticky;
                    b.hook = hook;
                    b.max_calls = 3_000_000;
                }
                let i = In(r.clone());
                let mut j = i.clone();
                let mut session = self.one.then(|| Deserializer::new(&mut j));
                for rec in &self.recs {
                    let res = guarded("read", || {
                        let _g = around();
                        match &mut session {
                            Some(d) => rec.read_in(d, &i),
                            None => rec.read(&i),
                        }
                    })?;
                    match res {
                        None => {
                            out.crashed = true;
                            break;
                        }
                        Some(Ok(g)) => {
                            let s = match g {
                                Got::Val(v) => format!("{:?}", v.canonical()),
                                o => format!("{o:?}"),
                            };
                            out.results.push(format!("{s} at {}", r.borrow().pos));
                        }
                        Some(Err(e)) => {
                            out.results.push(format!("error {e} at {}", r.borrow().pos));
                            break;
                        }
                    }
                }
                drop(session);
                let mut b = r.borrow_mut();
                b.hook = None;
                b.account();
            }
            None => {
                let w = sim_writer(sim, self.policy.clone());
                {
                    let mut b = w.borrow_mut();
                    b.fault = self.fault;
                    b.sticky = self.sticky;
                    b.hook = hook;
                }
                let o = Out(w.clone());
                let mut session = self.one.then(|| Serializer::new(o.clone()));
                for (k, rec) in self.recs.iter().enumerate() {
                    let refuse = || Err(refusal(k + self.recs.len()));
                    let nest = || {
                        if let Some((_, f)) = &inner {
                            f();
                        }
                        Ok(())
                    };
                    let cx = match (self.poison, &inner) {
                        (Some((p, leaf)), _) if p == k => Cx::at(leaf, &refuse),
                        (_, Some((leaf, _))) => Cx::at(*leaf, &nest),
                        _ => Cx::NONE,
                    };
                    let res = guarded("write", || {
                        let _g = around();
                        match &mut session {
                            Some(s) => rec.write_in(&cx, s, &o),
                            None => rec.write_cx(&cx, &o),
                        }
                    })?;
                    match res {
                        None => {
                            out.crashed = true;
                            break;
                        }
                        Some(r) => out.results.push(format!("{r:?} at {}", w.borrow().out.len())),
                    }
                }
                drop(session);
                let mut b = w.borrow_mut();
                b.hook = None;
                b.account();
                out.bytes = b.out.clone();
            }
        }
        Ok(out)
    }
}

pub fn c08(sim: &Sim) -> Res {
    sim.nontrivial();
    if sim.chance(12) {
        return storm(sim);
    }
    match sim.draw(5) {
        0 | 1 => threads(sim),
        2 => nested(sim),
        3 => in_transport(sim),
        _ => tunnel(sim),
    }
}

fn differs<T>(how: &str, a: &Outcome, b: &Outcome) -> Res<T> {
    viol("interference", format!("{how}: {}", a.diff(b)))
}

/// How a party is stopped between two instructions of the library (needs the build with points).
#[derive(Clone)]
struct Stops {
    /// how far apart, in points; one is drawn for each next stop
    gaps: Vec<u64>,
    rest: u64,
    weight: u64,
}

impl Stops {
    fn gen(sim: &Sim) -> Stops {
        if sim.draw(2) == 0 {
            // only so that it cannot wait in a loop for others
            return Stops {
                gaps: Vec::new(),
                rest: 50_000,
                weight: 1,
            };
        }
        let n = sim.usize(1, 6);
        let far = *sim.pick(&[8u64, 60, 400, 3000, 20_000]);
        Stops {
            gaps: (0..n).map(|_| 1 + sim.draw(far)).collect(),
            rest: 1000,
            // what is shared between threads is static
            weight: *sim.pick(&[1, ALL]),
        }
    }
}

/// More points than a session mostly passes between two accesses to statics.
const ALL: u64 = 1 << 12;

impl Stops {
    /// Only at accesses to statics: at each, or at some.
    fn at_shared(sim: &Sim) -> Stops {
        let n = sim.usize(0, 4);
        Stops {
            gaps: (0..n).map(|_| (1 + sim.draw(12)) * ALL).collect(),
            rest: if n == 0 { 1 } else { 1 + sim.draw(4) } * ALL,
            weight: ALL,
        }
    }
}

/// Ends the points when the call into the library is over.
struct Armed(Sim);
impl Drop for Armed {
    fn drop(&mut self) {
        let (points, shared) = simrt::disarm();
        self.0.count_n("points-passed", points);
        self.0.count_n("shared-accesses", shared);
    }
}

fn armed(sim: &Sim, cx: &Ctx, stops: &Stops, at: &std::rc::Rc<Cell<usize>>) -> Armed {
    let (cx, s, st, at) = (cx.clone(), sim.clone(), stops.clone(), at.clone());
    let next = move || {
        let k = at.get();
        at.set(k + 1);
        st.gaps.get(k % (st.gaps.len() + 1)).copied().unwrap_or(st.rest)
    };
    let first = next();
    let refused = Cell::new(false);
    let rare = stops.weight > 1 || stops.gaps.is_empty();
    simrt::arm(
        first,
        stops.weight,
        Box::new(move |shared| {
            if std::thread::panicking() {
                return u64::MAX;
            }
            s.count(if shared { "fault:stopped-at-shared-access" } else { "fault:stopped-between-instructions" });
            // far from the last stop
            let spins = refused.replace(false) || (rare && !shared);
            match cx.preempt(spins) {
                Stop::Done => next(),
                Stop::Refused => {
                    refused.set(true);
                    1 << 16
                }
                Stop::Over => u64::MAX,
            }
        }),
    );
    Armed(sim.clone())
}

fn threads(sim: &Sim) -> Res {
    let n = sim.usize(2, 5);
    let mut specs = Vec::new();
    let twins = sim.draw(3) == 2;
    if twins {
        specs = gen_twins(sim, n)?;
    } else {
        let nest = sim.chance(60);
        for _ in 0..n {
            specs.push(gen_spec_in(sim, true, nest, false)?);
        }
    }
    // several parties often do the very same thing
    if sim.draw(3) == 2 {
        specs[n - 1] = specs[0].clone();
    }
    let mut alone = Vec::new();
    let mut shared = Vec::new();
    for s in &specs {
        let (out, n) = s.run_counted(sim)?;
        alone.push(out);
        shared.push(n);
    }
    if shared.iter().all(|n| *n == 0) {
        return together(sim, &specs, &alone, false).map(|_| ());
    }
    // The library touches something these sessions share: only sessions that do, in many orders.
    let busy: Vec<usize> = (0..n).filter(|k| shared[*k] > 0).collect();
    let pairs: Vec<(Spec, Outcome)> = (0..n)
        .map(|k| if shared[k] > 0 { k } else { busy[k % busy.len()] })
        .map(|k| (specs[k].clone(), alone[k].clone()))
        .collect();
    let (specs, alone): (Vec<Spec>, Vec<Outcome>) = pairs.into_iter().unzip();
    sim.count("sessions-sharing-statics");
    for _ in 0..8 {
        if together(sim, &specs, &alone, true)? > 0 {
            break;
        }
    }
    Ok(())
}

/// Runs the sessions on threads of their own; returns how often one waited for a lock of another.
fn together(sim: &Sim, specs: &[Spec], alone: &[Outcome], shared: bool) -> Res<u64> {
    let n = specs.len();
    let stops: Vec<Option<Stops>> = (0..n)
        .map(|_| {
            simrt::built_in().then(|| match shared {
                true => Stops::at_shared(sim),
                false => Stops::gen(sim),
            })
        })
        .collect();
    let world = World::new(sim, n, 3_000_000);
    let stops = &stops;
    let mut parties: Vec<Party> = Vec::new();
    for k in 0..n {
        let sim = sim.clone();
        parties.push(Box::new(move |cx: &Ctx| {
            let c = cx.clone();
            let hook: Option<Hook> = Some(Box::new(move || c.step()));
            let at = std::rc::Rc::new(Cell::new(0));
            let got = match &stops[k] {
                Some(st) => specs[k].run_with(&sim, hook, None, &|| armed(&sim, cx, st, &at))?,
                None => specs[k].run(&sim, hook, None)?,
            };
            if got != alone[k] {
                return differs(&format!("session {k} of {n} on threads of their own"), &alone[k], &got);
            }
            Ok(())
        }));
    }
    world.run(parties)?;
    Ok(world.stuck())
}

/// The same few sessions (failing ones, as a rule) over and over, then ordinary ones: whatever the many
/// left behind must not show.
fn storm(sim: &Sim) -> Res {
    let o = Opts { nodes: 5, max_len: 80, ..Opts::default() };
    let mut probes = Vec::new();
    for r in gen_stream(sim, 1, 4, &o) {
        let bytes = r.solo()?;
        probes.push((r, bytes));
    }
    let n = sim.usize(1, 3);
    let mut specs = Vec::new();
    let mut first = Vec::new();
    for _ in 0..n {
        let s = gen_spec(sim, true)?;
        first.push(s.run(sim, None, None)?);
        specs.push(s);
    }
    let times = *sim.pick(&[2usize, 20, 130, 257, 300, 520, 1100]);
    for t in 0..times {
        for (s, f) in specs.iter().zip(&first) {
            let got = s.run(sim, None, None)?;
            if got != *f {
                return differs(&format!("the same session, {} times before", t + 1), f, &got);
            }
        }
    }
    sim.count_n("storm-sessions", (times * n) as u64);
    for (r, bytes) in &probes {
        let w = sim_writer(sim, Policy::gen(sim));
        write_stream(sim, std::slice::from_ref(r), &w, false)?;
        if w.borrow().out != *bytes {
            bail!("interference", "{} wrote {} before and {} after many sessions", r.label(), hex(bytes), hex(&w.borrow().out));
        }
        let rd = sim_reader(sim, bytes.clone(), Policy::gen(sim));
        read_stream(sim, std::slice::from_ref(r), &rd, &[bytes.len()], false)?;
    }
    Ok(())
}

/// A value whose encoding runs other sessions.
fn nested(sim: &Sim) -> Res {
    let o = small(sim);
    let mut outer = gen_spec(sim, false)?;
    outer.input = None;
    outer.poison = None;
    let t = Ty::Dyn(std::sync::Arc::new(Schema::structure(vec![
        gen_schema(sim, &o),
        Schema::U16,
        gen_schema(sim, &o),
    ])));
    let v = gen_val(sim, t.schema(), &o);
    outer.recs.insert(0, Rec::typed(sim, t, v));
    let inner = [gen_spec(sim, true)?, gen_spec(sim, true)?];
    let alone = outer.run(sim, None, None)?;
    let inner_alone = [inner[0].run(sim, None, None)?, inner[1].run(sim, None, None)?];
    let leaf = sim.draw(8) as i64;
    let bad: Cell<Option<Viol>> = Cell::new(None);
    let ran = Cell::new(0u64);
    let f = || {
        for (k, s) in inner.iter().enumerate() {
            let r = match s.run(sim, None, None) {
                Ok(got) if got == inner_alone[k] => Ok(()),
                Ok(got) => differs("session inside the encoding of a value", &inner_alone[k], &got),
                Err(v) => Err(v),
            };
            if let Err(v) = r {
                bad.set(Some(v));
            }
            ran.set(ran.get() + 1);
        }
    };
    let got = outer.run(sim, None, Some((leaf, &f)))?;
    sim.ev("nested", ran.get(), leaf as u64, 0);
    sim.count_n("nested-sessions", ran.get());
    if let Some(v) = bad.take() {
        return Err(v);
    }
    if got != alone {
        return differs("session around other sessions", &alone, &got);
    }
    Ok(())
}

/// A transport that, inside its calls, runs other sessions.
fn in_transport(sim: &Sim) -> Res {
    let nest = sim.chance(60);
    let big = !nest && sim.chance(80);
    let outer = gen_spec_in(sim, false, nest, big)?;
    let inner = gen_spec_in(sim, true, nest, big)?;
    let alone = outer.run(sim, None, None)?;
    let inner_alone = std::rc::Rc::new(inner.run(sim, None, None)?);
    let bad: std::rc::Rc<Cell<Option<Viol>>> = std::rc::Rc::new(Cell::new(None));
    let mut left = sim.draw(6) + 1;
    let every = sim.draw(4) + 1;
    let mut calls = 0;
    let (b, s, ia) = (bad.clone(), sim.clone(), inner_alone.clone());
    let hook: Hook = Box::new(move || {
        calls += 1;
        if left == 0 || calls % every != 0 {
            return;
        }
        left -= 1;
        s.count("nested-sessions");
        let r = match inner.run(&s, None, None) {
            Ok(got) if got == *ia => Ok(()),
            Ok(got) => differs("session inside a transport call", &ia, &got),
            Err(v) => Err(v),
        };
        if let Err(v) = r {
            b.set(Some(v));
        }
    });
    let got = outer.run(sim, Some(hook), None)?;
    if let Some(v) = bad.take() {
        return Err(v);
    }
    if got != alone {
        return differs("session over a transport that runs others", &alone, &got);
    }
    Ok(())
}

/// A transport that carries its bytes as records of another stream, possibly several levels deep.
struct TunnelOut(Serializer<Out>, usize);
impl Write for TunnelOut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        serde::Serialize::serialize(&serde_bytes::Bytes::new(&b[..n]), &mut self.0)
            .map_err(|e| io::Error::new(io::ErrorKind::Other, e.to_string()))?;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct TunnelIn(In, Vec<u8>, usize);
impl Read for TunnelIn {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        while self.2 == self.1.len() {
            let mut i = self.0.clone();
            let v: serde_bytes::ByteBuf = serde::Deserialize::deserialize(&mut Deserializer::new(&mut i))
                .map_err(|_: dlhn::de::Error| io::Error::from(io::ErrorKind::ConnectionAborted))?;
            self.1 = v.into_vec();
            self.2 = 0;
        }
        let n = b.len().min(self.1.len() - self.2);
        b[..n].copy_from_slice(&self.1[self.2..self.2 + n]);
        self.2 += n;
        Ok(n)
    }
}

fn tunnel(sim: &Sim) -> Res {
    let o = small(sim);
    let mut recs = gen_stream(sim, 1, 4, &o);
    if sim.chance(80) {
        recs.push(huge(sim, 20_000));
    }
    let levels = sim.usize(1, 3);
    let w = sim_writer(sim, Policy::gen(sim));
    let mut out = Out(w.clone());
    for _ in 0..levels {
        let n = *sim.pick(&[1usize, 2, 7, 127, 128, 129, 4096, 5000]);
        out = Out(shared(TunnelOut(Serializer::new(out), n.max(1))));
    }
    let one = sim.draw(2) == 1;
    let mut session = one.then(|| Serializer::new(out.clone()));
    for r in &recs {
        let res = safe("write through a tunnel", || match &mut session {
            Some(s) => r.write_in(&Cx::NONE, s, &out),
            None => r.write(&out),
        })?;
        if let Err(e) = res {
            bail!("write-failed", "{} through a tunnel: {e}", r.label());
        }
    }
    w.borrow_mut().account();
    let data = w.borrow().out.clone();
    sim.hash_bytes("tunnel", &data);
    let r = sim_reader(sim, data, Policy::gen(sim));
    let mut input = In(r.clone());
    for _ in 0..levels {
        input = In(shared(TunnelIn(input, Vec::new(), 0)));
    }
    let mut j = input.clone();
    let mut session = one.then(|| Deserializer::new(&mut j));
    for rec in &recs {
        let res = safe("read through a tunnel", || match &mut session {
            Some(d) => rec.read_in(d, &input),
            None => rec.read(&input),
        })?;
        rec.check("interference", res)?;
    }
    drop(session);
    r.borrow_mut().account();
    sim.count_n("nested-sessions", levels as u64);
    Ok(())
}
