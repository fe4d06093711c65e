//! The simulated world for runs with several parties: every party is a real thread, but exactly one
//! runs at a time and the tape decides which, at every transport call. Time is simulated: it advances
//! by a tick per step and jumps to the next event when nobody can run.
use crate::core::*;
use crate::env::*;
use crate::tape::Rng;
use simrt::clock;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cond {
    Ready,
    Read(usize),
    Write(usize),
    Until(u64),
    /// had the turn, but waits for something outside the simulation (a lock another party holds)
    Stuck,
    Done,
}

pub struct Pipe {
    cap: usize,
    /// (arrival time, bytes)
    segs: VecDeque<(u64, Vec<u8>)>,
    buffered: usize,
    last: u64,
    lat: u64,
    rng: Rng,
    wclosed: bool,
    rclosed: bool,
    pub written: u64,
    pub read: u64,
}

struct St {
    sim: Sim,
    now: u64,
    cur: usize,
    act: Vec<Cond>,
    pipes: Vec<Pipe>,
    steps: u64,
    max_steps: u64,
    switches: u64,
    fail: Option<Viol>,
    dead: bool,
    /// kernel thread ids
    tids: Vec<u64>,
    stuck: u64,
    spins: u64,
    /// no more context switches than this (keeps long values affordable)
    tick: u64,
    /// a choice is made only once in so many steps
    hold: u64,
    /// the next choice is among the others
    pass: bool,
    pct: Option<(u64, Vec<u64>, Vec<u64>)>,
}

struct Inner {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    main: Condvar,
}

const NOBODY: usize = usize::MAX;

#[derive(Clone)]
pub struct World(Arc<Inner>);

/// A party's handle to the world.
#[derive(Clone)]
pub struct Ctx {
    w: World,
    pub me: usize,
}

#[derive(PartialEq)]
pub enum Stop {
    Done,
    /// other parties already had to wait for locks often enough
    Refused,
    /// the world has ended
    Over,
}

pub type Party<'a> = Box<dyn FnOnce(&Ctx) -> Res + Send + 'a>;

impl World {
    pub fn new(sim: &Sim, parties: usize, max_steps: u64) -> World {
        // Three scheduling styles: uniform choice at every step, seldom a choice at all (one party gets
        // far while the others stand still), or priorities with a few random priority changes (finds
        // orderings that need one party to be starved for long).
        let style = sim.draw(4);
        let hold = if style == 3 { *sim.pick(&[4u64, 8, 16, 40]) } else { 0 };
        let pct = if style == 2 {
            let (_, mut r) = sim.sub();
            let prio: Vec<u64> = (0..parties).map(|_| 1000 + r.below(1_000_000)).collect();
            let k = r.below(5);
            let pts = (0..k).map(|_| r.below(400)).collect();
            Some((0, prio, pts))
        } else {
            None
        };
        World(Arc::new(Inner {
            st: Mutex::new(St {
                sim: sim.clone(),
                now: 0,
                cur: NOBODY,
                act: vec![Cond::Ready; parties],
                pipes: Vec::new(),
                steps: 0,
                max_steps,
                switches: 0,
                fail: None,
                dead: false,
                tids: vec![0; parties],
                stuck: 0,
                spins: 0,
                tick: 1_000,
                hold,
                pass: false,
                pct,
            }),
            cvs: (0..parties).map(|_| Condvar::new()).collect(),
            main: Condvar::new(),
        }))
    }
    fn st(&self) -> MutexGuard<'_, St> {
        self.0.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn pipe(&self, sim: &Sim, cap: usize) -> usize {
        let lat = *sim.pick(&[0u64, 0, 5_000, 1_000_000, 200_000_000]);
        let (_, rng) = sim.sub();
        let mut s = self.st();
        s.pipes.push(Pipe {
            cap: cap.max(1),
            segs: VecDeque::new(),
            buffered: 0,
            last: 0,
            lat,
            rng,
            wclosed: false,
            rclosed: false,
            written: 0,
            read: 0,
        });
        s.pipes.len() - 1
    }
    /// How often parties had to wait for each other.
    pub fn stuck(&self) -> u64 {
        let s = self.st();
        s.stuck + s.spins / 50
    }
    pub fn written(&self, pipe: usize) -> u64 {
        self.st().pipes[pipe].written
    }
    pub fn consumed(&self, pipe: usize) -> u64 {
        self.st().pipes[pipe].read
    }

    /// Runs all parties to completion under the simulated scheduler.
    pub fn run(&self, parties: Vec<Party<'_>>) -> Res {
        assert_eq!(parties.len(), self.0.cvs.len());
        std::thread::scope(|sc| {
            for (i, p) in parties.into_iter().enumerate() {
                let ctx = Ctx {
                    w: self.clone(),
                    me: i,
                };
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        clock::enter();
                        ctx.w.st().tids[i] = tid();
                        let r = caught(|| {
                            ctx.wait_turn();
                            p(&ctx)
                        });
                        let v = match r {
                            Caught::Done(Ok(())) => None,
                            Caught::Done(Err(v)) => Some(v),
                            Caught::Crashed => None,
                            Caught::Stopped => None,
                            Caught::Livelock(m) => Some(Viol {
                                class: "livelock".into(),
                                msg: m,
                            }),
                            Caught::Panic(m) => Some(Viol {
                                class: "panic".into(),
                                msg: format!("party {i} panicked: {m}"),
                            }),
                        };
                        ctx.finish(v);
                    })
                    .expect("thread");
            }
            let mut s = self.st();
            s.pick(NOBODY);
            self.wake(&s);
            let (mut seen, mut asleep) = ((0, NOBODY), 0);
            while !s.act.iter().all(|c| *c == Cond::Done) {
                s = clock::real(|| self.0.main.wait_timeout(s, TICK).unwrap_or_else(|e| e.into_inner()).0);
                // Nothing in the simulation really sleeps: a party that has the turn and does is
                // waiting for a lock that some other party was stopped with.
                let at = (s.steps, s.cur);
                if s.dead || s.cur == NOBODY || at != seen || s.act[s.cur] == Cond::Done {
                    (seen, asleep) = (at, 0);
                    continue;
                }
                let tid = s.tids[s.cur];
                drop(s);
                let waits = self.waits(tid);
                s = self.st();
                if !waits || at != (s.steps, s.cur) {
                    (seen, asleep) = ((0, NOBODY), 0);
                    continue;
                }
                asleep += 1;
                if asleep < 2 {
                    continue;
                }
                asleep = 0;
                let me = s.cur;
                s.act[me] = Cond::Stuck;
                s.stuck += 1;
                s.cur = NOBODY;
                s = self.settle(s);
                if s.cur == NOBODY && !s.dead {
                    s.pick(me);
                    self.wake(&s);
                }
            }
        });
        let s = self.st();
        s.sim.add_steps(s.steps);
        s.sim.count_n("context-switches", s.switches);
        s.sim.count_n("parties-stopped-at-a-lock", s.stuck);
        s.sim.count_n("turns-passed-on-for-spinning", s.spins);
        s.sim.ev("world", s.steps, s.now, s.switches);
        match &s.fail {
            Some(v) => Err(v.clone()),
            None => Ok(()),
        }
    }
    /// Whether a thread sleeps at a lock that is none of the simulation's.
    fn waits(&self, tid: u64) -> bool {
        let at = |p: *const u8, n: usize| p as usize..p as usize + n;
        let own = [
            at(Arc::as_ptr(&self.0).cast(), std::mem::size_of::<Inner>()),
            at(self.0.cvs.as_ptr().cast(), std::mem::size_of_val(&self.0.cvs[..])),
        ];
        let Some(a) = futex(tid) else { return false };
        if own.iter().any(|r| r.contains(&a)) {
            return false;
        }
        // (not one that is held for a moment, as in an allocation)
        clock::real(|| std::thread::sleep(std::time::Duration::from_micros(50)));
        futex(tid) == Some(a)
    }
    /// Before a choice: parties that got what they were stuck at come back first, so that the choice
    /// does not depend on how quick they are.
    fn settle<'a>(&'a self, mut s: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        if s.dead || !s.act.contains(&Cond::Stuck) {
            return s;
        }
        let start = clock::real(std::time::Instant::now);
        while !s.dead && s.act.contains(&Cond::Stuck) {
            let waiting: Vec<(usize, u64)> =
                (0..s.act.len()).filter(|i| s.act[*i] == Cond::Stuck).map(|i| (i, s.tids[i])).collect();
            let others = (0..s.act.len()).any(|i| s.ready(s.act[i]) || s.when(s.act[i]).is_some());
            drop(s);
            let all_asleep = waiting.iter().all(|(_, t)| self.waits(*t));
            if !all_asleep || !others {
                clock::real(|| std::thread::sleep(std::time::Duration::from_micros(100)));
            }
            s = self.st();
            if all_asleep && others {
                break;
            }
            let long = clock::real(|| start.elapsed().as_secs() >= 5);
            if long && !others {
                // they can neither go on nor be unwound
                eprintln!("deadlock: every remaining party waits, some for a lock: {:?}", s.act);
                std::process::abort();
            }
            if long {
                break;
            }
        }
        s
    }
    fn wake(&self, s: &St) {
        if s.dead {
            for c in &self.0.cvs {
                c.notify_all();
            }
        } else if s.cur != NOBODY {
            self.0.cvs[s.cur].notify_all();
        }
    }
}

const TICK: std::time::Duration = std::time::Duration::from_millis(1);

fn tid() -> u64 {
    // "/proc/<pid>/task/<tid>"
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok())))
        .unwrap_or(0)
}

/// The lock a thread of this process sleeps at.
fn futex(tid: u64) -> Option<usize> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/syscall")).ok()?;
    let mut w = s.split_whitespace();
    // x86-64, 64-bit ARM
    let at = if cfg!(target_arch = "aarch64") { "98" } else { "202" };
    if w.next()? != at {
        return None;
    }
    usize::from_str_radix(w.next()?.strip_prefix("0x")?, 16).ok()
}

impl St {
    fn ready(&self, c: Cond) -> bool {
        match c {
            Cond::Ready => true,
            Cond::Until(t) => self.now >= t,
            Cond::Read(p) => {
                let p = &self.pipes[p];
                p.segs.front().map(|s| s.0 <= self.now).unwrap_or(p.wclosed)
            }
            Cond::Write(p) => {
                let p = &self.pipes[p];
                p.rclosed || p.buffered < p.cap
            }
            Cond::Done | Cond::Stuck => false,
        }
    }
    fn when(&self, c: Cond) -> Option<u64> {
        match c {
            Cond::Until(t) => Some(t),
            Cond::Read(p) => self.pipes[p].segs.front().map(|s| s.0),
            _ => None,
        }
    }
    /// Chooses the next party; `me` is the one giving up its turn.
    fn pick(&mut self, me: usize) {
        if self.dead {
            self.cur = NOBODY;
            return;
        }
        self.steps += 1;
        self.now += self.tick;
        clock::advance(self.tick);
        if self.steps > self.max_steps {
            self.die(Viol {
                class: "no-progress".into(),
                msg: format!(
                    "parties still busy after {} steps: {:?}",
                    self.max_steps, self.act
                ),
            });
            return;
        }
        let pass = std::mem::take(&mut self.pass);
        if let (true, Some((low, prio, _))) = (pass, &mut self.pct) {
            *low += 1;
            prio[me] = 1000u64.saturating_sub(*low);
        }
        loop {
            let mut ready: Vec<usize> = (0..self.act.len())
                .filter(|i| self.ready(self.act[*i]))
                .collect();
            if pass && ready.len() > 1 {
                ready.retain(|i| *i != me);
            }
            if ready.is_empty() {
                if let Some(t) = self.act.iter().filter_map(|c| self.when(*c)).min() {
                    clock::advance(t.saturating_sub(self.now));
                    self.now = self.now.max(t);
                    continue;
                }
                if !self.act.iter().all(|c| *c == Cond::Done) {
                    let m = format!("every remaining party waits: {:?}", self.act);
                    if self.act.contains(&Cond::Stuck) {
                        // those can neither go on nor be unwound
                        eprintln!("deadlock: {m}");
                        std::process::abort();
                    }
                    self.die(Viol {
                        class: "deadlock".into(),
                        msg: m,
                    });
                } else {
                    self.cur = NOBODY;
                }
                return;
            }
            let step = self.steps;
            let i = if let Some((low, prio, pts)) = &mut self.pct {
                let mut best = *ready.iter().max_by_key(|i| prio[**i]).unwrap();
                if pts.contains(&step) || step % 257 == 0 {
                    // demote the leader
                    *low += 1;
                    prio[best] = 1000u64.saturating_sub(*low);
                    best = *ready.iter().max_by_key(|i| prio[**i]).unwrap();
                }
                best
            } else if ready.len() == 1 {
                ready[0]
            } else if self.hold > 0 && ready.contains(&me) && self.sim.draw(self.hold) != self.hold - 1 {
                me
            } else {
                // the simplest choice is to go on with the current party
                let k = self.sim.draw(ready.len() as u64) as usize;
                let at = ready.iter().position(|i| *i == me).unwrap_or(0);
                ready[(at + k) % ready.len()]
            };
            if i != me {
                self.switches += 1;
                self.sim.ev("switch", i as u64, self.now, 0);
            }
            self.cur = i;
            return;
        }
    }
    fn die(&mut self, v: Viol) {
        if self.fail.is_none() {
            self.fail = Some(v);
        }
        self.dead = true;
        self.cur = NOBODY;
    }
}

impl Ctx {
    fn wait_turn(&self) {
        let mut s = self.w.st();
        while s.cur != self.me && !s.dead {
            s = self.w.0.cvs[self.me].wait(s).unwrap_or_else(|e| e.into_inner());
            if s.act[self.me] == Cond::Stuck {
                s.act[self.me] = Cond::Ready;
            }
        }
        let dead = s.dead;
        drop(s);
        if dead {
            std::panic::panic_any(Stopped);
        }
    }
    fn give(&self, c: Cond) {
        if !self.yield_to(c) {
            std::panic::panic_any(Stopped);
        }
    }
    /// Gives up the turn until `c` holds; `false` when the world has ended.
    fn yield_to(&self, c: Cond) -> bool {
        let mut s = self.w.st();
        if s.dead {
            return false;
        }
        if s.cur == self.me {
            s = self.w.settle(s);
            if s.dead {
                return false;
            }
            s.act[self.me] = c;
            s.pick(self.me);
            if s.cur == self.me {
                s.act[self.me] = Cond::Ready;
                return true;
            }
            self.w.wake(&s);
        } else {
            // was stuck: comes back without having the turn
            s.act[self.me] = c;
            s = self.resume_if_idle(s);
        }
        loop {
            if s.dead {
                return false;
            }
            if s.cur == self.me {
                break;
            }
            s = self.w.0.cvs[self.me].wait(s).unwrap_or_else(|e| e.into_inner());
            if s.act[self.me] == Cond::Stuck {
                // only seemed to be stuck
                s.act[self.me] = c;
                s = self.resume_if_idle(s);
            }
        }
        s.act[self.me] = Cond::Ready;
        true
    }
    fn resume_if_idle<'a>(&self, mut s: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        if s.cur == NOBODY && !s.dead {
            s.pick(NOBODY);
            self.w.wake(&s);
        }
        s
    }
    fn finish(&self, v: Option<Viol>) {
        let mut s = self.w.st();
        let turn = s.cur == self.me;
        if turn {
            s = self.w.settle(s);
        }
        s.act[self.me] = Cond::Done;
        if let Some(v) = v {
            if !s.dead {
                s.die(v);
            }
        }
        if turn || s.cur == NOBODY {
            s.pick(self.me);
        }
        self.w.wake(&s);
        if s.act.iter().all(|c| *c == Cond::Done) {
            self.w.0.main.notify_all();
        }
    }
    /// A point inside the code under test where any other party may run; does not unwind.
    /// `spins`: it may be waiting for another party in a loop.
    pub fn preempt(&self, spins: bool) -> Stop {
        {
            let mut s = self.w.st();
            // (noticing that a party waits for a lock takes real time)
            if !spins && (s.stuck >= 2 || s.spins >= 100) {
                return Stop::Refused;
            }
            s.pass = spins;
            s.spins += spins as u64;
        }
        if self.yield_to(Cond::Ready) {
            Stop::Done
        } else {
            Stop::Over
        }
    }
    /// A point where any other party may run.
    pub fn step(&self) {
        self.give(Cond::Ready);
    }
    pub fn sleep(&self, ns: u64) {
        let t = self.w.st().now + ns;
        self.give(Cond::Until(t));
    }
    pub fn now(&self) -> u64 {
        self.w.st().now
    }
    pub fn reader(&self, pipe: usize, policy: Policy) -> PipeReader {
        PipeReader {
            ctx: self.clone(),
            pipe,
            policy,
            need: None,
            over: None,
        }
    }
    pub fn writer(&self, pipe: usize, policy: Policy) -> PipeWriter {
        PipeWriter {
            ctx: self.clone(),
            pipe,
            policy,
        }
    }
}

pub struct PipeReader {
    ctx: Ctx,
    pipe: usize,
    policy: Policy,
    /// bytes the value being read still needs
    pub need: Option<usize>,
    pub over: Option<(usize, usize)>,
}

impl Read for PipeReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(n) = self.need {
            if buf.len() > n && self.over.is_none() {
                self.over = Some((n, buf.len()));
            }
        }
        self.ctx.step();
        if self.policy.interrupt() {
            self.ctx.w.st().sim.count("fault:interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        loop {
            {
                let mut s = self.ctx.w.st();
                let now = s.now;
                let p = &mut s.pipes[self.pipe];
                let mut avail = 0;
                for (t, b) in &p.segs {
                    if *t > now {
                        break;
                    }
                    avail += b.len();
                }
                if avail > 0 {
                    let want = buf.len().min(avail);
                    let n = self.policy.take(want);
                    let mut got = 0;
                    while got < n {
                        let seg = p.segs.front_mut().unwrap();
                        let k = seg.1.len().min(n - got);
                        buf[got..got + k].copy_from_slice(&seg.1[..k]);
                        got += k;
                        if k == seg.1.len() {
                            p.segs.pop_front();
                        } else {
                            seg.1.drain(..k);
                        }
                    }
                    p.buffered -= n;
                    p.read += n as u64;
                    if let Some(need) = &mut self.need {
                        *need = need.saturating_sub(n);
                    }
                    if n < buf.len() {
                        s.sim.count("fault:short-read");
                    }
                    return Ok(n);
                }
                if p.wclosed && p.segs.is_empty() {
                    return Ok(0);
                }
            }
            self.ctx.w.st().sim.count("fault:reader-stalled");
            self.ctx.give(Cond::Read(self.pipe));
        }
    }
}

impl Drop for PipeReader {
    fn drop(&mut self) {
        self.ctx.w.st().pipes[self.pipe].rclosed = true;
    }
}

pub struct PipeWriter {
    ctx: Ctx,
    pipe: usize,
    policy: Policy,
}

impl Write for PipeWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.ctx.step();
        if self.policy.interrupt() {
            self.ctx.w.st().sim.count("fault:interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        loop {
            {
                let mut s = self.ctx.w.st();
                let now = s.now;
                let p = &mut s.pipes[self.pipe];
                if p.rclosed {
                    s.sim.count("fault:io-error(BrokenPipe)");
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
                let room = p.cap - p.buffered;
                if room > 0 {
                    let want = buf.len().min(room);
                    let n = self.policy.take(want);
                    let lat = if p.lat == 0 { 0 } else { p.rng.below(p.lat) };
                    p.last = p.last.max(now + lat);
                    let t = p.last;
                    p.segs.push_back((t, buf[..n].to_vec()));
                    p.buffered += n;
                    p.written += n as u64;
                    if n < buf.len() {
                        s.sim.count("fault:short-write");
                    }
                    return Ok(n);
                }
            }
            self.ctx.w.st().sim.count("fault:writer-stalled");
            self.ctx.give(Cond::Write(self.pipe));
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for PipeWriter {
    fn drop(&mut self) {
        self.ctx.w.st().pipes[self.pipe].wclosed = true;
    }
}
