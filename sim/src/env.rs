//! The simulated transport: readers and writers whose every call outcome (how many bytes, whether it
//! is interrupted, fails, hits the end, or the process dies inside it) is decided by the run's tape.
use crate::core::*;
use crate::tape::Rng;
use simrt::clock;
use std::any::Any;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// Process death inside a transport call: unwinds out of the codec; nothing more of it runs.
pub struct Crash;
/// The codec keeps calling the transport without end.
pub struct Livelock(pub String);
/// The simulated world was stopped (deadlock or step limit); reported by the world itself.
pub struct Stopped;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    One,
    Fixed(usize),
    Rand(usize),
}

/// How a transport splits and interrupts calls that do not fail.
#[derive(Clone, Debug)]
pub struct Policy {
    pub chunk: Chunk,
    /// interruptions per thousand calls, and longest burst
    pub eintr: u64,
    pub burst: u64,
    pub rng: Rng,
    left: u64,
    pace: Pace,
}

/// How long calls take, and what the wall clock does meanwhile.
#[derive(Clone, Debug)]
struct Pace {
    /// 0: no time, 1: microseconds, 2: and up to minutes, 3: and up to hours, 4: and the wall clock is set
    style: u64,
    /// per thousand calls, and how many more
    often: u64,
    left: u64,
    rng: Rng,
}
impl Pace {
    fn new(seed: u64) -> Pace {
        let mut rng = Rng::new(crate::tape::mix(seed, 0x7061_6365));
        let style = match rng.below(8) {
            _ if seed == 0 => 0,
            0..=3 => 1,
            4 | 5 => 2,
            6 => 3,
            _ => 4,
        };
        if style > 0 {
            clock::set_wall(match rng.below(12) {
                // never set, before 1970, as other programs' counters wrap, or anything
                0 => 0,
                1 => -1_000_000_000 - rng.below(1 << 58) as i64,
                2 => 2_147_483_647_000_000_000,
                3 => rng.below(1 << 61) as i64,
                // between 2020 and 2030
                _ => 1_577_836_800_000_000_000 + rng.below(315_360_000_000_000_000) as i64,
            });
        }
        let often = [500, 100, 10][rng.below(3) as usize];
        let left = 1 + rng.below(8);
        Pace { style, often, left, rng }
    }
    /// Time passes in a call.
    fn call(&mut self) {
        if self.style == 0 {
            return;
        }
        let r = &mut self.rng;
        clock::advance(1 + r.below(20_000));
        if self.style == 1 || self.left == 0 || !r.chance(self.often) {
            return;
        }
        self.left -= 1;
        match r.below(self.style) {
            0 => clock::advance(r.below(1_000_000_000)),
            1 => clock::advance(r.below(100_000_000_000)),
            2 => clock::advance(r.below(10_000_000_000_000)),
            _ => clock::jump(match r.below(6) {
                // leap second, summer time, a flat battery, a far future
                0 => -1_000_000_000,
                1 => -3_600_000_000_000,
                2 => -(1 << 61),
                3 => 1 << 60,
                4 => 86_400_000_000_000,
                _ => r.below(1 << 50) as i64 - (1 << 49),
            }),
        }
    }
}

impl Policy {
    pub fn smooth() -> Policy {
        Policy {
            chunk: Chunk::Full,
            eintr: 0,
            burst: 0,
            rng: Rng::new(0),
            left: 0,
            pace: Pace::new(0),
        }
    }
    pub fn gen(sim: &Sim) -> Policy {
        let chunk = match sim.draw(8) {
            0 => Chunk::Full,
            1 => Chunk::One,
            2 => Chunk::Fixed(sim.usize(2, 9)),
            3 => Chunk::Fixed(*sim.pick(&[31usize, 32, 33, 64, 127, 128, 129, 1024, 4095, 4096, 4097])),
            4 | 5 => Chunk::Rand(sim.usize(2, 12)),
            6 => Chunk::Rand(300),
            _ => Chunk::Rand(6000),
        };
        let (eintr, burst) = match sim.draw(4) {
            0 | 1 => (0, 0),
            2 => (40, 2),
            _ => (sim.range(100, 500), sim.range(1, 12)),
        };
        let (seed, rng) = sim.sub();
        Policy {
            chunk,
            eintr,
            burst,
            rng,
            left: 0,
            pace: Pace::new(seed),
        }
    }
    /// A call is made; should it be interrupted?
    pub fn interrupt(&mut self) -> bool {
        self.pace.call();
        if self.left > 0 {
            self.left -= 1;
            return true;
        }
        if self.rng.chance(self.eintr) {
            self.left = self.rng.below(self.burst.max(1));
            return true;
        }
        false
    }
    /// How many of `want` bytes this call moves (at least 1).
    pub fn take(&mut self, want: usize) -> usize {
        let n = match self.chunk {
            Chunk::Full => want,
            Chunk::One => 1,
            Chunk::Fixed(n) => n,
            Chunk::Rand(n) => 1 + self.rng.below(n as u64) as usize,
        };
        n.min(want).max(1)
    }
}

/// A run that goes on.
pub struct InRun;
impl Drop for InRun {
    fn drop(&mut self) {
        clock::leave();
    }
}
/// The run's clocks start; this thread lives in simulated time from here on.
pub fn start_clock() -> InRun {
    clock::reset();
    clock::enter();
    InRun
}

pub const HARD: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::NotFound,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::Unsupported,
];

pub fn kind_name(k: io::ErrorKind) -> &'static str {
    match k {
        io::ErrorKind::Other => "fault:io-error(Other)",
        io::ErrorKind::BrokenPipe => "fault:io-error(BrokenPipe)",
        io::ErrorKind::ConnectionReset => "fault:io-error(ConnectionReset)",
        io::ErrorKind::ConnectionAborted => "fault:io-error(ConnectionAborted)",
        io::ErrorKind::NotConnected => "fault:io-error(NotConnected)",
        io::ErrorKind::TimedOut => "fault:io-error(TimedOut)",
        io::ErrorKind::WouldBlock => "fault:io-error(WouldBlock)",
        io::ErrorKind::PermissionDenied => "fault:io-error(PermissionDenied)",
        io::ErrorKind::InvalidData => "fault:io-error(InvalidData)",
        io::ErrorKind::InvalidInput => "fault:io-error(InvalidInput)",
        io::ErrorKind::WriteZero => "fault:io-error(WriteZero)",
        io::ErrorKind::UnexpectedEof => "fault:io-error(UnexpectedEof)",
        io::ErrorKind::OutOfMemory => "fault:io-error(OutOfMemory)",
        io::ErrorKind::Interrupted => "fault:interrupted",
        _ => "fault:io-error(rest)",
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the call fails
    Err(io::ErrorKind),
    /// reader: end of input; writer: accepts nothing (full disk, zero-length write)
    Zero,
    /// the process dies inside the call
    Crash,
}

pub fn gen_fault(sim: &Sim) -> Fault {
    match sim.draw(6) {
        0 => Fault::Err(io::ErrorKind::Other),
        1 | 2 | 3 => Fault::Err(*sim.pick(HARD)),
        4 => Fault::Zero,
        _ => Fault::Crash,
    }
}

fn count_fault(sim: &Sim, f: Fault, write: bool) {
    sim.count(match f {
        Fault::Err(k) => kind_name(k),
        Fault::Zero if write => "fault:write-zero",
        Fault::Zero => "fault:premature-end",
        Fault::Crash if write => "fault:crash-in-write",
        Fault::Crash => "fault:crash-in-read",
    });
}

/// A hook run at every transport call (yield points, nested sessions).
pub type Hook = Box<dyn FnMut()>;

pub struct SimReader {
    pub sim: Sim,
    pub data: Vec<u8>,
    pub pos: usize,
    pub policy: Policy,
    /// fault when everything before this offset was delivered
    pub fault: Option<(usize, Fault)>,
    /// the fault stays (every later call fails the same way) instead of healing
    pub sticky: bool,
    pub fired: u64,
    /// bytes handed out after the fault fired
    pub after_fault_bytes: u64,
    pub after_fault_calls: u64,
    /// no request may reach past this offset
    pub fence: Option<usize>,
    pub over: Option<(usize, usize)>,
    pub calls: u64,
    pub zero_len_calls: u64,
    pub max_calls: u64,
    pub hook: Option<Hook>,
    intr: u64,
    parts: u64,
}

impl SimReader {
    pub fn new(sim: &Sim, data: Vec<u8>, policy: Policy) -> Self {
        let max_calls = 40 * data.len() as u64 + 100_000;
        SimReader {
            sim: sim.clone(),
            data,
            pos: 0,
            policy,
            fault: None,
            sticky: true,
            fired: 0,
            after_fault_bytes: 0,
            after_fault_calls: 0,
            fence: None,
            over: None,
            calls: 0,
            zero_len_calls: 0,
            max_calls,
            hook: None,
            intr: 0,
            parts: 0,
        }
    }
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    /// Add the call statistics to the run (once per reader).
    pub fn account(&mut self) {
        self.sim.add_steps(self.calls);
        if self.intr > 0 {
            self.sim.count_n("fault:interrupted", self.intr);
        }
        if self.parts > 0 {
            self.sim.count_n("fault:short-read", self.parts);
        }
        self.intr = 0;
        self.parts = 0;
        self.calls = 0;
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(h) = &mut self.hook {
            h();
        }
        self.calls += 1;
        if self.calls > self.max_calls {
            std::panic::panic_any(Livelock(format!(
                "{} calls to the reader for {} bytes",
                self.calls,
                self.data.len()
            )));
        }
        if self.fired > 0 {
            self.after_fault_calls += 1;
        }
        if buf.is_empty() {
            self.zero_len_calls += 1;
            return Ok(0);
        }
        if let Some(f) = self.fence {
            if self.pos + buf.len() > f && self.over.is_none() {
                self.over = Some((self.pos, buf.len()));
            }
        }
        if self.policy.interrupt() {
            self.intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, f)) = self.fault {
            if self.pos >= at && (self.fired == 0 || self.sticky) {
                if self.fired == 0 {
                    self.sim.ev("rfault", self.pos as u64, self.calls, 0);
                    count_fault(&self.sim, f, false);
                }
                self.fired += 1;
                match f {
                    Fault::Err(k) => return Err(k.into()),
                    Fault::Zero => return Ok(0),
                    Fault::Crash => std::panic::panic_any(Crash),
                }
            }
            if self.fired == 0 {
                end = end.min(at);
            }
        }
        let avail = end - self.pos;
        if avail == 0 {
            return Ok(0);
        }
        let want = buf.len().min(avail);
        let n = self.policy.take(want);
        if n < want {
            self.parts += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if self.fired > 0 {
            self.after_fault_bytes += n as u64;
        }
        Ok(n)
    }
}

pub struct SimWriter {
    pub sim: Sim,
    pub out: Vec<u8>,
    pub policy: Policy,
    pub fault: Option<(usize, Fault)>,
    pub sticky: bool,
    pub fired: u64,
    pub after_fault_bytes: u64,
    pub calls: u64,
    pub flushes: u64,
    pub max_calls: u64,
    pub hook: Option<Hook>,
    intr: u64,
    parts: u64,
}

impl SimWriter {
    pub fn new(sim: &Sim, policy: Policy) -> Self {
        SimWriter {
            sim: sim.clone(),
            out: Vec::new(),
            policy,
            fault: None,
            sticky: true,
            fired: 0,
            after_fault_bytes: 0,
            calls: 0,
            flushes: 0,
            max_calls: 100_000_000,
            hook: None,
            intr: 0,
            parts: 0,
        }
    }
    pub fn account(&mut self) {
        self.sim.add_steps(self.calls);
        if self.intr > 0 {
            self.sim.count_n("fault:interrupted", self.intr);
        }
        if self.parts > 0 {
            self.sim.count_n("fault:short-write", self.parts);
        }
        self.intr = 0;
        self.parts = 0;
        self.calls = 0;
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(h) = &mut self.hook {
            h();
        }
        self.calls += 1;
        if self.calls > self.max_calls {
            std::panic::panic_any(Livelock(format!("{} calls to the writer", self.calls)));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.policy.interrupt() {
            self.intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut room = usize::MAX;
        if let Some((at, f)) = self.fault {
            if self.out.len() >= at && (self.fired == 0 || self.sticky) {
                if self.fired == 0 {
                    self.sim.ev("wfault", self.out.len() as u64, self.calls, 0);
                    count_fault(&self.sim, f, true);
                }
                self.fired += 1;
                match f {
                    Fault::Err(k) => return Err(k.into()),
                    Fault::Zero => return Ok(0),
                    Fault::Crash => std::panic::panic_any(Crash),
                }
            }
            if self.fired == 0 {
                room = at - self.out.len();
            }
        }
        let want = buf.len().min(room);
        let n = self.policy.take(want);
        if n < buf.len() {
            self.parts += 1;
        }
        self.out.extend_from_slice(&buf[..n]);
        if self.fired > 0 {
            self.after_fault_bytes += n as u64;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}

/// Handles to a transport. They forward only the required methods, so that the defaults
/// (`read_exact`, `write_all`, ...) of std drive the simulated calls.
#[derive(Clone)]
pub struct Out(pub Rc<RefCell<dyn Write>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = simrt::pause();
        let r = self.0.borrow_mut().write(b);
        simrt::resume(n);
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let n = simrt::pause();
        let r = self.0.borrow_mut().flush();
        simrt::resume(n);
        r
    }
}
#[derive(Clone)]
pub struct In(pub Rc<RefCell<dyn Read>>);
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = simrt::pause();
        let r = self.0.borrow_mut().read(b);
        simrt::resume(n);
        r
    }
}
pub fn shared<T>(t: T) -> Rc<RefCell<T>> {
    Rc::new(RefCell::new(t))
}

// ---------------------------------------------------------------- guarded calls

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = i
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("DLHNSIM_PANICS").is_some() {
            eprintln!("panic: {m}{loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}

pub enum Caught<T> {
    Done(T),
    Crashed,
    Stopped,
    Livelock(String),
    Panic(String),
}

pub fn classify(p: Box<dyn Any + Send>) -> Caught<()> {
    if p.is::<Crash>() {
        Caught::Crashed
    } else if p.is::<Stopped>() {
        Caught::Stopped
    } else if let Some(l) = p.downcast_ref::<Livelock>() {
        Caught::Livelock(l.0.clone())
    } else {
        Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
    }
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Caught::Done(v),
        Err(p) => match classify(p) {
            Caught::Crashed => Caught::Crashed,
            Caught::Stopped => Caught::Stopped,
            Caught::Livelock(l) => Caught::Livelock(l),
            Caught::Panic(m) => Caught::Panic(m),
            Caught::Done(()) => unreachable!(),
        },
    }
}

/// Runs one call into the code under test: a panic or a livelock is a violation, a simulated crash is
/// `None`.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
    match caught(f) {
        Caught::Done(v) => Ok(Some(v)),
        Caught::Crashed => Ok(None),
        Caught::Stopped => std::panic::panic_any(Stopped),
        Caught::Livelock(l) => viol("livelock", format!("{what}: {l}")),
        Caught::Panic(m) => viol("panic", format!("{what} panicked: {m}")),
    }
}

/// As `guarded`, where no crash is injected.
pub fn safe<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match guarded(what, f)? {
        Some(v) => Ok(v),
        None => viol("harness", format!("{what}: unexpected simulated crash")),
    }
}
