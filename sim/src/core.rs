//! Per-run context shared by everything that takes part in a simulated run.
use crate::tape::{Rng, Tape};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Viol {
        class: class.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($a:tt)*) => { return $crate::core::viol($class, format!($($a)*)) };
}

#[derive(Clone, Copy)]
pub struct Ev {
    pub what: &'static str,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub nontrivial: bool,
}

pub struct Core {
    pub tape: Tape,
    pub hash: u64,
    pub events: Vec<Ev>,
    pub notes: Vec<String>,
    pub n_events: u64,
    pub stats: Stats,
    pub keep_notes: bool,
    /// notes also go here as they are made: the process may die
    pub note_sink: Option<std::fs::File>,
}

impl Core {
    fn push_note(&mut self, s: String) {
        if let Some(f) = &mut self.note_sink {
            use std::io::Write;
            let _ = writeln!(f, "{}", s.replace('\n', " "));
        }
        self.notes.push(s);
    }
}

#[derive(Clone)]
pub struct Sim(pub Arc<Mutex<Core>>);

const MAX_EVENTS: usize = 400;

impl Sim {
    pub fn new(tape: Tape, keep_notes: bool) -> Sim {
        Sim(Arc::new(Mutex::new(Core {
            tape,
            hash: 0xcbf2_9ce4_8422_2325,
            events: Vec::new(),
            notes: Vec::new(),
            n_events: 0,
            stats: Stats::default(),
            keep_notes,
            note_sink: None,
        })))
    }
    pub fn core(&self) -> MutexGuard<'_, Core> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn draw(&self, n: u64) -> u64 {
        self.core().tape.draw(n)
    }
    /// number in lo..=hi, lo is simplest
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&self, per_mille: u64) -> bool {
        self.draw(1000) >= 1000 - per_mille
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    /// A local generator seeded by one tape entry; entry 0 yields `None` ("nothing happens").
    pub fn sub(&self) -> (u64, Rng) {
        let s = self.draw(0);
        (s, Rng::new(s))
    }
    pub fn ev(&self, what: &'static str, a: u64, b: u64, c: u64) {
        let mut k = self.core();
        let mut h = k.hash;
        for x in what.bytes() {
            h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        for x in [a, b, c] {
            h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
        }
        k.hash = h;
        k.n_events += 1;
        if k.keep_notes && k.events.len() < MAX_EVENTS {
            k.events.push(Ev { what, a, b, c });
            let s = format!("{what} {a} {b} {c}");
            k.push_note(s);
        }
    }
    /// Free-form trace line; never influences the run, evaluated only when a trace is wanted.
    pub fn note(&self, f: impl FnOnce() -> String) {
        let keep = self.core().keep_notes;
        if keep {
            let s = f();
            let mut k = self.core();
            if k.notes.len() < MAX_EVENTS * 2 {
                k.push_note(s);
            }
        }
    }
    pub fn hash_bytes(&self, what: &'static str, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.ev(what, b.len() as u64, h, 0);
    }
    pub fn count(&self, what: &'static str) {
        *self.core().stats.counts.entry(what).or_insert(0) += 1;
    }
    pub fn count_n(&self, what: &'static str, n: u64) {
        *self.core().stats.counts.entry(what).or_insert(0) += n;
    }
    pub fn nontrivial(&self) {
        self.core().stats.nontrivial = true;
    }
    pub fn add_steps(&self, n: u64) {
        self.core().stats.steps += n;
    }
}

/// Shortened hex for traces and messages.
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 48 {
            s.push_str(&format!("... ({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn short(s: String) -> String {
    if s.len() > 400 {
        let mut i = 400;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}... ({} chars)", &s[..i], s.len())
    } else {
        s
    }
}
