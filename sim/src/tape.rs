//! The choice tape: every decision of a simulated run (generated types and values, call splits,
//! faults, delays, hand-overs between threads, crash points) is one entry. A run is a pure function
//! of its tape and the code. Zero is always the simplest choice.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn chance(&mut self, per_mille: u64) -> bool {
        per_mille > 0 && self.below(1000) >= 1000 - per_mille.min(1000)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next() ^ b.rotate_left(17)
}

pub struct Tape {
    rng: Option<Rng>,
    pub data: Vec<u64>,
    pos: usize,
    /// values as actually used by this run (clamped); the minimal description of the run
    pub used: Vec<u64>,
    sink: Option<std::fs::File>,
}

impl Tape {
    pub fn record(seed: u64) -> Self {
        Tape {
            rng: Some(Rng::new(seed)),
            data: Vec::new(),
            pos: 0,
            used: Vec::new(),
            sink: None,
        }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape {
            rng: None,
            data,
            pos: 0,
            used: Vec::new(),
            sink: None,
        }
    }
    pub fn with_sink(mut self, f: std::fs::File) -> Self {
        self.sink = Some(f);
        self
    }
    /// A number below `n` (any number if `n` is 0).
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                if n == 0 {
                    r.next()
                } else {
                    r.below(n)
                }
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 {
                    v
                } else {
                    v.min(n - 1)
                }
            }
        };
        self.used.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
}
