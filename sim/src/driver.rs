//! Runs a property's scenario over many seeds in worker processes, notices violations, process deaths
//! and hangs, shrinks and records them, replays recordings, and writes the evidence.
use crate::alloc;
use crate::core::*;
use crate::env::{caught, install_panic_hook, Caught};
use crate::scen::{self, Prop};
use crate::tape::{mix, Tape};
use simrt::clock;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Memory a worker may use before its allocations fail.
const CAP: usize = 2 << 30;
/// Stack of the thread that runs the scenario.
const STACK: usize = 8 << 20;
/// A run that takes longer than this is examined as a hang.
const SLOW: Duration = Duration::from_secs(25);
/// ... and is one if, alone, it does not end within this.
const HANG: Duration = Duration::from_secs(60);
/// Runs repeated to confirm that a seed fixes the whole execution.
const TWICE: u64 = 64;

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, fnv(prop)), idx)
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub used: Vec<u64>,
    pub hash: u64,
    pub stats: Stats,
    pub notes: Vec<String>,
}

/// One simulated run in this process.
pub fn one(p: &Prop, tape: Tape, notes: bool) -> Outcome {
    one_to(p, tape, notes, None)
}

pub fn one_to(p: &Prop, tape: Tape, notes: bool, sink: Option<fs::File>) -> Outcome {
    let sim = Sim::new(tape, notes);
    sim.core().note_sink = sink;
    let r = {
        let _t = crate::env::start_clock();
        caught(|| (p.run)(&sim))
    };
    let t = clock::used();
    let viol = match r {
        Caught::Done(Ok(())) => None,
        Caught::Done(Err(v)) => Some(v),
        Caught::Crashed | Caught::Stopped => Some(Viol {
            class: "harness".into(),
            msg: "a simulated stop escaped".into(),
        }),
        Caught::Livelock(m) => Some(Viol { class: "livelock".into(), msg: m }),
        Caught::Panic(m) => {
            // A panic inside the code under test, or in the harness itself.
            let class = if m.contains("/verif/sim/") || m.contains(" at src/") { "harness" } else { "panic" };
            Some(Viol { class: class.into(), msg: m })
        }
    };
    for (k, n) in [
        ("fault:stall(over 1 s)", t.stalls),
        ("fault:wall-clock-set", t.jumps),
        ("looks-at-the-clock", t.reads),
        ("sleeps", t.sleeps),
        ("entropy-drawn", t.entropy),
    ] {
        if n > 0 {
            sim.count_n(k, n);
        }
    }
    sim.note(|| format!("clock {t:?}"));
    let mut k = sim.core();
    k.stats.sim_ns = t.now;
    Outcome {
        viol,
        used: std::mem::take(&mut k.tape.used),
        hash: k.hash,
        stats: std::mem::take(&mut k.stats),
        notes: std::mem::take(&mut k.notes),
    }
}

fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .unwrap_or_else(|_| std::process::exit(70))
    })
}

pub fn find(id: &str) -> Prop {
    scen::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- worker

struct Job {
    id: String,
    seed: u64,
    from: u64,
    step: u64,
    runs: u64,
    secs: u64,
    out: PathBuf,
}

fn worker(j: Job) -> i32 {
    let p = find(&j.id);
    let status = fs::File::create(j.out.with_extension("status")).expect("status file");
    let end = Instant::now() + Duration::from_secs(j.secs);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let (mut runs, mut nontrivial, mut steps, mut ns) = (0u64, 0u64, 0u64, 0u128);
    let (mut twice, mut mismatch) = (0u64, 0u64);
    let mut found: Option<(u64, Outcome)> = None;
    let mut idx = j.from;
    while idx < j.runs {
        if runs % 16 == 0 && Instant::now() > end {
            break;
        }
        let _ = status.write_all_at(&idx.to_le_bytes(), 0);
        let s = run_seed(j.seed, &j.id, idx);
        let sample = samples.len() < 2;
        let o = one(&p, Tape::record(s), sample);
        runs += 1;
        if o.viol.is_some() {
            found = Some((idx, o));
            break;
        }
        if twice < TWICE {
            twice += 1;
            let q = one(&p, Tape::replay(o.used.clone()), false);
            if q.hash != o.hash || q.used != o.used || q.stats.sim_ns != o.stats.sim_ns {
                mismatch += 1;
            }
        }
        steps += o.stats.steps;
        ns += o.stats.sim_ns as u128;
        if o.stats.nontrivial {
            nontrivial += 1;
            hashes.insert(o.hash);
            if sample {
                samples.push(format!("run {idx} (seed {s:#x}): {}", brief(&o.notes)));
            }
        }
        for (k, v) in o.stats.counts {
            *counts.entry(k.to_string()).or_insert(0) += v;
        }
        idx += j.step;
    }
    let mut t = String::new();
    t.push_str(&format!("runs {runs}\nnontrivial {nontrivial}\nsteps {steps}\nms {}\ntwice {twice}\nmismatch {mismatch}\nnext {idx}\n", ns / 1_000_000));
    for (k, v) in &counts {
        t.push_str(&format!("count {v} {k}\n"));
    }
    for s in &samples {
        t.push_str(&format!("sample {}\n", s.replace('\n', " ")));
    }
    if let Some((i, o)) = &found {
        let v = o.viol.as_ref().unwrap();
        t.push_str(&format!("viol {i} {} {}\n", v.class, v.msg.replace('\n', " ")));
    }
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(j.out.with_extension("hashes"), b).expect("hashes");
    fs::write(j.out.with_extension("result"), t).expect("result");
    0
}

fn brief(notes: &[String]) -> String {
    let mut s = String::new();
    for n in notes.iter().take(24) {
        if !s.is_empty() {
            s.push_str("; ");
        }
        s.push_str(n);
        if s.len() > 900 {
            break;
        }
    }
    let mut i = s.len().min(1000);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    s.truncate(i);
    s
}

// ---------------------------------------------------------------- single runs in a fresh process

#[derive(Clone, Debug, PartialEq)]
enum End {
    Clean,
    Viol(String, String),
    Died(String),
    Hung,
}

impl End {
    fn class(&self) -> Option<&str> {
        match self {
            End::Clean => None,
            End::Viol(c, _) => Some(c),
            End::Died(_) => Some("abort"),
            End::Hung => Some("hang"),
        }
    }
    fn msg(&self) -> String {
        match self {
            End::Clean => String::new(),
            End::Viol(_, m) => m.clone(),
            End::Died(m) => m.clone(),
            End::Hung => format!("the run does not end ({} s)", HANG.as_secs()),
        }
    }
}

struct Fresh {
    end: End,
    used: Vec<u64>,
    hash: u64,
    notes: Vec<String>,
}

/// One run, from a seed or from a tape, alone in a process.
fn fresh(id: &str, seed: Option<u64>, tape: &[u64], dir: &Path, limit: Duration) -> Fresh {
    fresh_after(id, &[], seed, tape, dir, limit)
}

/// One run in a process that has executed the runs `before` (seeds) first.
fn fresh_after(id: &str, before: &[u64], seed: Option<u64>, tape: &[u64], dir: &Path, limit: Duration) -> Fresh {
    let tin = dir.join("single.in");
    let sink = dir.join("single.tape");
    let out = dir.join("single.out");
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&sink);
    let mut b = Vec::new();
    for x in tape {
        b.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(&tin, b).expect("tape");
    let pre = dir.join("single.pre");
    fs::write(&pre, bytes(before)).expect("prelude");
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("single").arg(id).arg(seed.map(|s| s.to_string()).unwrap_or("-".into()));
    c.arg(&tin).arg(&sink).arg(&out).arg(&pre);
    c.stdout(Stdio::null()).stderr(Stdio::piped());
    let mut ch = c.spawn().expect("spawn");
    let mut err = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.by_ref().take(4000).read_to_end(&mut s);
        let _ = std::io::copy(&mut err, &mut std::io::sink());
        String::from_utf8_lossy(&s).into_owned()
    });
    let st = wait(&mut ch, limit);
    let stderr = t.join().unwrap_or_default();
    let used: Vec<u64> = fs::read(&sink)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let text = fs::read_to_string(&out).unwrap_or_default();
    let mut f = Fresh { end: End::Clean, used, hash: 0, notes: vec![] };
    if text.is_empty() {
        let n = fs::read(dir.join("single.out.notes")).unwrap_or_default();
        f.notes = String::from_utf8_lossy(&n).lines().map(|l| l.to_string()).collect();
    }
    match st {
        None => f.end = End::Hung,
        Some(st) if st.code() == Some(0) => {
            for l in text.lines() {
                if let Some(h) = l.strip_prefix("hash ") {
                    f.hash = h.parse().unwrap_or(0);
                } else if let Some(v) = l.strip_prefix("viol ") {
                    let (c, m) = v.split_once(' ').unwrap_or((v, ""));
                    f.end = End::Viol(c.into(), m.into());
                } else if let Some(n) = l.strip_prefix("note ") {
                    f.notes.push(n.into());
                }
            }
        }
        Some(st) => {
            let how = match st.signal() {
                Some(6) => "aborted (signal 6)".to_string(),
                Some(11) => "crashed (signal 11)".to_string(),
                Some(s) => format!("killed by signal {s}"),
                None => format!("exited with {:?}", st.code()),
            };
            let first: Vec<&str> = stderr.lines().filter(|l| !l.trim().is_empty()).take(3).collect();
            f.end = End::Died(format!("the process {how}: {}", first.join(" / ")));
        }
    }
    f
}

fn wait(ch: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + limit;
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if Instant::now() > end {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

fn single(a: &[String]) -> i32 {
    let p = find(&a[0]);
    for s in unbytes(&fs::read(&a[5]).unwrap_or_default()) {
        let o = one(&p, Tape::record(s), false);
        if let Some(v) = o.viol {
            let t = format!("hash {}\nviol {} {}\n", o.hash, v.class, v.msg.replace('\n', " "));
            fs::write(&a[4], t).expect("out");
            return 0;
        }
    }
    let tape = match a[1].parse::<u64>() {
        Ok(s) => Tape::record(s),
        Err(_) => Tape::replay(
            fs::read(&a[2])
                .expect("tape")
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect(),
        ),
    };
    let tape = tape.with_sink(fs::File::create(&a[3]).expect("sink"));
    let o = one_to(&p, tape, true, fs::File::create(format!("{}.notes", a[4])).ok());
    let mut t = format!("hash {}\n", o.hash);
    if let Some(v) = &o.viol {
        t.push_str(&format!("viol {} {}\n", v.class, v.msg.replace('\n', " ")));
    }
    for n in &o.notes {
        t.push_str(&format!("note {}\n", n.replace('\n', " ")));
    }
    fs::write(&a[4], t).expect("out");
    0
}

// ---------------------------------------------------------------- shrinking

struct Budget {
    end: Instant,
    evals: u64,
}

/// Makes the tape shorter and its entries smaller while the same kind of violation remains.
fn shrink(mut best: Vec<u64>, b: &mut Budget, test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, b: &mut Budget| -> bool {
        if b.evals == 0 || Instant::now() > b.end {
            return false;
        }
        b.evals -= 1;
        if let Some(mut used) = test(cand) {
            while used.last() == Some(&0) {
                used.pop();
            }
            let smaller = used.len() < best.len() || (used.len() == best.len() && used < *best);
            if smaller {
                *best = used;
                return true;
            }
        }
        false
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let start = best.clone();
        // remove blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if !attempt(&c, &mut best, b) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt(&c, &mut best, b);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller entries
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                // smallest value that still fails, by bisection
                let mut n = 0;
                while lo < hi && n < 12 {
                    n += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt(&c, &mut best, b) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            // one entry less before this one, with this one reduced (e.g. a count and its member)
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(&c, &mut best, b);
            }
            i += 1;
        }
        if best == start || b.evals == 0 || Instant::now() > b.end {
            return best;
        }
    }
}

// ---------------------------------------------------------------- JSON (output, and our own replay files)

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let m = format!("\"{k}\":");
    let i = t.find(&m)? + m.len();
    Some(t[i..].trim_start())
}
fn field_str(t: &str, k: &str) -> Option<String> {
    let t = field(t, k)?.strip_prefix('"')?;
    Some(t[..t.find('"')?].to_string())
}
fn field_u64(t: &str, k: &str) -> Option<u64> {
    let t = field(t, k)?;
    let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
    t[..e].parse().ok()
}
fn field_list(t: &str, k: &str) -> Option<Vec<u64>> {
    let t = field(t, k)?.strip_prefix('[')?;
    let t = &t[..t.find(']')?];
    t.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}

#[allow(clippy::too_many_arguments)]
fn replay_file(root: &Path, id: &str, seed: u64, idx: u64, orig: usize, f: &Fresh, tape: &[u64], before: &[u64]) -> PathBuf {
    let class = f.end.class().unwrap_or("none");
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n \"class\": {},\n", js(id), js(class)));
    s.push_str(&format!(" \"violation\": {},\n", js(&f.end.msg())));
    s.push_str(&format!(" \"verif_seed\": {seed},\n \"run\": {idx},\n \"run_seed\": {},\n", run_seed(seed, id, idx)));
    s.push_str(&format!(" \"event_hash\": {},\n", f.hash));
    let mut m = format!("{orig} decisions reduced to {}", tape.len());
    if !before.is_empty() {
        m = format!("shows only after {} earlier runs in the same process (reduced from all of them)", before.len());
    }
    s.push_str(&format!(" \"minimised\": {},\n", js(&m)));
    s.push_str(&format!(" \"replay\": {},\n", js("./check --replay <this file>")));
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    s.push_str(&format!(" \"tape\": [{}],\n", t.join(",")));
    let t: Vec<String> = before.iter().map(|x| x.to_string()).collect();
    s.push_str(&format!(" \"runs_before\": [{}],\n", t.join(",")));
    let n: Vec<String> = f.notes.iter().take(300).map(|x| format!("  {}", js(x))).collect();
    s.push_str(&format!(" \"trace\": [\n{}\n ]\n}}\n", n.join(",\n")));
    let dir = root.join("replays");
    fs::create_dir_all(&dir).expect("replays");
    let path = dir.join(format!("{id}-{seed}-{idx}.json"));
    fs::write(&path, s).expect("replay");
    path
}

fn replay(root: &Path, file: &str) -> i32 {
    let t = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let (id, class, tape) = match (field_str(&t, "property"), field_str(&t, "class"), field_list(&t, "tape")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => {
            eprintln!("{file}: not a replay file");
            return 2;
        }
    };
    let dir = scratch(root);
    let before = field_list(&t, "runs_before").unwrap_or_default();
    let f = fresh_after(&id, &before, None, &tape, &dir, HANG * 5);
    let _ = fs::remove_dir_all(&dir);
    for n in &f.notes {
        println!("  {n}");
    }
    match f.end.class() {
        Some(c) => {
            println!("{id}: {c}: {}", f.end.msg());
            let same = c == class && field_u64(&t, "event_hash").map(|h| h == f.hash).unwrap_or(true);
            println!("{}", if same { "reproduced exactly" } else { "fails, but differently from the recording" });
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("{id}: the recorded run shows no violation on this tree");
            0
        }
    }
}

fn scratch(root: &Path) -> PathBuf {
    let d = root.join("target").join(format!("run-{}", std::process::id()));
    fs::create_dir_all(&d).expect("scratch");
    d
}

// ---------------------------------------------------------------- the search

struct W {
    ch: Child,
    out: PathBuf,
    k: u64,
    from: u64,
    last: u64,
    since: Instant,
    done: bool,
}

fn spawn(id: &str, seed: u64, k: u64, from: u64, step: u64, runs: u64, secs: u64, dir: &Path) -> W {
    let out = dir.join(format!("w{k}-{from}"));
    let ch = Command::new(std::env::current_exe().expect("exe"))
        .arg("worker")
        .arg(id)
        .args([seed, from, step, runs, secs].map(|x| x.to_string()))
        .arg(&out)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    W { ch, out, k, from, last: u64::MAX, since: Instant::now(), done: false }
}

fn progress(out: &Path, from: u64) -> u64 {
    fs::read(out.with_extension("status"))
        .ok()
        .and_then(|b| b.try_into().ok())
        .map(u64::from_le_bytes)
        .unwrap_or(from)
}

/// First run of the worker process that executed run `i`.
fn starts(ws: &[W], i: u64, jobs: u64) -> u64 {
    ws.iter().filter(|w| w.k == i % jobs && w.from <= i).map(|w| w.from).max().unwrap_or(i % jobs)
}

/// Run `i` failed in a worker but not alone: something an earlier run left behind in the process has an
/// effect on it. Repeats the worker's history and reduces it to the runs that are needed.
fn history(id: &str, seed: u64, i: u64, jobs: u64, from: u64, dir: &Path) -> Option<(u64, Fresh, Vec<u64>)> {
    let t0 = Instant::now();
    let this = run_seed(seed, id, i);
    let mut all = Vec::new();
    let mut n = 0;
    let mut x = from;
    while x < i {
        let s = run_seed(seed, id, x);
        all.push(s);
        if n < TWICE {
            all.push(s);
        }
        n += 1;
        x += jobs;
    }
    let limit = Duration::from_secs(300);
    let attempt = |before: &[u64]| {
        let f = fresh_after(id, before, Some(this), &[], dir, limit);
        // a failure in one of the earlier runs would be another one
        (f.end.class().is_some() && f.end.class() != Some("harness") && !f.used.is_empty()).then_some(f)
    };
    let mut len = 1usize;
    let (mut f, mut before) = loop {
        let l = len.min(all.len());
        if let Some(f) = attempt(&all[all.len() - l..]) {
            break (f, all[all.len() - l..].to_vec());
        }
        if l == all.len() || t0.elapsed() > limit {
            return None;
        }
        len *= 4;
    };
    let class = f.end.class().unwrap().to_string();
    let mut size = (before.len() / 2).max(1);
    while t0.elapsed() < Duration::from_secs(60) {
        let mut k = 0;
        let mut less = false;
        while k < before.len() && t0.elapsed() < Duration::from_secs(60) {
            let e = (k + size).min(before.len());
            let mut c = before.clone();
            c.drain(k..e);
            match attempt(&c) {
                Some(g) if g.end.class() == Some(&class) => {
                    before = c;
                    f = g;
                    less = true;
                }
                _ => k += size,
            }
        }
        if size == 1 && !less {
            break;
        }
        size = (size / 2).max(1);
    }
    Some((i, f, before))
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}

fn check(root: &Path, id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let (mut runs, secs) = match tier {
        "thorough" => (p.runs.1, 3 * 3600),
        _ => (p.runs.0, 420),
    };
    if let Some(n) = env_u64("DLHNSIM_RUNS") {
        runs = n;
    }
    let secs = env_u64("DLHNSIM_SECS").unwrap_or(secs);
    let jobs = env_u64("DLHNSIM_JOBS")
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8))
        .clamp(1, 16);
    let dir = scratch(root);

    // 1. recorded findings
    let mut violation: Option<(u64, PathBuf, String)> = None;
    let mut known = Vec::new();
    let listed = known_listed(root);
    for (kid, kprop, what, repro) in scen::known::all() {
        if kprop != id {
            continue;
        }
        let still = known_run(kid, repro, &dir);
        match still {
            true if listed.contains(&(kprop.to_string(), kid.to_string())) => {
                println!("KNOWN-FINDING: property={id} {kid}: {what}");
                known.push(format!("{kid}: {what}"));
            }
            true => {
                let path = root.join("replays");
                let _ = fs::create_dir_all(&path);
                let path = path.join(format!("{id}-{kid}.txt"));
                let _ = fs::write(&path, format!("{kid}: {what}\nrerun: target/sim/dlhnsim known {kid}\n"));
                violation = Some((0, path, format!("{kid}: {what}")));
            }
            false => println!("note: {kid} ({what}) does not show on this tree"),
        }
    }

    // 2. the search
    let mut ws: Vec<W> = (0..jobs).map(|k| spawn(id, seed, k, k, jobs, runs, secs, &dir)).collect();
    let mut outs: Vec<PathBuf> = Vec::new();
    let mut suspects: Vec<(u64, &'static str)> = Vec::new();
    let mut odd: Vec<String> = Vec::new();
    let mut harness: Option<String> = None;
    let mut best: Option<(u64, Fresh)> = None;
    let mut hist: Option<(u64, Fresh, Vec<u64>)> = None;
    'search: loop {
        let mut live = false;
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.ch.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.code() == Some(0) {
                        outs.push(w.out.clone());
                        let text = fs::read_to_string(w.out.with_extension("result")).unwrap_or_default();
                        if let Some(l) = text.lines().find(|l| l.starts_with("viol ")) {
                            let mut it = l.splitn(4, ' ').skip(1);
                            let i: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            let c = it.next().unwrap_or("").to_string();
                            let m = it.next().unwrap_or("").to_string();
                            if c == "harness" {
                                harness = Some(format!("run {i}: {m}"));
                            } else {
                                suspects.push((i, "viol"));
                            }
                            break 'search;
                        }
                    } else {
                        suspects.push((progress(&w.out, w.from), "died"));
                    }
                }
                _ => {
                    live = true;
                    let i = progress(&w.out, w.from);
                    if i != w.last {
                        w.last = i;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > SLOW {
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        w.done = true;
                        suspects.push((i, "slow"));
                    }
                }
            }
        }
        // a death or a stall: look at that run alone, and carry on behind it if it was not the code
        while let Some((i, why)) = suspects.pop() {
            let f = fresh(id, Some(run_seed(seed, id, i)), &[], &dir, HANG);
            match &f.end {
                End::Clean if (why == "died" || odd.len() >= 2)
                    && {
                        hist = history(id, seed, i, jobs, starts(&ws, i, jobs), &dir);
                        hist.is_some()
                    } =>
                {
                    break 'search;
                }
                End::Clean => {
                    odd.push(format!("run {i} ({why}) is clean when run alone"));
                    let next = i + jobs;
                    if odd.len() > 50 {
                        harness = Some("workers keep dying for no reason of their runs".into());
                        break 'search;
                    }
                    if next < runs {
                        let left = secs.saturating_sub(t0.elapsed().as_secs());
                        ws.push(spawn(id, seed, i % jobs, next, jobs, runs, left, &dir));
                        live = true;
                    }
                }
                End::Viol(c, m) if c == "harness" => {
                    harness = Some(format!("run {i}: {m}"));
                    break 'search;
                }
                _ => {
                    best = Some((i, f));
                    break 'search;
                }
            }
        }
        if !live {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // collect a pending violation reported by a worker
    while let Some((i, why)) = suspects.pop() {
        let f = fresh(id, Some(run_seed(seed, id, i)), &[], &dir, HANG);
        if f.end.class().is_some() {
            best = Some((i, f));
        } else if let Some(h) = history(id, seed, i, jobs, starts(&ws, i, jobs), &dir) {
            hist = Some(h);
        } else {
            odd.push(format!("run {i} ({why}) failed in a worker and is clean when run alone"));
            harness = Some(format!("run {i} failed in a worker and is clean when run alone"));
        }
    }
    for w in ws.iter_mut().filter(|w| !w.done) {
        let _ = w.ch.kill();
        let _ = w.ch.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();

    // 3. a violation: shrink it and record it
    if let Some((i, f)) = best {
        let class = f.end.class().unwrap().to_string();
        let orig = f.used.len();
        let tape = shrink_any(&p, &class, f.used.clone(), &dir);
        let mut fin = fresh(id, None, &tape, &dir, HANG);
        let mut tape = tape;
        if fin.end.class() != Some(&class) {
            tape = f.used.clone();
            fin = fresh(id, None, &tape, &dir, HANG);
            if fin.end.class() != Some(&class) {
                fin = f;
            }
        }
        let msg = format!("{}: {}", class, fin.end.msg());
        let path = replay_file(root, id, seed, i, orig, &fin, &tape, &[]);
        violation = Some((i, path, msg));
    } else if let Some((i, f, before)) = hist {
        let class = f.end.class().unwrap().to_string();
        let msg = format!("{}: {} (only after {} earlier runs in the same process)", class, f.end.msg(), before.len());
        let path = replay_file(root, id, seed, i, f.used.len(), &f, &f.used, &before);
        violation = Some((i, path, msg));
    }

    // 4. evidence
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for o in &outs {
        for l in fs::read_to_string(o.with_extension("result")).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("count ") {
                if let Some((n, k)) = r.split_once(' ') {
                    *counts.entry(k.into()).or_insert(0) += n.parse().unwrap_or(0);
                }
            } else if let Some(s) = l.strip_prefix("sample ") {
                if samples.len() < 6 {
                    samples.push(s.into());
                }
            } else if let Some((k, n)) = l.split_once(' ') {
                if let Ok(n) = n.parse::<u64>() {
                    *sum.entry(k.into()).or_insert(0) += n;
                }
            }
        }
        for c in fs::read(o.with_extension("hashes")).unwrap_or_default().chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let get = |k: &str| sum.get(k).copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let done = get("runs");
    let mut e = String::from("{\n");
    e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n", js(id), js(tier), js(p.level)));
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {done},\n  \"distinct_nontrivial\": {},\n", hashes.len()));
    e.push_str(&format!("  \"rule\": {},\n", js(p.rule)));
    e.push_str(&format!("  \"simulated_runs\": {done},\n  \"runs_requested\": {runs},\n"));
    e.push_str(&format!("  \"seeds_per_hour\": {:.0},\n", done as f64 / search_s.max(0.001) * 3600.0));
    e.push_str(&format!("  \"nontrivial_runs\": {},\n  \"steps\": {},\n", get("nontrivial"), get("steps")));
    e.push_str(&format!("  \"simulated_seconds\": {:.3},\n", get("ms") as f64 / 1e3));
    e.push_str(&format!("  \"distinct_measure\": {},\n", js(p.measure)));
    e.push_str("  \"distinct_how\": \"64-bit hash over all events of a run (delivered bytes, call outcomes, faults, turns)\",\n");
    let (fk, ok): (Vec<_>, Vec<_>) = counts.iter().partition(|(k, _)| k.starts_with("fault:"));
    let show = |v: &[(&String, &u64)], cut: usize| -> String {
        v.iter().map(|(k, n)| format!("{}: {n}", js(&k[cut..]))).collect::<Vec<_>>().join(", ")
    };
    e.push_str(&format!("  \"faults_injected\": {{{}}},\n", show(&fk, 6)));
    e.push_str(&format!("  \"observed\": {{{}}},\n", show(&ok, 0)));
    e.push_str(&format!(
        "  \"determinism\": {{\"runs_executed_twice\": {}, \"different\": {}}},\n",
        get("twice"),
        get("mismatch")
    ));
    e.push_str(&format!("  \"real_code\": {},\n  \"stubs\": {},\n", js(p.real), js(p.stub)));
    e.push_str(&format!("  \"known_findings\": [{}],\n", known.iter().map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    if !odd.is_empty() {
        e.push_str(&format!("  \"remarks\": [{}],\n", odd.iter().take(20).map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    }
    e.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", violation.is_some() as u8));
    let ed = root.join("evidence");
    fs::create_dir_all(&ed).expect("evidence");
    fs::write(ed.join(format!("{id}.json")), e).expect("evidence");
    let _ = fs::remove_dir_all(&dir);

    println!(
        "{id} {tier}: {done}/{runs} runs, {} distinct, {:.1} s, seed {seed}",
        hashes.len(),
        wall
    );
    for o in odd.iter().take(5) {
        println!("note: {o}");
    }
    if get("mismatch") > 0 {
        println!("note: {} of {} repeated runs differed", get("mismatch"), get("twice"));
    }
    if let Some((_, path, msg)) = violation {
        println!("{}", msg);
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if let Some(h) = harness {
        println!("the simulator itself failed: {h}");
        return 2;
    }
    if done == 0 {
        println!("nothing was explored");
        return 2;
    }
    0
}

fn shrink_any(p: &Prop, class: &str, tape: Vec<u64>, dir: &Path) -> Vec<u64> {
    let mut b = Budget { end: Instant::now() + Duration::from_secs(25), evals: 6000 };
    match class {
        "hang" => tape,
        "abort" | "memory" => {
            b.evals = 400;
            shrink(tape, &mut b, &mut |c| {
                let f = fresh(p.id, None, c, dir, Duration::from_secs(5));
                (f.end.class() == Some(class)).then_some(f.used)
            })
        }
        _ => {
            // in a process of its own: a candidate may die
            let tin = dir.join("shrink.in");
            let out = dir.join("shrink.out");
            let _ = fs::write(&out, b"");
            fs::write(&tin, bytes(&tape)).expect("tape");
            let ch = Command::new(std::env::current_exe().expect("exe"))
                .arg("shrink")
                .arg(p.id)
                .arg(class)
                .arg(&tin)
                .arg(&out)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn();
            if let Ok(mut ch) = ch {
                wait(&mut ch, Duration::from_secs(40));
            }
            let r = unbytes(&fs::read(&out).unwrap_or_default());
            if r.is_empty() {
                tape
            } else {
                r
            }
        }
    }
}

fn bytes(t: &[u64]) -> Vec<u8> {
    t.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn unbytes(b: &[u8]) -> Vec<u64> {
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn shrink_worker(a: &[String]) -> i32 {
    let p = find(&a[0]);
    let class = a[1].clone();
    let tape = unbytes(&fs::read(&a[2]).expect("tape"));
    let mut b = Budget { end: Instant::now() + Duration::from_secs(25), evals: 20_000 };
    let mut best: Option<Vec<u64>> = None;
    let r = shrink(tape, &mut b, &mut |c| {
        let o = one(&p, Tape::replay(c.to_vec()), false);
        let hit = o.viol.as_ref().map(|v| v.class == class).unwrap_or(false);
        if hit {
            let better = best.as_ref().map(|x| o.used.len() < x.len()).unwrap_or(true);
            if better {
                best = Some(o.used.clone());
                let _ = fs::write(&a[3], bytes(&o.used));
            }
        }
        hit.then_some(o.used)
    });
    let _ = fs::write(&a[3], bytes(&r));
    0
}

// ---------------------------------------------------------------- recorded findings

/// (property, id) of the findings listed as known in the committed file.
fn known_listed(root: &Path) -> HashSet<(String, String)> {
    let mut s = HashSet::new();
    for l in fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.split_whitespace();
            if let (Some(p), Some(i)) = (it.next(), it.next()) {
                s.insert((p.to_string(), i.trim_end_matches(':').to_string()));
            }
        }
    }
    s
}

/// Does the recorded failure still show? Run in a process of its own: some of them end it.
fn known_run(kid: &str, _f: fn() -> bool, dir: &Path) -> bool {
    let _ = dir;
    let ch = Command::new(std::env::current_exe().expect("exe"))
        .arg("known")
        .arg(kid)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    match ch {
        // 0: the code behaves; anything else: it does not
        Ok(mut c) => wait(&mut c, Duration::from_secs(30)).map(|s| s.code() != Some(0)).unwrap_or(true),
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- entry

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var_os("DLHNSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().expect("cwd"));
    install_panic_hook();
    let inner = |f: &(dyn Fn() -> i32 + Sync)| {
        alloc::set_cap(CAP);
        on_stack(f)
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 4 => check(&root, &a[2], &a[3]),
        Some("replay") if a.len() == 3 => replay(&root, &a[2]),
        Some("worker") if a.len() == 9 => inner(&|| {
            let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
            worker(Job {
                id: a[2].clone(),
                seed: n(3),
                from: n(4),
                step: n(5),
                runs: n(6),
                secs: n(7),
                out: PathBuf::from(&a[8]),
            })
        }),
        Some("single") if a.len() == 8 => inner(&|| single(&a[2..])),
        Some("shrink") if a.len() == 6 => inner(&|| shrink_worker(&a[2..])),
        Some("known") if a.len() == 3 => inner(&|| {
            match scen::known::all().into_iter().find(|k| k.0 == a[2]) {
                Some(k) => (k.3)() as i32,
                None => 0,
            }
        }),
        Some("list") => {
            for p in scen::all() {
                println!("{}", p.id);
            }
            0
        }
        // trace of one run: trace ID IDX
        Some("trace") if a.len() == 4 => inner(&|| {
            let p = find(&a[2]);
            let seed = env_u64("VERIF_SEED").unwrap_or(1);
            let o = one(&p, Tape::record(run_seed(seed, &a[2], a[3].parse().unwrap_or(0))), true);
            for n in &o.notes {
                println!("{n}");
            }
            println!("{} decisions, hash {:#x}, {:?}", o.used.len(), o.hash, o.viol);
            0
        }),
        _ => {
            eprintln!("usage: dlhnsim check ID quick|thorough | replay FILE | list | trace ID RUN");
            2
        }
    }
}
