//! Conformance harness: the real code against the specification's tables.
//!
//!   conform explore --prop C12 --tier quick --seed 1 --oracle F [--model F] --out DIR --budget SECS
//!   conform replay CASE.json OUT.ndjson    re-execute the calls of a case
mod api;
mod exec;
mod gen;
mod json;
mod lens;
mod oracle;

use api::*;
use exec::*;
use gen::*;
use json::J;
use lens::*;
use oracle::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HANG_SECS: u64 = 60;
const MAX_SUSPECTS: usize = 6;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("explore") => supervise(&args),
        Some("child") => child(&args),
        Some("single") => single(&args),
        Some("cold") => cold(&args),
        Some("replay") => replay(&args),
        _ => {
            eprintln!("usage: conform explore|replay ...");
            std::process::exit(2);
        }
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

// ---------------------------------------------------------------------------
// Supervision

fn supervise(args: &[String]) {
    let out = arg(args, "--out").expect("--out");
    std::fs::create_dir_all(&out).unwrap();
    let n = threads() + 1;
    let slots_path = format!("{}/slots", out);
    let slots = Slots::open(&slots_path, n, true);
    let _ = std::fs::remove_file(format!("{}/stats.json", out));
    let _ = std::fs::remove_file(format!("{}/cases.ndjson", out));
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .args(&args[2..])
        .arg("--slots")
        .arg(&slots_path)
        .spawn()
        .expect("spawn child");
    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (0, Instant::now())).collect();
    let mut kind = None;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..n {
            let s = slots.slot(i);
            let q = s.seq();
            if q != last[i].0 || !s.active() {
                last[i] = (q, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(HANG_SECS) {
                kind = Some((Kind::Hang, i));
            }
        }
        if kind.is_some() {
            let _ = ch.kill();
        }
    };
    let _ = std::fs::remove_file(&slots_path);
    if kind.is_none() && status.code().is_some() {
        std::process::exit(status.code().unwrap());
    }
    // The code under test crashed the process or never came back.
    let p = P::parse(&arg(args, "--prop").unwrap());
    let cands: Vec<usize> = match kind {
        Some((_, i)) => vec![i],
        None => (0..n).filter(|&i| slots.slot(i).active()).collect(),
    };
    let k = kind.map(|x| x.0).unwrap_or(Kind::Crash);
    let mut found = None;
    for &i in &cands {
        let (e, d, w, cap, fin, pl) = slots.slot(i).read();
        let f = format!("{}/single.bin", out);
        std::fs::write(&f, &w).unwrap();
        let mut c = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["single", &f, &e.to_string(), d.name(), &cap.to_string(), &fin.to_string(), &pl.to_string()])
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed() > Duration::from_secs(20) {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        let dies = match st {
            None => true,
            Some(s) => s.code().is_none(),
        };
        if dies {
            found = Some((e, d, w, cap, fin, pl));
            break;
        }
    }
    if found.is_none() && cands.len() == 1 {
        found = Some(slots.slot(cands[0]).read());
    }
    match found {
        Some((e, d, w, cap, fin, pl)) => {
            let c = Call { e, d, w: w.clone(), len: w.len(), b: 0, cap, fin, pl, obs: Obs::dead(k), out: vec![] };
            let case = Case { p: p.name(), e, d, src: w, calls: vec![c], s1: vec![], s2: vec![], text: vec![], log: vec![] };
            std::fs::write(format!("{}/cases.ndjson", out), case.json("suspect") + "\n").unwrap();
            std::fs::write(
                format!("{}/stats.json", out),
                "{\"windows\":0,\"calls\":0,\"suspects\":1,\"crashed\":true,\"jobs\":0,\"jobs_done\":0,\"model_lines\":0,\"model_calls\":0,\"deviations\":0,\"random_windows\":0,\"largest\":0,\"by\":{}}",
            )
            .unwrap();
            std::process::exit(0);
        }
        None => {
            eprintln!("the harness process died and the call that killed it was not found");
            std::process::exit(2);
        }
    }
}

fn quiet() {
    // Panics of the code under test are results; those of the harness are not.
    std::panic::set_hook(Box::new(|p| {
        if p.location().is_some_and(|l| l.file().starts_with("src/")) {
            eprintln!("{}", p);
        }
    }));
}

fn single(args: &[String]) {
    quiet();
    let w = std::fs::read(&args[2]).unwrap();
    let mut r = Runner::new(None);
    r.placement = args[7].parse().unwrap();
    let d = if args[4] == "enc" { ENC } else { DEC };
    let o = r.call(args[3].parse().unwrap(), d, &w, args[5].parse().unwrap(), args[6] == "true");
    println!("{:?}", o);
}

// ---------------------------------------------------------------------------
// Exploration

#[derive(Clone, Debug)]
enum Job {
    Bytes { e: usize, first: u8 },                     // every 1- and 2-byte string starting so
    Triples { e: usize, first: u8 },                   // every 3-byte string starting so
    Quads { e: usize, first: u8, second: u8 },         // every 4-byte string starting so
    Sparse { e: usize, first: u8, few: usize },                    // 4-byte strings: two bytes free, two from a few
    Scalars { e: usize, d: Dir, lo: u32, hi: u32, step: u32, ctx: bool },
    PairsEnc { e: usize, c: u32, lo: u32, hi: u32 },   // c next to every scalar
    Combo { e: usize, d: Dir, len: usize, first: usize },
    Mates { e: usize, d: Dir, lo: usize, hi: usize, k: usize }, // characters next to their neighbours, and k others
    Triads { e: usize, d: Dir, lo: usize, n: usize, first: usize }, // three characters out of n neighbours
    Pairs { e: usize, d: Dir, at: usize },          // one character next to each of the later ones
    Runs { e: usize, d: Dir, k: usize },
    Long { e: usize, d: Dir, n: usize, rep: u64 },
    Edge { e: usize, d: Dir, k: u32, size: usize }, // something of interest around this position (about 2^k)
    Lengths { e: usize, d: Dir, lo: usize, hi: usize }, // windows of each of these lengths
    Signs { e: usize, d: Dir, i: usize },           // a sequence that means something elsewhere
    Hint { e: usize, d: Dir, i: usize },            // a literal of the sources, and each of the others
    Words { e: usize, d: Dir, kind: u8, at: usize }, // every word of some letters, in one window
    Model { lo: usize, hi: usize },
}
impl Job {
    fn kind(&self) -> &'static str {
        match self {
            Job::Bytes { .. } => "bytes1-2",
            Job::Triples { .. } => "bytes3",
            Job::Quads { .. } => "bytes4",
            Job::Sparse { .. } => "bytes4 sparse",
            Job::Scalars { .. } => "scalars",
            Job::PairsEnc { .. } => "scalar pairs",
            Job::Combo { .. } => "unit combinations",
            Job::Mates { .. } => "neighbours",
            Job::Triads { .. } => "triads",
            Job::Pairs { .. } => "all pairs",
            Job::Runs { .. } => "runs",
            Job::Long { .. } => "long",
            Job::Edge { .. } => "around round sizes",
            Job::Lengths { .. } => "every length",
            Job::Signs { .. } => "signatures and escapes",
            Job::Hint { .. } => "literals of the sources",
            Job::Words { .. } => "all words",
            Job::Model { .. } => "TLC windows",
        }
    }
}

fn targets(p: P) -> Vec<(usize, Dir)> {
    let n = CODECS.len();
    let both = |v: Vec<usize>| v.into_iter().flat_map(|e| vec![(e, DEC), (e, ENC)]).collect::<Vec<_>>();
    let all: Vec<usize> = (0..n).collect();
    match p {
        P::C01 => both(vec![UTF8]),
        P::C02 => both(vec![U16BE, U16LE]),
        P::C03 => both(vec![U32BE, U32LE]),
        P::C04 => both((7..n).collect()),
        P::C05 => both(vec![BIG5]),
        P::C06 => both(vec![SJIS]),
        P::C07 | P::C11 | P::C13 | P::C22 | P::C25 => all.into_iter().map(|e| (e, ENC)).collect(),
        P::C10 | P::C14 | P::C15 | P::C21 | P::C24 => all.into_iter().map(|e| (e, DEC)).collect(),
        P::C08 | P::C09 | P::C12 | P::C16 | P::C18 | P::C23 | P::C26 | P::C27 => both(all),
        P::C17 => both(all).into_iter().filter(|&(e, d)| has_end(e, d)).collect(),
        P::C19 => both(all).into_iter().filter(|&(e, _)| e == UTF8 || e > U32LE).collect(),
        P::C20 => both(vec![U16BE, U32BE]),
    }
}

fn jobs(p: P, thorough: bool, o: &Oracle, pools: &BTreeMap<(usize, bool), Pool>, model: usize) -> Vec<Job> {
    let mut v = Vec::new();
    let t = targets(p);
    let focused = matches!(p, P::C01 | P::C02 | P::C03 | P::C04 | P::C05 | P::C06);
    let mut lo = 0;
    while lo < model {
        v.push(Job::Model { lo, hi: (lo + 200).min(model) });
        lo += 200;
    }
    for &(e, d) in &t {
        let pool = &pools[&(e, d == ENC)];
        if d == DEC {
            for b in 0..=255u8 {
                v.push(Job::Bytes { e, first: b });
            }
            let multi = matches!(e, UTF8 | BIG5 | SJIS) || (e < 5 && thorough);
            let heavy = matches!(p, P::C10 | P::C15 | P::C12 | P::C23 | P::C24 | P::C26 | P::C27);
            if multi && ((focused || !heavy) && (e == UTF8 || e > 4 || thorough) || thorough && (e == UTF8 || e > 4)) {
                for b in 0..=255u8 {
                    v.push(Job::Triples { e, first: b });
                }
            }
            if e < 5 && (focused || matches!(p, P::C14 | P::C21) || thorough && !heavy) {
                for b in 0..=255u8 {
                    v.push(Job::Sparse { e, first: b, few: if focused { 20 } else { 7 } });
                }
            }
            if thorough && focused && (e == UTF8 || e == U16BE || e == U16LE || e == U32BE || e == U32LE) {
                for b in 0..=255u8 {
                    for c in 0..=255u8 {
                        v.push(Job::Quads { e, first: b, second: c });
                    }
                }
            }
        }
        // all scalars: thoroughly where they are what matters, else in steps
        let big = o.is_utf(e);
        let step = if big && !focused && !thorough && matches!(p, P::C10 | P::C11 | P::C12 | P::C15 | P::C22 | P::C23 | P::C24 | P::C26 | P::C27) { 3 } else { 1 };
        let hi = 0x110000u32;
        let chunk = 0x4000;
        let mut lo = 0;
        while lo < hi {
            // (by itself a character says nothing about its neighbours)
            if p != P::C27 {
                v.push(Job::Scalars { e, d, lo, hi: lo + chunk, step, ctx: false });
            }
            if p == P::C27 || focused || thorough || !big && d == DEC || e == BIG5 || e == SJIS {
                v.push(Job::Scalars { e, d, lo, hi: lo + chunk, step: if thorough { 1 } else { 3 }, ctx: true });
            }
            lo += chunk;
        }
        if d == ENC && e == BIG5 {
            for &c in &[0xCA, 0xEA, 0x304, 0x30C, 0x41, 0x4ECA] {
                v.push(Job::PairsEnc { e, c, lo: 0, hi: 0x30000 });
            }
        }
        if d == ENC && e == SJIS && (focused || thorough) {
            for &c in &[0xA5, 0x41, 0x4ECA, 0xFF61] {
                v.push(Job::PairsEnc { e, c, lo: 0, hi: 0x10000 });
            }
        }
        let letters = if big { 0x110000 } else { o.scalars(e).len() };
        let part = if big { 0x8000 } else { 512 };
        if !big && (d == ENC || e == BIG5 || e == SJIS) || big && (focused || thorough) {
            for lo in (0..letters).step_by(part) {
                let k = match (e == BIG5 || e == SJIS, focused, thorough) {
                    (true, true, true) => 14000,
                    (true, _, true) => 300,
                    (true, true, _) => if e == SJIS { 6000 } else { 1500 },
                    (true, ..) => 12,
                    _ => 3,
                };
                v.push(Job::Mates { e, d, lo, hi: (lo + part).min(letters), k });
            }
        }
        let mut r = Rng::new(e as u64 * 2 + (d == ENC) as u64);
        for _ in 0..(if thorough { 100 } else if big || e == BIG5 || e == SJIS { 16 } else { 4 }) {
            let (lo, n) = (r.below(letters), 10);
            v.push(Job::Triads { e, d, lo, n, first: n });
        }
        let blocks: &[(u32, usize)] = match e {
            BIG5 if focused || thorough => &[(0x3041, 83), (0x391, 49)],
            SJIS if focused || thorough => &[(0x3041, 83), (0x30A1, 86), (0x391, 49), (0xFF61, 63)],
            SJIS => &[(0xFF61, 63)],
            _ if !big && thorough => &[(0x80, 128)],
            _ => &[],
        };
        for &(c, n) in blocks {
            if let Some(lo) = o.scalars(e).iter().position(|&x| x >= c) {
                for first in 0..n {
                    v.push(Job::Triads { e, d, lo, n, first });
                }
            }
        }
        if e == BIG5 || e == SJIS {
            let every = if thorough || focused || matches!(p, P::C07 | P::C21) { 1 } else { 8 };
            for at in (0..letters).step_by(every) {
                v.push(Job::Pairs { e, d, at: (at + e * 3) % letters });
            }
        }
        let m = pool.valid.len() + pool.invalid.len();
        for first in 0..m {
            v.push(Job::Combo { e, d, len: 2, first });
        }
        for first in 0..pool.mixed.len() {
            v.push(Job::Combo { e, d, len: 3, first });
            if thorough && e < 9 {
                v.push(Job::Combo { e, d, len: 4, first });
            }
        }
        for k in 0..(if thorough { 300 } else { 70 }) {
            v.push(Job::Runs { e, d, k });
        }
        for k in [127usize, 128, 129, 255, 256, 257] {
            v.push(Job::Runs { e, d, k });
        }
        let mut n = 100;
        while n <= if thorough { 700_000 } else { 100_000 } {
            for rep in 0..(if thorough { 6 } else { 2 }) {
                v.push(Job::Long { e, d, n, rep });
            }
            n = n * 2 + n / 3;
        }
        for lo in (60..if thorough { 9000 } else { 1320 }).step_by(60) {
            v.push(Job::Lengths { e, d, lo, hi: lo + 60 });
        }
        for i in 0..signs() {
            v.push(Job::Signs { e, d, i });
        }
        if let Some(h) = gen::hints(e) {
            for i in 0..h.pieces[(d == ENC) as usize].len() {
                v.push(Job::Hint { e, d, i });
            }
            for (i, &size) in h.sizes.iter().enumerate() {
                if size > 70 && size < 4000 && !(127..130).contains(&size) && !(255..258).contains(&size) {
                    v.push(Job::Runs { e, d, k: size });
                }
                if i < 120 && size > 16 && (size <= 20_000 || thorough || big || e == BIG5 || e == SJIS || (e + i) % 7 == 0) {
                    v.push(Job::Edge { e, d, k: if size < 3000 { 13 } else if size < 40_000 { 17 } else { 21 }, size });
                }
            }
        }
        for kind in 0..5 {
            v.push(Job::Words { e, d, kind, at: 0 });
        }
        let n = letters;
        for j in 0..(if thorough { 60 } else { 3 }) {
            v.push(Job::Words { e, d, kind: 5 + (j % 2) as u8, at: (j * 7919 + e * 31) % n });
        }
        for j in 0..(if thorough { 160 } else if big { 24 } else { 8 }) {
            v.push(Job::Words { e, d, kind: [7, 7, 8, 9][j % 4], at: j });
        }
        for k in 5..=21 {
            if k <= 17 || thorough || big || e == BIG5 || e == SJIS || (e + k as usize) % 7 == 0 {
                v.push(Job::Edge { e, d, k, size: 1 << k });
            }
        }
        // sizes people like
        for &size in &[80usize, 96, 100, 120, 192, 200, 250, 300, 384, 400, 500, 600, 640, 720, 768, 800, 1000, 1200, 1500, 1536, 2000, 2500,
                       3000, 3072, 4000, 5000, 5120, 6000, 6144, 8000, 10000, 12288, 16000, 20000, 24576, 32000, 49152, 50000, 64000, 98304,
                       100_000, 196_608, 1_000_000] {
            let k = if size < 3000 { 13 } else if size < 40_000 { 17 } else { 21 };
            if k < 21 || thorough || size < 200_000 && (e + size / 1000) % 3 == 0 {
                v.push(Job::Edge { e, d, k, size });
            }
        }
    }
    // In a fixed random order, so that running out of time costs a bit of
    // everything and not all of something.
    let first = v.iter().filter(|j| matches!(j, Job::Model { .. })).count();
    let mut r = Rng::new(17);
    for i in (first + 1..v.len()).rev() {
        let j = r.range(first, i);
        v.swap(i, j);
    }
    v
}

struct Shared<'a> {
    o: &'a Oracle,
    pools: BTreeMap<(usize, bool), Pool>,
    model: Vec<J>,
    suspects: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    by: Mutex<BTreeMap<&'static str, u64>>,
    stop: AtomicBool,
    model_calls: AtomicU64,
    deviations: AtomicU64,
    schedules: AtomicU64,
    largest: AtomicUsize,
    /// nanoseconds per byte of input, by encoding and direction
    pace: Vec<f64>,
    slow: AtomicU64,
    seed: u64,
}

impl<'a> Shared<'a> {
    /// One window through the lens; false to stop.
    fn visit(&self, c: &mut Ctx, e: usize, d: Dir, w: &[u8]) -> bool {
        if w.len() > 10_000 && self.pace[2 * e + (d == ENC) as usize] * w.len() as f64 > 0.5e9 {
            // (Being slow is no crime.)
            self.slow.fetch_add(1, Ordering::Relaxed);
            return !self.stop.load(Ordering::Relaxed);
        }
        if let Some(case) = c.visit(e, d, w) {
            let case = shrink(c, case, w);
            let mut s = self.suspects.lock().unwrap();
            s.push(case.json("suspect"));
            if s.len() >= MAX_SUSPECTS {
                self.stop.store(true, Ordering::Relaxed);
            }
        } else if w.len() <= 24 && w.len() >= 2 && c.rng.one_in(1500) && (c.nc > 0 || !c.s1.is_empty()) {
            self.sample(c, e, d, w);
        }
        !self.stop.load(Ordering::Relaxed)
    }
    fn sample(&self, c: &mut Ctx, e: usize, d: Dir, w: &[u8]) {
        let mut s = self.samples.lock().unwrap();
        let case = c.case(e, d, w);
        const KEEP: usize = 400;
        if s.len() < KEEP {
            s.push(case.json("sample"));
        } else {
            let i = c.rng.below(KEEP * 4);
            if i < KEEP {
                s[i] = case.json("sample");
            }
        }
    }
}

/// How long the code takes for a byte, from windows of some length.
fn pace(pools: &BTreeMap<(usize, bool), Pool>, slot: Slot) -> Vec<f64> {
    let mut r = Runner::new(Some(slot));
    let mut rng = Rng::new(7);
    let mut v = vec![];
    for e in 0..CODECS.len() {
        for d in [DEC, ENC] {
            let mut worst: f64 = 0.0;
            for k in 0..3 {
                let p = &pools[&(e, d == ENC)];
                let mut w = vec![];
                while w.len() < 12_000 {
                    if k == 0 {
                        ascii_unit(e, d, b'x', &mut w);
                    } else {
                        w.extend_from_slice(rng.pick(&p.valid));
                    }
                }
                // the fastest of some: something else may be running
                let t: Vec<f64> = (0..4)
                    .map(|_| {
                        let t = Instant::now();
                        r.call(e, d, &w, w.len() * 4, true);
                        t.elapsed().as_nanos() as f64 / w.len() as f64
                    })
                    .collect();
                worst = worst.max(t.into_iter().fold(f64::MAX, f64::min));
            }
            v.push(worst);
        }
    }
    v
}

fn ascii_word(e: usize, d: Dir) -> Vec<u8> {
    let mut v = vec![];
    ascii_unit(e, d, b'y', &mut v);
    v
}

/// Makes the window of a failing case smaller while it keeps failing.
fn shrink(c: &mut Ctx, case: Case, w: &[u8]) -> Case {
    let (e, d) = (case.e, case.d);
    let t = Instant::now();
    // (what takes a vast buffer to see is looked for in them)
    let rate = c.vast_rate;
    if case.calls.iter().chain(&case.s1).chain(&case.s2).any(|x| x.pl & 0xff >= VAST || x.pl >> 8 & 0xff >= VAST) {
        c.vast_rate = 2;
    }
    let mut best = case;
    let mut cur: Vec<Vec<u8>> = if d == ENC {
        std::str::from_utf8(w).unwrap().chars().map(|x| x.to_string().into_bytes()).collect()
    } else {
        w.iter().map(|&b| vec![b]).collect()
    };
    let mut size = cur.len() / 2;
    while size > 0 && t.elapsed() < Duration::from_secs(4) {
        let mut i = 0;
        let mut cut = false;
        while i < cur.len() && t.elapsed() < Duration::from_secs(4) {
            let j = (i + size).min(cur.len());
            let cand: Vec<Vec<u8>> = cur[..i].iter().chain(cur[j..].iter()).cloned().collect();
            let flat: Vec<u8> = cand.concat();
            let mut hit = None;
            for _ in 0..4 {
                if let Some(x) = c.visit(e, d, &flat) {
                    hit = Some(x);
                    break;
                }
            }
            match hit {
                Some(x) => {
                    best = x;
                    cur = cand;
                    cut = true;
                }
                None => i = j,
            }
        }
        if !cut || size > cur.len() {
            size /= 2;
        }
    }
    c.vast_rate = rate;
    best
}

/// The largest window made at random.
const MAX_WIN: usize = 3 << 20;

/// The characters of an encoding, numbered.
fn letters(o: &Oracle, e: usize) -> usize {
    if o.is_utf(e) { 0x110000 } else { o.scalars(e).len() }
}
/// Appends character number i, in UTF-8 or in the encoding.
fn letter(o: &Oracle, e: usize, d: Dir, i: usize, w: &mut Vec<u8>) -> bool {
    let c = if o.is_utf(e) { i as u32 } else { o.scalars(e)[i] };
    if !is_scalar(c) {
        return false;
    }
    if d == ENC {
        push_char(w, c);
    } else {
        match o.enc1(e, c) {
            Some((b, n)) => w.extend_from_slice(&b[..n]),
            None => return false,
        }
    }
    true
}

fn run_job(s: &Shared, c: &mut Ctx, j: &Job) -> bool {
    let mut w: Vec<u8> = Vec::new();
    match *j {
        Job::Bytes { e, first } => {
            if first == 0 && !s.visit(c, e, DEC, &[]) {
                return false;
            }
            if !s.visit(c, e, DEC, &[first]) {
                return false;
            }
            for b in 0..=255u8 {
                if !s.visit(c, e, DEC, &[first, b]) {
                    return false;
                }
            }
        }
        Job::Triples { e, first } => {
            for b in 0..=255u8 {
                for t in 0..=255u8 {
                    if !s.visit(c, e, DEC, &[first, b, t]) {
                        return false;
                    }
                }
            }
        }
        Job::Quads { e, first, second } => {
            for b in 0..=255u8 {
                for t in 0..=255u8 {
                    if !s.visit(c, e, DEC, &[first, second, b, t]) {
                        return false;
                    }
                }
            }
        }
        Job::Sparse { e, first, few } => {
            const FEW: [u8; 20] = [
                0x00, 0x80, 0xBF, 0xD8, 0xDC, 0xFF, 0x41, 0x10, 0x11, 0x7F, 0x8F, 0x90, 0x9F, 0xA0, 0xC0, 0xD7, 0xDB, 0xDF, 0xE0, 0xF4,
            ];
            for b in 0..=255u8 {
                for &t in &FEW[..few] {
                    for &u in &FEW[..few] {
                        // the free byte pair in front or at the back
                        if !s.visit(c, e, DEC, &[first, b, t, u]) || !s.visit(c, e, DEC, &[t, u, first, b]) {
                            return false;
                        }
                    }
                }
            }
        }
        Job::Scalars { e, d, lo, hi, step, ctx } => {
            let off = (s.seed % step as u64) as u32;
            let dense = lo < 0x4000 && step > 1;
            let mut x = lo + if dense { 0 } else { off };
            let p = &s.pools[&(e, d == ENC)];
            while x < hi {
                if is_scalar(x) {
                    w.clear();
                    if ctx {
                        if c.rng.one_in(2) {
                            ascii_unit(e, d, b'a', &mut w);
                        } else {
                            let u = c.rng.pick(&p.valid).clone();
                            w.extend(u);
                        }
                    }
                    if d == ENC {
                        push_char(&mut w, x);
                    } else if let Some((b, n)) = s.o.enc1(e, x) {
                        w.extend_from_slice(&b[..n]);
                    } else {
                        x += if dense { 1 } else { step };
                        continue;
                    }
                    if ctx {
                        match c.rng.below(3) {
                            0 => ascii_unit(e, d, b'z', &mut w),
                            1 => {
                                let u = c.rng.pick(&p.valid).clone();
                                w.extend(u);
                            }
                            _ => {}
                        }
                    }
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
                x += if dense { 1 } else { step };
            }
        }
        Job::PairsEnc { e, c: a, lo, hi } => {
            for x in lo..hi {
                if is_scalar(x) {
                    w.clear();
                    push_char(&mut w, a);
                    push_char(&mut w, x);
                    if !s.visit(c, e, ENC, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Mates { e, d, lo, hi, k } => {
            let n = letters(s.o, e);
            let single = n <= 256;
            for i in lo..hi {
                let near = [1, 2, 3, 4, 16, 32, 64, 128, 256, 0x400, 0x1000, 0x10000];
                let mut mates: Vec<usize> = Vec::new();
                if single {
                    mates.extend(0..n);
                } else {
                    let near = if n > 0x100000 { &near[..] } else { &near[..7] };
                    for (j, &x) in near.iter().enumerate() {
                        if n < 0x100000 || j == i % near.len() {
                            mates.extend([(i + x) % n, (i + n - x) % n]);
                        }
                    }
                    mates.push(i);
                    for _ in 0..k {
                        mates.push(c.rng.below(n));
                    }
                }
                for m in mates {
                    w.clear();
                    if letter(s.o, e, d, i, &mut w) && letter(s.o, e, d, m, &mut w) && !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Triads { e, d, lo, n, first } => {
            let all = letters(s.o, e);
            let firsts = if first < n { first..first + 1 } else { 0..n };
            for x in firsts {
                for y in 0..n {
                    for z in 0..n {
                        w.clear();
                        let good = [x, y, z].iter().all(|q| letter(s.o, e, d, (lo + q) % all, &mut w));
                        if good && !s.visit(c, e, d, &w) {
                            return false;
                        }
                    }
                }
            }
        }
        Job::Pairs { e, d, at } => {
            let n = letters(s.o, e);
            let mut one = Vec::new();
            letter(s.o, e, d, at, &mut one);
            for i in at..n {
                w.extend_from_slice(&one);
                letter(s.o, e, d, i, &mut w);
                if w.len() >= 6000 || i + 1 == n {
                    w.extend_from_slice(&one);
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                    w.clear();
                }
            }
        }
        Job::Combo { e, d, len, first } => {
            let p = &s.pools[&(e, d == ENC)];
            if len == 2 {
                let all: Vec<&Vec<u8>> = p.valid.iter().chain(p.invalid.iter()).collect();
                for u in &all {
                    w.clear();
                    w.extend_from_slice(all[first]);
                    w.extend_from_slice(u);
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            } else {
                let m = &p.mixed;
                let total = m.len().pow(len as u32 - 1);
                for k in 0..total {
                    w.clear();
                    w.extend_from_slice(&m[first]);
                    let mut k = k;
                    for _ in 1..len {
                        w.extend_from_slice(&m[k % m.len()]);
                        k /= m.len();
                    }
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Runs { e, d, k } => {
            let p = &s.pools[&(e, d == ENC)];
            for u in p.valid.iter().chain(p.invalid.iter()) {
                w.clear();
                let v = c.rng.pick(&p.valid).clone();
                let ascii = k <= 70 && !c.rng.one_in(3) || c.rng.one_in(2);
                let turns = c.rng.one_in(3);
                for i in 0..k {
                    if ascii && !(turns && i % 2 == 1) {
                        ascii_unit(e, d, b'x', &mut w);
                    } else {
                        w.extend_from_slice(&v);
                    }
                }
                w.extend_from_slice(u);
                for _ in 0..c.rng.below(4) {
                    ascii_unit(e, d, b'y', &mut w);
                }
                if !s.visit(c, e, d, &w) {
                    return false;
                }
                // the piece itself so many times, in front of something else
                if k >= 3 {
                    w.clear();
                    if c.rng.one_in(4) {
                        w.extend_from_slice(&v);
                    }
                    for _ in 0..k {
                        w.extend_from_slice(u);
                    }
                    let next = if c.rng.one_in(3) { ascii_word(e, d) } else { c.rng.pick(&p.valid).clone() };
                    w.extend_from_slice(&next);
                    if c.rng.one_in(2) {
                        w.extend_from_slice(&v);
                    }
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Long { e, d, n, rep } => {
            let p = &s.pools[&(e, d == ENC)];
            let _ = rep;
            rand_window(s.o, e, d, p, &mut c.rng, n, &mut w);
            if c.rng.one_in(2) && d == DEC {
                // cut to around a power of two bytes
                let k = (w.len() as f64).log2() as u32;
                let t = (1usize << k) + c.rng.below(5);
                if t >= 2 && t - 2 < w.len() {
                    w.truncate(t - 2);
                }
            }
            if w.len() > MAX_WIN {
                w.truncate(MAX_WIN);
                while d == ENC && std::str::from_utf8(&w).is_err() {
                    w.pop();
                }
            }
            s.largest.fetch_max(w.len(), Ordering::Relaxed);
            return s.visit(c, e, d, &w);
        }
        Job::Edge { e, d, k, size } => {
            let p = &s.pools[&(e, d == ENC)];
            let multi: Vec<&Vec<u8>> = p.valid.iter().filter(|u| u.len() > 1).collect();
            let mut ascii = Vec::new();
            ascii_unit(e, d, b'x', &mut ascii);
            let some: &[usize] = match k {
                0..=12 => &[0, 1, 2, 3, 4, 5, 6, 7, 8],
                13..=14 => &[1, 3, 5],
                15..=17 => &[2, 4],
                _ => &[4],
            };
            // the largest windows: one of the six variants, or two
            let huge = k > 17;
            let only = c.rng.below(6);
            let mut x = Exp::new();
            for (delta, by_output) in some.iter().flat_map(|&delta| vec![(delta, false), (delta, true)]) {
                // (the position in the input, or the position in the output)
                if by_output && (k > 17 || k > 14 && c.rng.one_in(2)) {
                    continue;
                }
                let mut size_of = |u: &[u8]| {
                    if !by_output {
                        return u.len();
                    }
                    s.o.exp(e, d, u, true, &mut x);
                    x.out.len().max(1)
                };
                let delta = if k > 12 { delta + c.rng.below(2) } else { delta };
                let at = size + delta - 4;
                for kind in 0..3 {
                    for filler in 0..2 {
                        let variant = kind * 2 + filler;
                        if huge && variant != only && (k > 19 || variant != (only + 3) % 6) || !huge && k > 14 && c.rng.one_in(2) {
                            continue;
                        }
                        let f = if filler == 1 && !multi.is_empty() { c.rng.pick(&multi).to_vec() } else { ascii.clone() };
                        w.clear();
                        let (fs, a) = (size_of(&f), size_of(&ascii));
                        for _ in 0..at / fs {
                            w.extend_from_slice(&f);
                        }
                        for _ in 0..at % fs / a {
                            w.extend_from_slice(&ascii);
                        }
                        match kind {
                            0 if !multi.is_empty() => w.extend_from_slice(c.rng.pick(&multi)),
                            1 if !p.invalid.is_empty() => w.extend_from_slice(c.rng.pick(&p.invalid)),
                            2 if d == DEC && !multi.is_empty() => {
                                let u = c.rng.pick(&multi);
                                w.extend_from_slice(&u[..c.rng.clone().range(1, u.len() - 1)]);
                            }
                            _ => w.extend_from_slice(c.rng.pick(&p.valid)),
                        }
                        match c.rng.below(3) {
                            0 => {
                                for _ in 0..3 {
                                    w.extend_from_slice(&ascii);
                                }
                            }
                            1 => w.extend_from_slice(c.rng.pick(&p.valid)),
                            _ => {}
                        }
                        s.largest.fetch_max(w.len(), Ordering::Relaxed);
                        if !s.visit(c, e, d, &w) {
                            return false;
                        }
                    }
                }
            }
        }
        Job::Lengths { e, d, lo, hi } => {
            let p = &s.pools[&(e, d == ENC)];
            let mut ascii = Vec::new();
            ascii_unit(e, d, b'x', &mut ascii);
            for n in lo..hi {
                for variant in [0, c.rng.clone().range(1, 2)] {
                    // one letter, or two or three in turn, filled up with ASCII to the very length
                    let last = match c.rng.below(3) {
                        0 if !p.invalid.is_empty() => c.rng.pick(&p.invalid).clone(),
                        1 if d == DEC => {
                            let u = c.rng.pick(&p.valid);
                            u[..c.rng.clone().range(1, u.len())].to_vec()
                        }
                        _ => c.rng.pick(&p.valid).clone(),
                    };
                    let mut f: Vec<u8> = Vec::new();
                    match variant {
                        0 => f.extend_from_slice(&ascii),
                        1 => f.extend_from_slice(c.rng.pick(&p.valid)),
                        _ => {
                            for _ in 0..c.rng.clone().range(2, 3) {
                                f.extend_from_slice(c.rng.pick(&p.valid));
                            }
                        }
                    }
                    w.clear();
                    while w.len() + f.len() + last.len() <= n {
                        w.extend_from_slice(&f);
                    }
                    while w.len() + ascii.len() + last.len() <= n {
                        w.extend_from_slice(&ascii);
                    }
                    w.extend_from_slice(&last);
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Signs { e, d, i } => {
            let p = &s.pools[&(e, d == ENC)];
            let mut sign = Vec::new();
            if !gen::sign(s.o, e, d, i, &mut sign) {
                return true;
            }
            let all: Vec<Vec<u8>> = p.valid.iter().chain(p.invalid.iter()).cloned().collect();
            let mut probes: Vec<Vec<u8>> = vec![vec![]];
            for &b in b"\\~!aB $\0\n\x7F\x1B" {
                let mut t = vec![];
                ascii_unit(e, d, b, &mut t);
                probes.push(t);
            }
            probes.push(sign.clone());
            for _ in 0..12 {
                probes.push(c.rng.pick(&all).clone());
            }
            let mut ascii = vec![];
            ascii_unit(e, d, b'x', &mut ascii);
            for front in 0..5 {
                for probe in &probes {
                    w.clear();
                    match front {
                        0 => {}
                        1 => w.extend_from_slice(&ascii),
                        2 => w.extend_from_slice(c.rng.pick(&p.valid)),
                        3 => w.extend_from_slice(c.rng.pick(&all)),
                        _ => (0..c.rng.range(2, 40)).for_each(|_| w.extend_from_slice(&ascii)),
                    }
                    w.extend_from_slice(&sign);
                    w.extend_from_slice(probe);
                    if c.rng.one_in(3) {
                        w.extend_from_slice(c.rng.pick(&p.valid));
                    }
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Hint { e, d, i } => {
            let p = &s.pools[&(e, d == ENC)];
            let all = &gen::hints(e).unwrap().pieces[(d == ENC) as usize];
            let piece = &all[i];
            let near: Vec<&Vec<u8>> = p.valid.iter().chain(p.invalid.iter()).collect();
            let mut ascii = vec![];
            ascii_unit(e, d, b'x', &mut ascii);
            let every = (all.len() / 200).max(1);
            let n = all.len() / every + near.len();
            for k in 0..n {
                let other: &[u8] = if k < near.len() { near[k] } else { &all[((k - near.len()) * every + i) % all.len()] };
                for front in 0..3 {
                    w.clear();
                    match front {
                        0 => {}
                        1 => w.extend_from_slice(&ascii),
                        _ => {
                            for _ in 0..c.rng.range(1, 9) {
                                let x: &[u8] = match c.rng.below(3) {
                                    0 => c.rng.pick(&all[..]),
                                    1 => &ascii,
                                    _ => c.rng.pick(&p.valid),
                                };
                                w.extend_from_slice(x);
                            }
                        }
                    }
                    let swap = c.rng.one_in(2) && front > 0;
                    w.extend_from_slice(if swap { other } else { piece });
                    w.extend_from_slice(if swap { piece } else { other });
                    match c.rng.below(4) {
                        0 => w.extend_from_slice(c.rng.pick(&p.valid)),
                        1 => w.extend_from_slice(c.rng.pick(&all[..])),
                        2 => w.extend_from_slice(piece),
                        _ => {}
                    }
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                }
            }
        }
        Job::Words { e, d, kind, at } => {
            let n = letters(s.o, e);
            let p = &s.pools[&(e, d == ENC)];
            let unit = |x: u32, v: &mut Vec<Vec<u8>>| {
                let mut t = vec![];
                if d == ENC && s.o.enc1(e, x).is_some() {
                    push_char(&mut t, x);
                    v.push(t);
                } else if let (DEC, Some((b, n))) = (d, s.o.enc1(e, x)) {
                    v.push(b[..n].to_vec());
                }
            };
            let mut abc: Vec<Vec<u8>> = vec![];
            let len = match kind {
                0 => {
                    (0..128).for_each(|x| unit(x, &mut abc));
                    3
                }
                1 if n <= 256 => {
                    (0..n).for_each(|i| unit(s.o.scalars(e)[i], &mut abc));
                    2
                }
                1 | 2 => {
                    abc = p.valid.clone();
                    2
                }
                3 => {
                    b"<>&;#\\\"'\r\n\t \x1B$(B~%=+-a0/".iter().for_each(|&b| unit(b as u32, &mut abc));
                    if c.p == P::C24 || targets(c.p).len() > 40 { 3 } else { 4 }
                }
                4 => {
                    abc = p.valid.iter().step_by(p.valid.len() / 24 + 1).cloned().collect();
                    3
                }
                5 => {
                    // a script: neighbours in the encoding
                    let mut t = vec![];
                    for i in 0..40 {
                        t.clear();
                        if letter(s.o, e, d, (at + i) % n, &mut t) {
                            abc.push(t.clone());
                        }
                    }
                    3
                }
                7..=9 => {
                    // a few characters, of all lengths, in longer words
                    let (k, n) = [(6, 5), (3, 8), (2, 12)][kind as usize - 7];
                    let mut classes: Vec<u32> = [0x41, 0xE9, 0x3042, 0x1F63A, 0x2019, 0x4ECA, 0xFEFF, 0x20000, 0xD, 0xFF76, 0x416, 0x301].to_vec();
                    for i in 0..classes.len() {
                        let j = c.rng.range(i, classes.len() - 1);
                        classes.swap(i, j);
                    }
                    classes.iter().for_each(|&x| unit(x, &mut abc));
                    abc.truncate(k * 2 / 3);
                    while abc.len() < k {
                        abc.push(c.rng.pick(&p.valid).clone());
                    }
                    n
                }
                _ => {
                    // any characters of the encoding
                    let mut t = vec![];
                    for _ in 0..200 {
                        t.clear();
                        if letter(s.o, e, d, c.rng.below(n), &mut t) {
                            abc.push(t.clone());
                        }
                    }
                    2
                }
            };
            abc.retain(|u| !u.is_empty());
            if abc.len() < 2 {
                return true;
            }
            // in pieces of whole characters: a call has a limit
            let piece = if kind == 0 { 0x40000 } else { 0x10000 };
            let mut order = Vec::new();
            gen::de_bruijn(abc.len(), len, &mut |i| order.push(i as u8));
            let last = order.len() - 1;
            for (j, &i) in order.iter().enumerate() {
                w.extend_from_slice(&abc[i as usize]);
                if w.len() >= piece || j == last {
                    if !s.visit(c, e, d, &w) {
                        return false;
                    }
                    w.clear();
                    // the words across the cut
                    for &i in &order[(j + 2).saturating_sub(len)..=j] {
                        w.extend_from_slice(&abc[i as usize]);
                    }
                }
            }
        }
        Job::Model { lo, hi } => {
            for l in &s.model[lo..hi] {
                if !model_line(s, c, l) {
                    return false;
                }
            }
        }
    }
    true
}

/// A window TLC enumerated, with the results the specification allows.
fn model_line(s: &Shared, c: &mut Ctx, l: &J) -> bool {
    let e = index(l.get("e").str());
    let d = if l.get("d").str() == "enc" { ENC } else { DEC };
    let mut w = Vec::new();
    for x in l.get("w").ints() {
        if d == ENC {
            push_char(&mut w, x as u32);
        } else {
            w.push(x as u8);
        }
    }
    // element index -> byte position
    let mut at = vec![0usize];
    for i in 1..=w.len() {
        if d == DEC || i == w.len() || w[i] & 0xC0 != 0x80 {
            at.push(i);
        }
    }
    if !l.get("s").arr().is_empty() {
        return schedule(s, c, l, e, d, &w, &at);
    }
    let mut x = Exp::new();
    for r in l.get("x").arr() {
        let r = r.arr();
        let cap = r[0].num() as usize;
        let fin = r[1].bool();
        s.o.exp(e, d, &w, fin, &mut x);
        // The interpreter must allow exactly what TLC says.
        let mut mine: Vec<(bool, usize, usize, Vec<u8>)> = Vec::new();
        let (pos, len) = x.fit(cap);
        let room = cap - len;
        if pos < x.pos() || x.stop != Stop::Err || room < s.o.max_unit(e, d) {
            mine.push((true, pos, 0, x.out[..len].to_vec()));
        }
        if pos == x.pos() && x.may_err() {
            mine.push((false, pos, x.n, x.out[..len].to_vec()));
        }
        let mut tlc: Vec<(bool, usize, usize, Vec<u8>)> = r[2]
            .arr()
            .iter()
            .map(|q| {
                let u = at[q.get("used").num() as usize];
                let n = q.get("n").num() as usize;
                let n = at[q.get("used").num() as usize + n] - u;
                (q.get("ok").bool(), u, n, q.get("out").ints().iter().map(|&b| b as u8).collect())
            })
            .collect();
        mine.sort();
        tlc.sort();
        if mine != tlc {
            eprintln!("INTERPRETER MISMATCH {} {} {:?} cap {} fin {}: {:?} vs TLC {:?}", CODECS[e].name, d.name(), w, cap, fin, mine, tlc);
            std::process::exit(2);
        }
        // Step for step against the real code.
        c.place();
        let o = c.run.call(e, d, &w, cap, fin);
        let out = c.run.out(&o).to_vec();
        let got = match o.kind {
            Kind::Ok => Some((true, o.lo, 0, out)),
            Kind::Err => Some((false, o.lo, o.hi.wrapping_sub(o.lo), out)),
            _ => None,
        };
        s.model_calls.fetch_add(1, Ordering::Relaxed);
        if !got.map(|g| tlc.contains(&g)).unwrap_or(false) {
            s.deviations.fetch_add(1, Ordering::Relaxed);
        }
    }
    for _ in 0..2 {
        if targets(c.p).contains(&(e, d)) && !s.visit(c, e, d, &w) {
            return false;
        }
    }
    true
}

/// A behaviour TLC generated: the client of the real code does the same, and
/// what the code returns is compared with what the specification returned.
fn schedule(s: &Shared, c: &mut Ctx, l: &J, e: usize, d: Dir, w: &[u8], at: &[usize]) -> bool {
    let pipe = !matches!(l.get("to"), J::Null);
    if !targets(c.p).contains(&(e, d)) || pipe != (c.p == P::C24) {
        return true;
    }
    let steps: Vec<&[J]> = l.get("s").arr().iter().map(|q| q.arr()).collect();
    let k = if pipe { 1 } else { 0 };
    c.script = steps
        .iter()
        .map(|q| {
            let stage = if pipe { q[0].num() as u8 } else { 1 };
            let a = q[k].num() as usize;
            Step { stage, a: if stage == 1 { at[a] } else { a }, cap: q[k + 1].num() as usize, fin: q[k + 2].bool() }
        })
        .collect();
    c.script_to = if pipe { Some(index(l.get("to").str())) } else { None };
    let go = s.visit(c, e, d, w);
    // In lock-step, up to the first error where the client stops at errors.
    let (mut i1, mut i2) = (0, 0);
    for q in &steps {
        let second = pipe && q[0].num() == 2;
        let got = if second { c.s2.get(i2) } else { c.s1.get(i1) };
        let got = match got {
            Some(g) => g,
            None => break,
        };
        if second { i2 += 1 } else { i1 += 1 }
        s.model_calls.fetch_add(1, Ordering::Relaxed);
        let chars = second || d == ENC;
        let used = if chars { count_chars(&got.w[..got.obs.lo.min(got.len)]) } else { got.obs.lo };
        let wrote = if pipe && !second { count_chars(&got.out) } else { got.out.len() };
        let ok = q[k + 3].bool();
        let n = if ok || pipe { 0 } else if chars { 1 } else { got.obs.hi.wrapping_sub(got.obs.lo) };
        if got.obs.ok() != ok || used != q[k + 4].num() as usize || wrote != q[k + 5].num() as usize
            || !ok && !pipe && n != q[6].num() as usize
        {
            // another branch than the one TLC took
            let mut x = Exp::new();
            s.o.exp(got.e, got.d, &got.w, got.fin, &mut x);
            if !c.allows(&x, got) {
                s.deviations.fetch_add(1, Ordering::Relaxed);
            }
            break;
        }
        if !ok && matches!(c.p, P::C10 | P::C11) {
            break;
        }
    }
    s.schedules.fetch_add(1, Ordering::Relaxed);
    c.script.clear();
    c.script_to = None;
    go
}

fn load_oracle(path: &str) -> Oracle {
    Oracle::load(&json::parse(&std::fs::read_to_string(path).expect("oracle file")))
}

fn child(args: &[String]) {
    quiet();
    let p = P::parse(&arg(args, "--prop").expect("--prop"));
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = arg(args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let hard: f64 = arg(args, "--hard").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let outdir = arg(args, "--out").expect("--out");
    let oracle = load_oracle(&arg(args, "--oracle").expect("--oracle"));
    if let Some(f) = arg(args, "--hints") {
        gen::load_hints(&oracle, &json::parse(&std::fs::read_to_string(f).expect("hints file")));
    }
    let nt = threads();
    let slots = Slots::open(&arg(args, "--slots").expect("--slots"), nt + 1, false);
    let mut pools = BTreeMap::new();
    for e in 0..CODECS.len() {
        pools.insert((e, false), pool(&oracle, e, DEC));
        pools.insert((e, true), pool(&oracle, e, ENC));
    }
    let model: Vec<J> = match arg(args, "--model") {
        Some(f) => std::fs::read_to_string(f)
            .expect("model file")
            .lines()
            .filter(|l| l.starts_with("\"@@"))
            .map(|l| json::parse(&l[3..l.len() - 1].replace("\\\"", "\"")))
            .collect(),
        None => vec![],
    };
    let mut js = jobs(p, thorough, &oracle, &pools, model.len());
    if let Some(k) = arg(args, "--only") {
        js.retain(|j| j.kind() == k);
    }
    let pace = pace(&pools, slots.slot(0));
    let sh = Shared {
        o: &oracle,
        pace,
        slow: AtomicU64::new(0),
        pools,
        model,
        suspects: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        by: Mutex::new(BTreeMap::new()),
        stop: AtomicBool::new(false),
        model_calls: AtomicU64::new(0),
        deviations: AtomicU64::new(0),
        schedules: AtomicU64::new(0),
        largest: AtomicUsize::new(0),
        seed,
    };
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let calls = AtomicU64::new(0);
    let windows = AtomicU64::new(0);
    let random = AtomicU64::new(0);
    let start = Instant::now();
    let t = targets(p);
    let hist = if p == P::C18 { history(&sh, &slots, nt, seed, thorough, &format!("{}/history.ndjson", outdir)) } else { (0, 0) };
    let extra = if p == P::C18 { purity(&sh, &slots, nt, seed, budget, thorough, &outdir) } else { (0, 0, 0) };
    if p != P::C18 {
        std::thread::scope(|scope| {
            for i in 0..nt {
                let slot = slots.slot(i);
                let (sh, js, next, done, calls, windows, random, t) = (&sh, &js, &next, &done, &calls, &windows, &random, &t);
                scope.spawn(move || {
                    let mut c = Ctx::new(sh.o, Some(slot), p, seed.wrapping_mul(1000) + i as u64);
                    let mut by: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= js.len() || sh.stop.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > hard {
                            break;
                        }
                        c.rng = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(k as u64));
                        let before = c.cases;
                        let ok = run_job(sh, &mut c, &js[k]);
                        *by.entry(js[k].kind()).or_insert(0) += c.cases - before;
                        if !ok {
                            break;
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    // Random windows for the rest of the budget (at least two fifths of it).
                    let begin = Instant::now();
                    let mut w = Vec::new();
                    let mut r = 0u64;
                    c.rng = Rng::new(seed.wrapping_mul(77) + 13 * i as u64);
                    while !sh.stop.load(Ordering::Relaxed)
                        && (start.elapsed().as_secs_f64() < budget || begin.elapsed().as_secs_f64() < (budget * 0.4).max(1.0))
                    {
                        let (e, d) = t[c.rng.below(t.len())];
                        let n = match c.rng.below(20) {
                            0..=9 => c.rng.range(1, 8),
                            10..=15 => c.rng.range(5, 40),
                            16..=18 => c.rng.range(30, 120),
                            _ => c.rng.range(100, 700),
                        };
                        let mut rng = c.rng.clone();
                        rand_window(sh.o, e, d, &sh.pools[&(e, d == ENC)], &mut rng, n, &mut w);
                        c.rng = rng;
                        r += 1;
                        if !sh.visit(&mut c, e, d, &w) {
                            break;
                        }
                    }
                    random.fetch_add(r, Ordering::Relaxed);
                    calls.fetch_add(c.run.calls, Ordering::Relaxed);
                    windows.fetch_add(c.cases, Ordering::Relaxed);
                    let mut g = sh.by.lock().unwrap();
                    for (k, v) in by {
                        *g.entry(k).or_insert(0) += v;
                    }
                });
            }
        });
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/cases.ndjson", outdir)).unwrap());
    let sus = sh.suspects.lock().unwrap();
    for s in sus.iter().chain(sh.samples.lock().unwrap().iter()) {
        writeln!(f, "{}", s).unwrap();
    }
    f.flush().unwrap();
    let by = sh.by.lock().unwrap().iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    std::fs::write(
        format!("{}/stats.json", outdir),
        format!(
            "{{\"vast_calls\":{},\"windows\":{},\"calls\":{},\"suspects\":{},\"crashed\":false,\"histories\":{},\"events\":{},\"jobs\":{},\"jobs_done\":{},\"model_lines\":{},\"model_calls\":{},\"deviations\":{},\"schedules\":{},\"random_windows\":{},\"largest\":{},\"skipped_as_slow\":{},\"secs\":{},\"by\":{{{}}}}}",
            VAST_CALLS.load(Ordering::Relaxed),
            windows.load(Ordering::Relaxed) + extra.0,
            calls.load(Ordering::Relaxed) + extra.1,
            sus.len(),
            hist.0,
            hist.1,
            js.len(),
            done.load(Ordering::Relaxed),
            sh.model.len(),
            sh.model_calls.load(Ordering::Relaxed),
            sh.deviations.load(Ordering::Relaxed),
            sh.schedules.load(Ordering::Relaxed),
            random.load(Ordering::Relaxed) + extra.2,
            sh.largest.load(Ordering::Relaxed),
            sh.slow.load(Ordering::Relaxed),
            start.elapsed().as_secs(),
            by
        ),
    )
    .unwrap();
}

// ---------------------------------------------------------------------------
// C18

struct Probe {
    e: usize,
    d: Dir,
    w: Vec<u8>,
    cap: usize,
    fin: bool,
}

/// The same calls in many histories, orders, threads, places and over many
/// prior buffer contents: each must always give what it gave the first time.
fn purity(sh: &Shared, slots: &Slots, nt: usize, seed: u64, budget: f64, thorough: bool, out: &str) -> (u64, u64, u64) {
    let start = Instant::now();
    let mut rng = Rng::new(seed);
    let mut probes: Vec<Probe> = Vec::new();
    let mut groups: Vec<Vec<usize>> = Vec::new();
    let per = if thorough { 400 } else { 130 };
    let mut x = Exp::new();
    for &(e, d) in &targets(P::C18) {
        let p = &sh.pools[&(e, d == ENC)];
        let mut g = Vec::new();
        for k in 0..per {
            let mut w = Vec::new();
            if k % 3 == 0 {
                w = rng.pick(if k % 2 == 0 || p.invalid.is_empty() { &p.valid } else { &p.invalid }).clone();
            } else {
                let n = if k % 10 == 1 { rng.range(20, 200) } else { rng.range(1, 8) };
                let mut r = rng.clone();
                rand_window(sh.o, e, d, p, &mut r, n, &mut w);
                rng = r;
            }
            let fin = !has_end(e, d) || rng.one_in(2);
            sh.o.exp(e, d, &w, fin, &mut x);
            let cap = if rng.one_in(2) { x.need() + 8 } else { rng.below(x.need() + 3) };
            g.push(probes.len());
            probes.push(Probe { e, d, w, cap, fin });
        }
        // The two halves of a piece that takes several elements.
        for _ in 0..per / 10 {
            let w = if rng.one_in(3) && !p.invalid.is_empty() { rng.pick(&p.invalid).clone() } else { rng.pick(&p.valid).clone() };
            if d == ENC || w.len() < 2 {
                continue;
            }
            let at = rng.range(1, w.len() - 1);
            for h in [w[..at].to_vec(), w[at..].to_vec()] {
                let fin = rng.one_in(2);
                g.push(probes.len());
                probes.push(Probe { e, d, w: h, cap: 64, fin });
            }
        }
        groups.push(g);
    }
    let own = groups.len();
    // The same input given to every encoding there is.
    for &d in &[DEC, ENC] {
        for k in 0..per / 4 {
            let (e0, _) = *rng.pick(&targets(P::C18));
            let mut w = Vec::new();
            let n = if k % 5 == 0 { rng.range(8, 60) } else { rng.range(1, 4) };
            let mut r = rng.clone();
            rand_window(sh.o, e0, d, &sh.pools[&(e0, d == ENC)], &mut r, n, &mut w);
            rng = r;
            let cap = if rng.one_in(3) { rng.below(w.len() + 3) } else { w.len() * 4 + 16 };
            let fin = rng.one_in(2);
            let mut g = Vec::new();
            for &(e, d2) in &targets(P::C18) {
                if d2 == d {
                    g.push(probes.len());
                    probes.push(Probe { e, d, w: w.clone(), cap, fin: fin || !has_end(e, d) });
                }
            }
            groups.push(g);
        }
    }
    let calls = AtomicU64::new(0);
    let runs = AtomicU64::new(0);
    // First time: in order, one thread.
    let mut base: Vec<Call> = Vec::new();
    {
        let mut r = Runner::new(Some(slots.slot(0)));
        for p in &probes {
            base.push(exec_probe(&mut r, p, &mut rng));
        }
        calls.fetch_add(r.calls, Ordering::Relaxed);
    }
    let (probes, base, groups) = (&probes, &base, &groups);
    runs.fetch_add(cold_starts(sh, probes, base, &groups[..own], &mut rng, if thorough { 400 } else { 60 }, out), Ordering::Relaxed);
    let compare = |r: &mut Runner, i: usize, rng: &mut Rng| {
        let c = exec_probe(r, &probes[i], rng);
        if !c.same(&base[i]) {
            let p = &probes[i];
            let case = Case { p: "C18", e: p.e, d: p.d, src: p.w.clone(), calls: vec![base[i].clone(), c], s1: vec![], s2: vec![], text: vec![], log: vec![] };
            let mut s = sh.suspects.lock().unwrap();
            s.push(case.json("suspect"));
            if s.len() >= MAX_SUSPECTS {
                sh.stop.store(true, Ordering::Relaxed);
            }
        } else if probes[i].w.len() <= 24 && rng.one_in(20000) {
            let p = &probes[i];
            let case = Case { p: "C18", e: p.e, d: p.d, src: p.w.clone(), calls: vec![base[i].clone(), c], s1: vec![], s2: vec![], text: vec![], log: vec![] };
            let mut s = sh.samples.lock().unwrap();
            if s.len() < 400 {
                s.push(case.json("sample"));
            }
        }
    };
    // Every ordered pair within an encoding and direction; every placement and
    // prior content comes up at random.  One thread per group, all at once.
    let next = AtomicUsize::new(0);
    std::thread::scope(|scope| {
        for i in 0..nt {
            let slot = slots.slot(i);
            let (next, calls, runs, compare) = (&next, &calls, &runs, &compare);
            scope.spawn(move || {
                let mut r = Runner::new(Some(slot));
                let mut rng = Rng::new(seed.wrapping_mul(31) + i as u64);
                loop {
                    let g = next.fetch_add(1, Ordering::Relaxed);
                    if g >= groups.len() || sh.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    for &a in &groups[g] {
                        for &b in &groups[g] {
                            compare(&mut r, a, &mut rng);
                            compare(&mut r, b, &mut rng);
                        }
                        runs.fetch_add(groups[g].len() as u64, Ordering::Relaxed);
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                }
                calls.fetch_add(r.calls, Ordering::Relaxed);
            });
        }
    });
    // Random histories over everything, on all threads together; half of the
    // time all threads hammer the same encoding.
    let epoch = AtomicU64::new(0);
    std::thread::scope(|scope| {
        for i in 0..nt {
            let slot = slots.slot(i);
            let (calls, runs, compare, epoch) = (&calls, &runs, &compare, &epoch);
            scope.spawn(move || {
                let mut r = Runner::new(Some(slot));
                let mut rng = Rng::new(seed.wrapping_mul(57) + i as u64);
                while !sh.stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < budget {
                    let ep = if i == 0 { epoch.fetch_add(1, Ordering::Relaxed) } else { epoch.load(Ordering::Relaxed) };
                    let g = &groups[(ep as usize * 7) % own];
                    let narrow = ep % 2 == 0;
                    for _ in 0..500 {
                        let k = if narrow { *rng.pick(g) } else { rng.below(probes.len()) };
                        compare(&mut r, k, &mut rng);
                    }
                    runs.fetch_add(500, Ordering::Relaxed);
                    // What a client that reads a stream calls, one after the other, and each of those calls
                    // by itself behind one that has nothing to do with it.
                    let (e, d) = (probes[g[0]].e, probes[g[0]].d);
                    let pool = &sh.pools[&(e, d == ENC)];
                    let mut neutral = Probe { e, d, w: Vec::new(), cap: 40, fin: true };
                    ascii_unit(e, d, b'x', &mut neutral.w);
                    let mut w = Vec::new();
                    for _ in 0..150 {
                        w.clear();
                        for _ in 0..rng.range(1, 4) {
                            let from = if rng.one_in(3) && !pool.invalid.is_empty() { &pool.invalid } else { &pool.valid };
                            w.extend_from_slice(rng.pick(from));
                        }
                        if rng.one_in(4) {
                            w.truncate(w.len() / 2 + 1);
                        }
                        let mut at: Vec<usize> = vec![0, w.len()];
                        for _ in 0..rng.range(1, 2) {
                            at.push(rng.below(w.len() + 1));
                        }
                        if d == ENC {
                            while std::str::from_utf8(&w).is_err() {
                                w.pop();
                            }
                            for k in at.iter_mut() {
                                *k = (*k).min(w.len());
                                while std::str::from_utf8(&w[..*k]).is_err() {
                                    *k -= 1;
                                }
                            }
                        }
                        at.sort();
                        let mut parts = Vec::new();
                        for k in 0..at.len() - 1 {
                            let last = k + 2 == at.len();
                            let cap = if rng.one_in(3) { rng.below(9) } else { 40 };
                            // (some take up the stream a little before or behind where they left it)
                            let mut from = at[k];
                            if d == DEC && rng.one_in(2) {
                                from = (from + rng.below(7)).saturating_sub(3).min(at[k + 1]);
                            }
                            parts.push(Probe { e, d, w: w[from..at[k + 1]].to_vec(), cap, fin: !has_end(e, d) || last && rng.one_in(2) });
                        }
                        let mut alone = Vec::new();
                        for p in &parts {
                            exec_probe(&mut r, &neutral, &mut rng);
                            alone.push(exec_probe(&mut r, p, &mut rng));
                        }
                        exec_probe(&mut r, &neutral, &mut rng);
                        for k in 0..parts.len() {
                            let c = exec_probe(&mut r, &parts[k], &mut rng);
                            if !c.same(&alone[k]) {
                                let p = &parts[k];
                                let case = Case { p: "C18", e, d, src: p.w.clone(), calls: vec![alone[k].clone(), c], s1: vec![], s2: vec![], text: vec![], log: vec![] };
                                let mut s = sh.suspects.lock().unwrap();
                                s.push(case.json("suspect"));
                                if s.len() >= MAX_SUSPECTS {
                                    sh.stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        runs.fetch_add(2 * parts.len() as u64, Ordering::Relaxed);
                    }
                    // One call again and again, or two in turn, and then another.
                    for _ in 0..12 {
                        let (a, b, z) = (*rng.pick(g), *rng.pick(g), *rng.pick(g));
                        let n = match rng.below(8) {
                            0 => rng.range(11, 70),
                            1 => *rng.pick(&[100, 127, 128, 255, 256, 257]),
                            _ => rng.range(2, 10),
                        };
                        let two = rng.one_in(3);
                        for k in 0..n {
                            compare(&mut r, if two && k % 2 == 1 { b } else { a }, &mut rng);
                        }
                        compare(&mut r, z, &mut rng);
                        runs.fetch_add(n as u64 + 1, Ordering::Relaxed);
                    }
                }
                calls.fetch_add(r.calls, Ordering::Relaxed);
            });
        }
    });
    // And once more in order, after all that.
    let mut r = Runner::new(Some(slots.slot(0)));
    for i in 0..probes.len() {
        compare(&mut r, i, &mut rng);
    }
    (probes.len() as u64, calls.load(Ordering::Relaxed), runs.load(Ordering::Relaxed))
}

/// Whatever a library sets up on first use, it may be used by several threads at that very moment: fresh
/// processes in which all threads make their first calls of each encoding together.
fn cold_starts(sh: &Shared, probes: &[Probe], base: &[Call], groups: &[Vec<usize>], rng: &mut Rng, n: usize, out: &str) -> u64 {
    let path = format!("{}/cold", out);
    let hex = |w: &[u8]| w.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let mut done = 0;
    let began = Instant::now();
    for run in 0..n {
        // (slow code gets fewer of them)
        if run >= 5 && began.elapsed().as_secs_f64() > n as f64 * 0.3 {
            break;
        }
        let mut text = String::new();
        for g in groups {
            for _ in 0..12 {
                let i = *rng.pick(g);
                let p = &probes[i];
                text += &format!("{} {} {} {} {} {}\n", i, p.e, (p.d == ENC) as u8, p.cap, p.fin as u8, hex(&p.w));
            }
        }
        std::fs::write(&path, text).unwrap();
        let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&["cold", &path, &rng.next().to_string()])
            .stdout(std::fs::File::create(format!("{}.out", path)).unwrap())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let start = Instant::now();
        let died = loop {
            match ch.try_wait().unwrap() {
                Some(s) => break if s.success() { None } else { Some(Kind::Crash) },
                None if start.elapsed().as_secs() > 60 => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some(Kind::Hang);
                }
                None => std::thread::sleep(std::time::Duration::from_millis(2)),
            }
        };
        let said = std::fs::read_to_string(format!("{}.out", path)).unwrap();
        let mut last = 0;
        let mut bad: Vec<(usize, Call)> = Vec::new();
        for l in said.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let num = |k: usize| f[k].parse::<usize>().unwrap();
            if f[0] == "group" && f.len() == 2 {
                last = num(1);
            } else if f[0] == "call" && f.len() == 12 {
                done += 1;
                let kind = match f[3] {
                    "ok" => Kind::Ok,
                    "err" => Kind::Err,
                    _ => Kind::Panic,
                };
                let obs = Obs { kind, lo: num(4), hi: num(5), wr: num(6), ch: num(7) as u32, cause: num(8) as u8, at0: f[9] == "true", oob: f[10] == "true" };
                let p = &probes[num(1)];
                let o: Vec<u8> = (0..f[11].len() / 2).map(|k| u8::from_str_radix(&f[11][2 * k..2 * k + 2], 16).unwrap()).collect();
                let c = Call { e: p.e, d: p.d, w: p.w.clone(), len: p.w.len(), b: 0, cap: p.cap, fin: p.fin, pl: num(2) as u32, obs, out: o };
                if !c.same(&base[num(1)]) {
                    bad.push((num(1), c));
                }
            }
        }
        if let Some(kind) = died {
            let p = &probes[last];
            bad.push((last, Call { e: p.e, d: p.d, w: p.w.clone(), len: p.w.len(), b: 0, cap: p.cap, fin: p.fin, pl: 0, obs: Obs::dead(kind), out: vec![] }));
        }
        let any = !bad.is_empty();
        for (i, c) in bad.into_iter().take(6) {
            let p = &probes[i];
            let case = Case { p: "C18", e: p.e, d: p.d, src: p.w.clone(), calls: vec![base[i].clone(), c], s1: vec![], s2: vec![], text: vec![], log: vec![] };
            sh.suspects.lock().unwrap().push(case.json("suspect"));
        }
        if any && run > 3 {
            break;
        }
    }
    done
}

/// One such process: the calls of a file, all threads starting each group of them together; says how
/// each call that was somebody's first went.
fn cold(args: &[String]) {
    quiet();
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut rng = Rng::new(args[3].parse().unwrap());
    let mut groups: Vec<Vec<(usize, Probe)>> = Vec::new();
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let num = |k: usize| f[k].parse::<usize>().unwrap();
        let w: Vec<u8> = (0..f[5].len() / 2).map(|k| u8::from_str_radix(&f[5][2 * k..2 * k + 2], 16).unwrap()).collect();
        let p = Probe { e: num(1), d: if num(2) == 1 { ENC } else { DEC }, w, cap: num(3), fin: num(4) == 1 };
        let fits = groups.last().map_or(false, |g: &Vec<(usize, Probe)>| g[0].1.e == p.e && g[0].1.d == p.d);
        if !fits {
            groups.push(Vec::new());
        }
        groups.last_mut().unwrap().push((num(0), p));
    }
    for i in (1..groups.len()).rev() {
        let j = rng.below(i + 1);
        groups.swap(i, j);
    }
    let groups = &groups;
    let nt = threads().max(4);
    let gate = std::sync::Barrier::new(nt);
    let said = Mutex::new(());
    let seed = rng.next();
    std::thread::scope(|scope| {
        for t in 0..nt {
            let (gate, said) = (&gate, &said);
            scope.spawn(move || {
                let mut r = Runner::new(None);
                let mut rng = Rng::new(seed.wrapping_add(t as u64 * 977));
                for g in groups {
                    if t == 0 {
                        let _g = said.lock().unwrap();
                        println!("group {}", g[0].0);
                    }
                    gate.wait();
                    let from = rng.below(g.len());
                    let mut text = String::new();
                    for k in 0..g.len() {
                        let (i, p) = &g[(from + k) % g.len()];
                        let c = exec_probe(&mut r, p, &mut rng);
                        let o = &c.obs;
                        text += &format!("call {} {} {} {} {} {} {} {} {} {} ", i, c.pl, o.kind.name(), o.lo, o.hi, o.wr, o.ch, o.cause, o.at0, o.oob);
                        for b in &c.out {
                            text += &format!("{:02x}", b);
                        }
                        text += "\n";
                    }
                    let _g = said.lock().unwrap();
                    print!("{}", text);
                }
            });
        }
    });
}

/// Concurrent histories, as sequences of invocation and return events in the
/// order a global counter gave them (validated by spec/PureTrace.tla).
fn history(sh: &Shared, slots: &Slots, nt: usize, seed: u64, thorough: bool, path: &str) -> (u64, u64) {
    let mut rng = Rng::new(seed ^ 0x5151);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let t = targets(P::C18);
    let n = if thorough { 200 } else { 24 };
    let (mut hists, mut events) = (0u64, 0u64);
    for h in 0..n {
        // a few calls of one or two encodings, fought over by all threads
        let mut probes: Vec<Probe> = Vec::new();
        let (e1, d1) = if h % 2 == 0 { t[(h / 2 * 5 + seed as usize) % t.len()] } else { t[rng.below(t.len())] };
        let mut x = Exp::new();
        for k in 0..12 {
            let (e, d) = if k % 4 == 3 { t[rng.below(t.len())] } else { (e1, d1) };
            let mut w = Vec::new();
            let len = rng.range(1, 6);
            let mut r = rng.clone();
            rand_window(sh.o, e, d, &sh.pools[&(e, d == ENC)], &mut r, len, &mut w);
            rng = r;
            let fin = !has_end(e, d) || rng.one_in(2);
            sh.o.exp(e, d, &w, fin, &mut x);
            let cap = if rng.one_in(2) { x.need() + 8 } else { rng.below(x.need() + 3) };
            probes.push(Probe { e, d, w, cap, fin });
        }
        let clock = AtomicU64::new(0);
        let log: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let barrier = std::sync::Barrier::new(nt);
        std::thread::scope(|scope| {
            for i in 0..nt {
                let (clock, log, probes, barrier) = (&clock, &log, &probes, &barrier);
                let slot = slots.slot(i);
                let mut rng = Rng::new(seed.wrapping_mul(91) + (h * nt + i) as u64);
                scope.spawn(move || {
                    let mut r = Runner::new(Some(slot));
                    let mut mine: Vec<(u64, u64, usize, Call)> = Vec::new();
                    barrier.wait();
                    for _ in 0..20 {
                        let k = rng.below(probes.len());
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let c = exec_probe(&mut r, &probes[k], &mut rng);
                        let b = clock.fetch_add(1, Ordering::SeqCst);
                        mine.push((a, b, k, c));
                    }
                    let mut l = log.lock().unwrap();
                    for (a, b, _, c) in mine {
                        l.push((a, format!("{{\"t\":{},\"k\":\"inv\",\"e\":\"{}\",\"d\":\"{}\",\"w\":{},\"c\":{},\"f\":{}}}", i, CODECS[c.e].name, c.d.name(), elements(c.d, &c.w), c.cap, c.fin)));
                        let o = &c.obs;
                        l.push((b, format!("{{\"t\":{},\"k\":\"ret\",\"r\":[\"{}\",{},{},{},{},{},{},{},{}]}}", i, o.kind.name(), o.lo as u32 & 0x7fff_ffff, o.hi as u32 & 0x7fff_ffff, o.wr as u32 & 0x7fff_ffff,
                            json::list(c.out.iter().map(|&x| x as i64)), o.ch, o.cause, o.at0, o.oob)));
                    }
                });
            }
        });
        let mut l = log.into_inner().unwrap();
        l.sort_by_key(|x| x.0);
        hists += 1;
        events += l.len() as u64;
        writeln!(f, "{{\"ev\":[{}]}}", l.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",")).unwrap();
    }
    f.flush().unwrap();
    (hists, events)
}

fn exec_probe(r: &mut Runner, p: &Probe, rng: &mut Rng) -> Call {
    let q = rng.next();
    let place = |v: u64| match v & 7 {
        0 => 0,
        1 => 1,
        _ => 2 + ((v >> 8) & 63),
    };
    let fill = match (q >> 56) & 7 {
        0 => ECHO as u64 | (q >> 40 & 0xff) << 8,
        1 => RESIDUE as u64,
        _ => (q >> 40) & 0xffff,
    };
    r.placement = (place(q) | (place(q >> 16) << 8) | (fill << 16)) as u32;
    let mut obs = r.call(p.e, p.d, &p.w, p.cap, p.fin);
    if rng.one_in(150) {
        let q = rng.next();
        if let Some(pl) = r.vast_placement(p.e, p.d, &p.w, p.cap, &obs, q) {
            r.placement = pl;
            obs = r.call(p.e, p.d, &p.w, p.cap, p.fin);
        }
    }
    let out = r.out(&obs).to_vec();
    Call { e: p.e, d: p.d, w: p.w.clone(), len: p.w.len(), b: 0, cap: p.cap, fin: p.fin, pl: r.placement, obs, out }
}

// ---------------------------------------------------------------------------
// Replay of a stored case: the same calls once more.

fn replay(args: &[String]) {
    quiet();
    let j = json::parse(&std::fs::read_to_string(&args[2]).expect("case file"));
    let mut r = Runner::new(None);
    let e = index(j.get("e").str());
    let d = if j.get("d").str() == "enc" { ENC } else { DEC };
    let bytes = |d: Dir, v: &J| {
        let mut w = Vec::new();
        for x in v.ints() {
            if d == ENC {
                push_char(&mut w, x as u32);
            } else {
                w.push(x as u8);
            }
        }
        w
    };
    let src = bytes(d, j.get("src"));
    let pname = NAMES[NAMES.iter().position(|n| *n == j.get("p").str()).expect("property")];
    let mut prev_out: Vec<u8> = vec![];
    let mut list = |k: &str, d: Dir, src: &[u8]| {
        let mut v = Vec::new();
        let mut outs: Vec<Vec<u8>> = vec![];
        for (i, c) in j.get(k).arr().iter().enumerate() {
            let ce = index(c.get("e").str());
            let cd = if c.get("d").str() == "enc" { ENC } else { DEC };
            let mut w = bytes(cd, c.get("w"));
            // C07 and C21 feed one call's output to the next.
            if i > 0 && i < 3 && matches!(pname, "C07" | "C21") || i == 1 && k == "calls" && pname == "C24" {
                w = prev_out.clone();
            }
            // C25 decodes what it encoded.
            if k == "calls" && pname == "C25" && (2..5).contains(&i) {
                w = match i {
                    2 => [&outs[0][..], &outs[1][..]].concat(),
                    _ => outs[i - 3].clone(),
                };
            }
            r.placement = c.get("pl").str().parse().unwrap_or(0);
            let cap = c.get("c").num() as usize;
            let fin = c.get("f").bool();
            println!("{} {} cap {} is_end {} input {:02x?}", CODECS[ce].name, cd.name(), cap, fin, w);
            let obs = r.call(ce, cd, &w, cap, fin);
            let out = r.out(&obs).to_vec();
            println!("   -> {:?} out {:02x?}", obs, out);
            prev_out = out.clone();
            outs.push(out.clone());
            let be = c.get("b").num() as usize;
            let b = if d == DEC { be } else { std::str::from_utf8(src).unwrap().char_indices().nth(be).map(|x| x.0).unwrap_or(src.len()) };
            v.push(Call { e: ce, d: cd, len: w.len(), w, b, cap, fin, pl: r.placement, obs, out });
        }
        v
    };
    let calls = list("calls", d, &src);
    let s1 = list("s1", d, &src);
    let mut text = vec![];
    let s2 = if pname == "C24" {
        text = s1.iter().flat_map(|c: &Call| c.out.clone()).collect();
        list("s2", ENC, &text)
    } else {
        list("s2", d, &src)
    };
    let log = j.get("log").ints().iter().map(|&x| x as u8).collect();
    let case = Case { p: pname, e, d, src, calls, s1, s2, text, log };
    if let Some(o) = args.get(3) {
        std::fs::write(o, case.json("suspect") + "\n").unwrap();
    }
}
