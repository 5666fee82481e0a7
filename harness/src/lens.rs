//! One lens per property: which calls to make for a given window of input,
//! and whether what came back is what the property promises.  Each test here
//! has a TLA+ twin in spec/Judge.tla, which gives the final verdict on
//! everything suspicious and on a sample of the rest.
use crate::api::*;
use crate::exec::*;
use crate::json;
use crate::oracle::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b + 1 - a)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// One executed call.
#[derive(Clone)]
pub struct Call {
    pub e: usize,
    pub d: Dir,
    pub w: Vec<u8>, // the window (not kept for steps of long sessions)
    pub len: usize, // its length
    pub b: usize, // bytes of the source before this window (sessions)
    pub cap: usize,
    pub fin: bool,
    pub pl: u32,
    pub obs: Obs,
    pub out: Vec<u8>,
}
impl Call {
    pub fn blank() -> Call {
        Call { e: 0, d: DEC, w: vec![], len: 0, b: 0, cap: 0, fin: false, pl: 0, obs: Obs::dead(Kind::Panic), out: vec![] }
    }
    /// Ok with everything consumed.
    pub fn all(&self) -> bool {
        self.obs.ok() && self.obs.lo == self.w.len()
    }
    pub fn same(&self, o: &Call) -> bool {
        self.obs == o.obs && self.out == o.out
    }
    pub fn json(&self, src: &[u8]) -> String {
        let o = &self.obs;
        let clamp = |x: usize| (x as u64).min(0x7fff_ffff);
        let w = if self.w.len() == self.len { &self.w[..] } else { &src[self.b..self.b + self.len] };
        format!(
            "{{\"e\":\"{}\",\"d\":\"{}\",\"w\":{},\"b\":{},\"c\":{},\"f\":{},\"pl\":\"{}\",\"k\":\"{}\",\"u\":{},\"n\":{},\"o\":{},\"wr\":{},\"ch\":{},\"cs\":{},\"at\":{},\"oob\":{}}}",
            CODECS[self.e].name,
            self.d.name(),
            elements(self.d, w),
            if self.d == DEC { self.b } else { count_chars(&src[..self.b.min(src.len())]) },
            clamp(self.cap),
            self.fin,
            self.pl,
            o.kind.name(),
            clamp(o.lo),
            clamp(o.hi),
            json::list(self.out.iter().map(|&x| x as i64)),
            clamp(o.wr),
            o.ch,
            o.cause,
            o.at0,
            o.oob
        )
    }
}
pub fn count_chars(b: &[u8]) -> usize {
    b.iter().filter(|&&x| x & 0xC0 != 0x80).count()
}
pub fn elements(d: Dir, w: &[u8]) -> String {
    if d == DEC {
        json::list(w.iter().map(|&x| x as i64))
    } else {
        json::list(std::str::from_utf8(w).expect("text").chars().map(|c| c as i64))
    }
}

pub struct Case {
    pub p: &'static str,
    pub e: usize,
    pub d: Dir,
    pub src: Vec<u8>,
    pub calls: Vec<Call>,
    pub s1: Vec<Call>,
    pub s2: Vec<Call>,
    pub text: Vec<u8>, // C24: what s2 is fed from
    pub log: Vec<u8>,  // C24: the order of the steps of s1 and s2
}
impl Case {
    pub fn json(&self, status: &str) -> String {
        let l = |v: &Vec<Call>, src: &[u8]| v.iter().map(|c| c.json(src)).collect::<Vec<_>>().join(",");
        format!(
            "{{\"p\":\"{}\",\"status\":\"{}\",\"e\":\"{}\",\"d\":\"{}\",\"src\":{},\"calls\":[{}],\"s1\":[{}],\"s2\":[{}],\"text\":{},\"log\":{}}}",
            self.p,
            status,
            CODECS[self.e].name,
            self.d.name(),
            elements(self.d, &self.src),
            l(&self.calls, &self.src),
            l(&self.s1, &self.src),
            l(&self.s2, if self.p == "C24" { &self.text } else { &self.src }),
            elements(ENC, &self.text),
            json::list(self.log.iter().map(|&x| x as i64))
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C01 = 1,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C08,
    C09,
    C10,
    C11,
    C12,
    C13,
    C14,
    C15,
    C16,
    C17,
    C18,
    C19,
    C20,
    C21,
    C22,
    C23,
    C24,
    C25,
    C26,
    C27,
}
pub static NAMES: [&str; 28] = [
    "", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];
impl P {
    pub fn parse(s: &str) -> P {
        use P::*;
        [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27]
            [NAMES.iter().position(|n| *n == s).expect("property id") - 1]
    }
    pub fn name(self) -> &'static str {
        NAMES[self as usize]
    }
}

pub struct Ctx<'a> {
    pub o: &'a Oracle,
    pub run: Runner,
    pub rng: Rng,
    pub p: P,
    pub c: Vec<Call>,
    pub nc: usize,
    pub s1: Vec<Call>,
    pub s2: Vec<Call>,
    pub text: Vec<u8>,
    pub log: Vec<u8>,
    x: Exp,
    y: Exp,
    pub cases: u64,
    /// keep every placement / prefill fixed (replay)
    pub fixed: bool,
    /// one call in so many is repeated in a vast buffer
    pub vast_rate: usize,
    /// what the client of the next sessions does (a behaviour TLC generated)
    pub script: Vec<Step>,
    pub script_to: Option<usize>,
    /// what the code encodes a character to by itself (Big5, Shift JIS)
    alone: [Vec<u32>; 2],
}

/// One call of a scripted client: once `a` bytes have arrived, with this
/// buffer size and is_end.  (stage 2: the encoder of a transcoding client.)
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub stage: u8,
    pub a: usize,
    pub cap: usize,
    pub fin: bool,
}

const PLENTY: usize = 12;

impl<'a> Ctx<'a> {
    pub fn new(o: &'a Oracle, slot: Option<Slot>, p: P, seed: u64) -> Ctx<'a> {
        Ctx {
            o,
            run: Runner::new(slot),
            rng: Rng::new(seed),
            p,
            c: vec![Call::blank(); 8],
            nc: 0,
            s1: vec![],
            s2: vec![],
            text: vec![],
            log: vec![],
            x: Exp::new(),
            y: Exp::new(),
            cases: 0,
            fixed: false,
            vast_rate: 300,
            script: vec![],
            script_to: None,
            alone: [vec![], vec![]],
        }
    }

    pub fn place(&mut self) {
        if self.fixed {
            return;
        }
        let r = self.rng.next();
        let a = match r & 7 {
            0..=2 => 0,
            3 => 1,
            _ => 2 + ((r >> 8) & 63),
        };
        let b = match (r >> 3) & 7 {
            0..=2 => 0,
            3 => 1,
            _ => 2 + ((r >> 16) & 63),
        };
        let f: &[u64] = &[0x0000, 0xFFFF, 0xAAAA, 0x8080, 0x41E3, 0xBFBF, 0x4141];
        let f = match (r >> 32) % 24 {
            0 => ECHO as u64 | (r >> 40 & 0xFF) << 8,
            1 => RESIDUE as u64,
            k => f[(k % 7) as usize],
        };
        self.run.placement = (a | (b << 8) | (f << 16)) as u32;
    }

    /// A call, and now and then the same once more in a vast buffer, where
    /// what happens must be the same.
    fn run_call(&mut self, e: usize, d: Dir, w: &[u8], cap: usize, fin: bool) -> Obs {
        let obs = self.run.call(e, d, w, cap, fin);
        if self.fixed || !self.rng.one_in(self.vast_rate) {
            return obs;
        }
        let r = self.rng.next();
        match self.run.vast_placement(e, d, w, cap, &obs, r) {
            Some(pl) => {
                self.run.placement = pl;
                self.run.call(e, d, w, cap, fin)
            }
            None => obs,
        }
    }

    /// Executes a call and keeps it in c[nc].
    fn call(&mut self, e: usize, d: Dir, w: &[u8], cap: usize, fin: bool) -> usize {
        self.place();
        let i = self.nc;
        if i == self.c.len() {
            self.c.push(Call::blank());
        }
        self.nc += 1;
        let fin = fin || !has_end(e, d);
        let obs = self.run_call(e, d, w, cap, fin);
        let c = &mut self.c[i];
        c.e = e;
        c.d = d;
        c.w.clear();
        c.w.extend_from_slice(w);
        c.len = w.len();
        c.b = 0;
        c.cap = cap;
        c.fin = fin;
        c.pl = self.run.placement;
        c.out.clear();
        c.out.extend_from_slice(self.run.out(&obs));
        c.obs = obs;
        i
    }

    /// Executes one step of a session and returns it.
    fn step(&mut self, e: usize, d: Dir, src: &[u8], b: usize, a: usize, cap: usize, fin: bool) -> Call {
        self.place();
        let obs = self.run_call(e, d, &src[b..a], cap, fin);
        let out = self.run.out(&obs).to_vec();
        let w = if src.len() > 2000 { vec![] } else { src[b..a].to_vec() };
        Call { e, d, w, len: a - b, b, cap, fin, pl: self.run.placement, obs, out }
    }

    pub fn case(&self, e: usize, d: Dir, src: &[u8]) -> Case {
        Case {
            p: self.p.name(),
            e,
            d,
            src: src.to_vec(),
            calls: self.c[..self.nc].to_vec(),
            s1: self.s1.clone(),
            s2: self.s2.clone(),
            text: self.text.clone(),
            log: self.log.clone(),
        }
    }

    /// Result of the call within what the specification allows?
    fn agrees(&self, x: &Exp, i: usize) -> bool {
        self.allows(x, &self.c[i])
    }
    pub fn allows(&self, x: &Exp, c: &Call) -> bool {
        let o = &c.obs;
        let (pos, len) = x.fit(c.cap);
        if !o.at0 || o.oob {
            return false;
        }
        let ok_here = o.ok() && o.lo == pos && c.out[..] == x.out[..len];
        if pos < x.pos() {
            return ok_here;
        }
        let err_here = o.err()
            && o.lo == pos
            && o.hi == pos + x.n
            && o.wr == len
            && c.out[..] == x.out[..len]
            && o.cause == 0
            && (c.d == DEC || o.ch == x.ch);
        match x.stop {
            Stop::End | Stop::Wait => ok_here,
            Stop::WaitOrErr => ok_here || err_here,
            Stop::Err => err_here || (ok_here && c.cap - len < self.o.max_unit(c.e, c.d)),
        }
    }

    /// At least `least` bytes of room; now and then very much more.
    fn generous(&mut self, e: usize, least: usize) -> usize {
        match self.rng.below(48) {
            5 | 6 => match crate::gen::hints(e) {
                Some(h) if !h.sizes.is_empty() => {
                    let n = *self.rng.pick(&h.sizes);
                    let n = n.min(200_000) + self.rng.below(5);
                    least.max(n - self.rng.below(3))
                }
                _ => least,
            },
            0 => least.max((1usize << self.rng.range(5, 17)) + 2 - self.rng.below(5)),
            1..=4 => least.max((1usize << self.rng.range(4, 10)) + 2 - self.rng.below(5)),
            _ => least,
        }
    }

    fn caps(&mut self, e: usize, need: usize, n: usize, v: &mut Vec<usize>) {
        v.clear();
        if need <= 12 {
            v.extend(0..=need + 4);
            let g = self.generous(e, 0);
            if g > need + 4 {
                v.push(g);
            }
        } else {
            let r = &mut self.rng;
            v.push(need);
            v.push(need - 1);
            v.push(need + r.below(6));
            v.push(need - 1 - r.below(4));
            v.push(r.below(need));
            v.push(r.below(need));
            v.push(r.below(need.min(40)));
            // in proportion to the input
            v.push(*r.pick(&[n, n, n + 1, n - 1, 2 * n, 3 * n, 3 * n / 2, n / 2, 4 * n]) + r.below(2));
            if let Some(h) = crate::gen::hints(e) {
                for &n in &h.sizes {
                    if n < need + 3 && (need < 4096 || r.one_in(2)) {
                        v.push((n + r.below(3) - r.below(3)).min(need + 2));
                    }
                }
            }
            // around powers of two
            let mut k = 32;
            while k < need && need > 64 {
                let c = (k + r.below(4)).saturating_sub(r.below(4));
                if c < need && (k >= 1024 && k < 20_000 || r.one_in(3)) {
                    v.push(c);
                }
                k *= 2;
            }
        }
    }

    /// Examines one window.  Returns a case that breaks the property, if any.
    pub fn visit(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        self.cases += 1;
        self.nc = 0;
        self.s1.clear();
        self.s2.clear();
        self.text.clear();
        self.log.clear();
        match self.p {
            P::C01 | P::C02 | P::C03 | P::C04 | P::C05 | P::C06 => self.v_standard(e, d, w),
            P::C07 => self.v_c07(e, w),
            P::C08 | P::C09 => self.v_each_cap(e, d, w),
            P::C10 | P::C11 => self.v_chunks(e, d, w),
            P::C12 => self.v_c12(e, d, w),
            P::C13 | P::C14 => self.v_errors(e, d, w),
            P::C15 | P::C22 => self.v_recover(e, d, w),
            P::C16 => self.v_c16(e, d, w),
            P::C17 => self.v_c17(e, d, w),
            P::C18 => None,
            P::C19 => self.v_c19(e, d, w),
            P::C20 => self.v_c20(e, d, w),
            P::C21 => self.v_c21(e, w),
            P::C23 => self.v_c23(e, d, w),
            P::C24 => self.v_c24(e, w),
            P::C25 => self.v_c25(e, w),
            P::C26 => self.v_c26(e, d, w),
            P::C27 => self.v_c27(e, d, w),
        }
    }

    fn fins(e: usize, d: Dir) -> &'static [bool] {
        if has_end(e, d) {
            &[true, false]
        } else {
            &[true]
        }
    }

    // C01..C06: with room to spare the result is the one the tables prescribe.
    fn v_standard(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut bad = false;
        for &fin in Self::fins(e, d) {
            self.nc = 0;
            self.o.exp(e, d, w, fin, &mut x);
            let cap = x.need() + 4 + self.rng.below(6);
            let cap = self.generous(e, cap);
            let i = self.call(e, d, w, cap, fin);
            if !self.agrees(&x, i) {
                bad = true;
                break;
            }
        }
        self.x = x;
        if bad {
            Some(self.case(e, d, w))
        } else {
            None
        }
    }

    // C07: what was encoded decodes to the text it came from.
    fn v_c07(&mut self, e: usize, w: &[u8]) -> Option<Case> {
        let n = if w.len() > 6 && w.len() < 2000 && self.rng.one_in(3) { 2 } else { 1 };
        for k in 0..n {
            self.nc = 0;
            let cap = if k == 0 { self.generous(e, w.len() * 4 + PLENTY) } else { self.rng.below(w.len() + 2) };
            let i = self.call(e, ENC, w, cap, true);
            let t = match self.c[i].obs.kind {
                Kind::Ok | Kind::Err => self.c[i].obs.lo,
                _ => continue, // C09
            };
            if t > w.len() {
                continue; // C09
            }
            let bytes = self.c[i].out.clone();
            let j = self.call(e, DEC, &bytes, t * 2 + w.len() + PLENTY, true);
            let good = self.c[j].all() && (self.c[j].out[..] == w[..t] || known_lossy(e, &w[..t], &self.c[j].out));
            if !good && std::str::from_utf8(&w[..t]).is_ok() {
                return Some(self.case(e, ENC, w));
            }
        }
        None
    }

    fn v_each_cap(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut caps = Vec::new();
        let mut bad = false;
        'all: for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut x);
            self.caps(e, x.need(), w.len(), &mut caps);
            for k in 0..caps.len() {
                self.nc = 0;
                let i = self.call(e, d, w, caps[k], fin);
                let ok = if self.p == P::C08 { self.valid(i, &mut x) } else { in_bounds(&self.c[i]) };
                if !ok {
                    bad = true;
                    break 'all;
                }
            }
        }
        self.x = x;
        if bad {
            Some(self.case(e, d, w))
        } else {
            None
        }
    }
    fn valid(&mut self, i: usize, x: &mut Exp) -> bool {
        let c = &self.c[i];
        match c.obs.kind {
            Kind::Ok | Kind::Err => {}
            Kind::Panic => return true,
            _ => return false,
        }
        if !c.obs.at0 {
            return false;
        }
        if c.d == DEC {
            std::str::from_utf8(&c.out).is_ok()
        } else {
            self.o.exp(c.e, DEC, &c.out, true, x);
            x.stop == Stop::End
        }
    }

    // C10, C11: chunked equals whole.
    fn v_chunks(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        self.o.exp(e, d, w, true, &mut self.x);
        let plenty = self.x.need() + PLENTY;
        let plenty = self.generous(e, plenty);
        self.call(e, d, w, plenty, true);
        if !matches!(self.c[0].obs.kind, Kind::Ok | Kind::Err) {
            return None; // C09
        }
        let n = w.len();
        if !self.script.is_empty() {
            return if self.session_differs(e, d, w, &[], plenty) { Some(self.case(e, d, w)) } else { None };
        }
        let cuts: Vec<usize> = (1..n).filter(|&i| d == DEC || w[i] & 0xC0 != 0x80).collect();
        let mut points: Vec<usize> = Vec::new();
        // every division of short windows, every two-part division of medium ones
        if cuts.len() <= 5 {
            for m in 0..(1u32 << cuts.len()) {
                points.clear();
                points.extend(cuts.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, &c)| c));
                if self.session_differs(e, d, w, &points, plenty) {
                    return Some(self.case(e, d, w));
                }
            }
            return None;
        }
        if cuts.len() <= 14 {
            for i in 0..cuts.len() {
                points.clear();
                points.push(cuts[i]);
                if self.session_differs(e, d, w, &points, plenty) {
                    return Some(self.case(e, d, w));
                }
            }
        }
        if n > 14 {
            // in two parts around the first place where anything unusual happens
            if let Some(p) = self.odd(e, d, w, true) {
                let k = cuts.partition_point(|&c| c <= p);
                for i in k.saturating_sub(9)..(k + 9).min(cuts.len()) {
                    points.clear();
                    points.push(cuts[i]);
                    if self.session_differs(e, d, w, &points, plenty) {
                        return Some(self.case(e, d, w));
                    }
                }
            }
        }
        let blocks = if n >= 128 { 3 } else if n >= 24 { 1 } else { 0 };
        let reps = blocks + if n < 200 { 2 } else { 1 };
        for rep in 0..reps {
            points.clear();
            if rep < blocks {
                // a client that reads blocks of a fixed size
                let top = 63 - (n as u64).leading_zeros() as usize;
                let block = match rep {
                    0 if n >= 128 => 1 << top,
                    1 => (1 << top) + 4 - self.rng.below(9),
                    _ => (1usize << self.rng.range(top.saturating_sub(9).max(2), top)) + *self.rng.pick(&[0usize, 0, 0, 1, 2, 3]),
                };
                let mut p = block;
                while p < n {
                    let mut q = p;
                    while d == ENC && q < n && w[q] & 0xC0 == 0x80 {
                        q += 1;
                    }
                    if q < n {
                        points.push(q);
                    }
                    p += block;
                }
                if self.session_differs(e, d, w, &points, plenty) {
                    return Some(self.case(e, d, w));
                }
                continue;
            }
            let dens = *self.rng.pick(&[1usize, 2, 3, 7, 20]);
            let dens = if n > 2000 { dens * n / 100 } else { dens };
            for &c in &cuts {
                if self.rng.one_in(dens) {
                    points.push(c);
                }
            }
            if self.session_differs(e, d, w, &points, plenty) {
                return Some(self.case(e, d, w));
            }
        }
        None
    }

    fn session_differs(&mut self, e: usize, d: Dir, w: &[u8], points: &[usize], plenty: usize) -> bool {
        let mut s = std::mem::take(&mut self.s1);
        self.session(e, d, w, points, plenty, false, &mut s);
        self.s1 = s;
        !chunk_ok(&self.c[0], &self.s1)
    }

    /// A client streaming `src`, divided at `points`, through the code.
    fn session(&mut self, e: usize, d: Dir, src: &[u8], points: &[usize], plenty: usize, skip: bool, s: &mut Vec<Call>) {
        s.clear();
        let n = src.len();
        if !self.script.is_empty() && points.is_empty() {
            self.scripted(e, d, src, plenty, skip, s);
            return;
        }
        let style = self.rng.below(4);
        let fixed = *self.rng.pick(&[4usize, 4, 5, 6, 7, 8, 16]);
        let fixed = match n {
            0..=2000 => fixed,
            _ if self.rng.one_in(2) => (n >> self.rng.below(6)).next_power_of_two() + self.rng.below(4),
            _ => fixed * (n / 64),
        };
        let late_end = self.rng.one_in(3); // announce the end in a further call
        let mut k = 0;
        let mut b = 0;
        let mut a = if points.is_empty() { n } else { points[0] };
        let mut told = false;
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 8 * n + 64 {
                return; // no progress
            }
            let last = a == n;
            let fin = last && (!late_end || told);
            let cap = match style {
                0 => plenty,
                1 => fixed,
                2 if n <= 2000 => 4 + self.rng.below(5),
                _ => *self.rng.pick(&[if n > 2000 { fixed + 1 } else { 4 }, fixed, plenty]),
            };
            let c = self.step(e, d, src, b, a, cap, fin);
            let (kind, lo, hi, fin_) = (c.obs.kind, c.obs.lo, c.obs.hi, c.fin);
            let room = cap - c.obs.wr.min(cap);
            let wlen = c.len;
            s.push(c);
            match kind {
                Kind::Ok => {
                    if lo > wlen || (d == ENC && !boundary(src, b + lo)) {
                        return;
                    }
                    b += lo;
                    if b == n && (fin || last) {
                        return;
                    }
                    if lo > 0 && b < a && (room < 4 || !fin_) {
                        // possibly more to drain
                        if self.rng.one_in(4) && !last {
                            // deliver more before draining
                        } else {
                            continue;
                        }
                    }
                    if b < a && lo > 0 && fin {
                        continue;
                    }
                    // nothing more to get out of what has arrived
                    if last {
                        if fin {
                            if lo > 0 {
                                continue;
                            }
                            return; // stuck
                        }
                        told = true;
                    } else {
                        k += 1;
                        a = if k < points.len() { points[k] } else { n };
                    }
                }
                Kind::Err => {
                    if !skip {
                        return;
                    }
                    if hi <= lo || hi > wlen || (d == ENC && !boundary(src, b + hi)) {
                        return;
                    }
                    b += hi;
                    if b == n {
                        return;
                    }
                    if b == a && !last {
                        k += 1;
                        a = if k < points.len() { points[k] } else { n };
                    }
                }
                _ => return,
            }
        }
    }

    /// A client that does what the script says, and then finishes its stream.
    fn scripted(&mut self, e: usize, d: Dir, src: &[u8], plenty: usize, skip: bool, s: &mut Vec<Call>) {
        let n = src.len();
        let (mut a, mut b) = (0, 0);
        for k in 0..self.script.len() + 2 * n + 8 {
            let t = if k < self.script.len() { self.script[k] } else { Step { stage: 1, a: n, cap: plenty, fin: true } };
            a = t.a.min(n).max(a);
            while d == ENC && !boundary(src, a) {
                a += 1;
            }
            let c = self.step(e, d, src, b, a, t.cap, t.fin && a == n);
            let (kind, lo, hi, len) = (c.obs.kind, c.obs.lo, c.obs.hi, c.len);
            s.push(c);
            let go = match kind {
                Kind::Ok => lo,
                Kind::Err if skip => hi,
                _ => return,
            };
            if go > len || (d == ENC && !boundary(src, b + go)) || (kind == Kind::Err && hi <= lo) {
                return;
            }
            b += go;
            if k >= self.script.len() && go == 0 || b == n && k + 1 >= self.script.len() {
                return;
            }
        }
    }

    // C12
    fn v_c12(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut caps = Vec::new();
        let mut bad = false;
        'all: for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut x);
            self.nc = 0;
            let g = self.generous(e, x.need() + PLENTY);
            self.call(e, d, w, g, fin);
            if !self.agrees(&x, 0) {
                // Some other property's business, unless the call stopped at a
                // whole character although more would have fitted.
                let (pos, _) = x.fit(self.c[0].cap);
                let c = &self.c[0];
                if c.obs.ok() && c.obs.lo < pos && x.marks.iter().any(|m| m.0 as usize == c.obs.lo && c.out[..] == x.out[..m.1 as usize]) {
                    bad = true;
                    break 'all;
                }
                continue;
            }
            self.caps(e, x.need(), w.len(), &mut caps);
            for k in 0..caps.len() {
                self.nc = 1;
                let i = self.call(e, d, w, caps[k], fin);
                if !c12_ok(&x, &self.c[i]) {
                    bad = true;
                    break 'all;
                }
            }
        }
        self.x = x;
        if bad {
            Some(self.case(e, d, w))
        } else {
            None
        }
    }

    // C13, C14
    fn v_errors(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut caps = Vec::new();
        let mut bad = false;
        'all: for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut x);
            self.caps(e, x.need(), w.len(), &mut caps);
            for k in 0..caps.len() {
                self.nc = 0;
                let i = self.call(e, d, w, caps[k], fin);
                if !self.error_ok(&x, i) {
                    bad = true;
                    break 'all;
                }
            }
        }
        self.x = x;
        if bad {
            Some(self.case(e, d, w))
        } else {
            None
        }
    }
    fn error_ok(&mut self, x: &Exp, i: usize) -> bool {
        let (pos, len) = (x.pos(), x.need());
        let (e, d) = (self.c[i].e, self.c[i].d);
        let room = self.c[i].cap as i64 - len as i64;
        let must = x.stop == Stop::Err && room >= self.o.max_unit(e, d) as i64;
        match self.c[i].obs.kind {
            Kind::Ok => !must,
            Kind::Err => {
                let o = &self.c[i].obs;
                if !x.may_err() || o.lo != pos || o.hi <= o.lo || o.hi > self.c[i].w.len() || o.wr > self.c[i].cap || o.cause != 0 {
                    return false;
                }
                if d == ENC && (o.hi != pos + x.n || o.ch != x.ch) {
                    return false;
                }
                if o.wr == len && self.c[i].out[..] == x.out[..] {
                    return true;
                }
                // By the code's own measure of what comes before?
                let pre = self.c[i].w[..pos].to_vec();
                let j = self.call(e, d, &pre, len * 2 + PLENTY, true);
                self.c[j].all() && self.c[j].out == self.c[i].out && self.c[j].obs.wr == self.c[i].obs.wr
            }
            _ => !must,
        }
    }

    // C15, C22
    fn v_recover(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        if w.is_empty() {
            return None;
        }
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut y = std::mem::replace(&mut self.y, Exp::new());
        let (text, bad, errs, n) = self.reference(e, d, w, &mut x, 20);
        let w = &w[..n];
        let mut verdict = true;
        // (a) single error ranges, any window
        for &fin in if d == DEC { &[true, false][..] } else { &[][..] } {
            self.nc = 0;
            self.o.exp(e, DEC, w, fin, &mut x);
            let cap = x.need() + PLENTY;
            let i = self.call(e, DEC, w, cap, fin);
            if !self.range_ok(e, i, &mut y) {
                verdict = false;
            }
            if !verdict {
                break;
            }
        }
        // (b) recovery
        if verdict && (!errs.is_empty() || !self.script.is_empty()) {
            self.nc = 0;
            let plenty = text.len() + PLENTY;
            let mut s = std::mem::take(&mut self.s1);
            self.session(e, d, w, &[], plenty, true, &mut s);
            self.s1 = s;
            let mut points = Vec::new();
            let dens = *self.rng.pick(&[1usize, 2, 3, 7]);
            let dens = if w.len() > 2000 { dens * w.len() / 100 } else { dens };
            for i in 1..w.len() {
                if (d == DEC || w[i] & 0xC0 != 0x80) && self.rng.one_in(dens) {
                    points.push(i);
                }
            }
            let mut s = std::mem::take(&mut self.s2);
            self.session(e, d, w, &points, plenty, true, &mut s);
            self.s2 = s;
            let r1 = recovered(&self.s1, w.len());
            let r2 = recovered(&self.s2, w.len());
            if r1 != r2 {
                verdict = false;
            } else if r1.0 != text || r1.1 != bad {
                // Unless the code judges some unit by itself differently
                // (a matter for C01..C06).
                verdict = !self.units_ok(e, d, w, &mut x, &mut y);
            }
        }
        self.x = x;
        self.y = y;
        if verdict {
            None
        } else {
            Some(self.case(e, d, w))
        }
    }
    /// No byte of a valid character after the error's first one is covered.
    fn range_ok(&mut self, e: usize, i: usize, y: &mut Exp) -> bool {
        let (o, w) = (self.c[i].obs.clone(), self.c[i].w.clone());
        if !o.err() || o.lo >= w.len() || o.hi > w.len() || o.hi <= o.lo {
            return true;
        }
        // Parse from the start of the range.
        let r = &w[o.lo..];
        self.o.exp(e, DEC, r, self.c[i].fin, y);
        let first = if y.marks.len() > 1 { y.marks[1].0 as usize } else if y.may_err() { y.n } else { return true };
        let mut p = o.lo + first;
        while p < o.hi {
            self.o.exp(e, DEC, &w[p..], true, y);
            if y.marks.len() > 1 {
                return false;
            }
            p += y.n.max(1);
        }
        true
    }
    /// Decoded in isolation, does the code see each unit as the tables do?
    fn units_ok(&mut self, e: usize, d: Dir, w: &[u8], x: &mut Exp, y: &mut Exp) -> bool {
        let mut p = 0;
        self.nc = 0;
        while p < w.len() {
            self.o.exp(e, d, &w[p..], true, x);
            for k in 1..x.marks.len() {
                let (a, b) = (x.marks[k - 1].0 as usize, x.marks[k].0 as usize);
                let i = self.call(e, d, &w[p + a..p + b], 8 + PLENTY, true);
                self.o.exp(e, d, &w[p + a..p + b], true, y);
                if !self.agrees(y, i) {
                    return false;
                }
            }
            p += x.pos();
            if x.may_err() {
                let i = self.call(e, d, &w[p..p + x.n], 8 + PLENTY, true);
                if !self.c[i].obs.err() || self.c[i].obs.lo != 0 {
                    return false;
                }
                p += x.n;
            }
        }
        true
    }
    /// Text, skipped positions and error positions of a source, and how far it
    /// was looked at (long ones up to a number of errors).
    pub fn reference(&self, e: usize, d: Dir, w: &[u8], x: &mut Exp, most: usize) -> (Vec<u8>, Vec<usize>, Vec<usize>, usize) {
        let (mut t, mut bad, mut errs) = (Vec::new(), Vec::new(), Vec::new());
        let mut p = 0;
        while p < w.len() && (p < 8000 || errs.len() < most) {
            self.o.exp(e, d, &w[p..], true, x);
            t.extend_from_slice(&x.out);
            p += x.pos();
            if x.may_err() {
                errs.push(p);
                bad.extend(p..p + x.n);
                p += x.n;
            }
        }
        (t, bad, errs, p)
    }

    // C16
    fn v_c16(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        if w.is_empty() {
            return None;
        }
        for &fin in Self::fins(e, d) {
            let caps = [4, 4 + self.rng.below(4), 8 + self.rng.below(200), self.generous(e, 9)];
            for &cap in &caps {
                self.nc = 0;
                let i = self.call(e, d, w, cap, fin);
                let o = self.c[i].obs.clone();
                let good = match o.kind {
                    Kind::Ok => {
                        o.lo > 0 || {
                            self.o.exp(e, d, w, fin, &mut self.x);
                            !fin && self.x.pos() == 0 && matches!(self.x.stop, Stop::Wait | Stop::WaitOrErr)
                        }
                    }
                    Kind::Err => o.hi > 0,
                    _ => false,
                };
                if !good {
                    return Some(self.case(e, d, w));
                }
            }
        }
        // A whole session must get through.
        if self.rng.one_in(4) && w.len() < 20000 {
            let points: Vec<usize> = (1..w.len())
                .filter(|&i| d == DEC || w[i] & 0xC0 != 0x80)
                .filter(|_| self.rng.one_in(3))
                .collect();
            let mut s = std::mem::take(&mut self.s1);
            self.session(e, d, w, &points, 4, true, &mut s);
            self.s1 = s;
            self.nc = 0;
            if !session_ends(&self.s1, w.len()) {
                return Some(self.case(e, d, w));
            }
            self.s1.clear();
        }
        None
    }

    // C17
    fn v_c17(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        self.o.exp(e, d, w, false, &mut x);
        let mut caps = Vec::new();
        self.caps(e, x.need(), w.len(), &mut caps);
        let mut bad = false;
        let pos = x.pos();
        for k in 0..caps.len() {
            self.nc = 0;
            let f = self.call(e, d, w, caps[k], false);
            let t = self.call(e, d, w, caps[k], true);
            if !self.c17_ok(&x, f, t, pos) {
                bad = true;
                break;
            }
        }
        self.x = x;
        if bad {
            Some(self.case(e, d, w))
        } else {
            None
        }
    }
    fn c17_ok(&mut self, x: &Exp, f: usize, t: usize, pos: usize) -> bool {
        let (e, d) = (self.c[f].e, self.c[f].d);
        let waits = matches!(x.stop, Stop::Wait | Stop::WaitOrErr);
        let same = self.c[f].same(&self.c[t]);
        if !waits || x.need() > self.c[f].cap {
            return same;
        }
        // Guard: what comes before the tail is judged as the tables do.
        let pre = self.c[f].w[..pos].to_vec();
        let g = self.call(e, d, &pre, x.need() + PLENTY, true);
        if !(self.c[g].all() && self.c[g].out == x.out) {
            return true;
        }
        let (of, ot) = (&self.c[f].obs, &self.c[t].obs);
        let n = self.c[f].w.len();
        let room = self.c[f].cap - x.need();
        let f_ok = of.ok() && of.lo == pos || x.stop == Stop::WaitOrErr && of.err() && of.lo == pos;
        let t_ok = if d == DEC {
            ot.err() && ot.lo == pos && ot.hi == n || room < self.o.max_unit(e, d) && ot.ok() && ot.lo == pos
        } else {
            // the lone base letter is encoded, if there is room
            ot.ok() && if room >= 2 { ot.lo == n && ot.wr == x.need() + 2 } else { ot.lo == pos }
        };
        f_ok && t_ok
    }

    // C19
    fn v_c19(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut x = std::mem::replace(&mut self.x, Exp::new());
        let mut bad = None;
        'all: for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut x);
            let need = x.need();
            // (a) no ASCII in an error range
            if d == DEC {
                let caps = [self.generous(e, need + PLENTY), need + 1, need + 4];
                for &cap in &caps {
                    self.nc = 0;
                    let i = self.call(e, d, w, cap, fin);
                    if !no_ascii(&self.c[i]) {
                        bad = Some(());
                        break 'all;
                    }
                }
            }
            // (b) ASCII stands for itself
            let m = x.marks.len();
            let mut tries = 0;
            let start = self.rng.below(m);
            for q in 0..m - 1 {
                let k = (start + q) % (m - 1);
                let (a, b) = (x.marks[k].0 as usize, x.marks[k + 1].0 as usize);
                if b != a + 1 || w[a] >= 128 {
                    continue;
                }
                self.nc = 0;
                let la = x.marks[k].1 as usize;
                self.call(e, d, &w[..a], la + PLENTY, true);
                let extra = self.rng.below(8);
                self.call(e, d, w, need + 4 + extra, fin);
                if self.c[0].all() && self.c[0].out[..] == x.out[..la] && !ascii_ok(&self.c[0], &self.c[1]) {
                    bad = Some(());
                    break 'all;
                }
                tries += 1;
                if tries == 2 {
                    break;
                }
            }
        }
        self.x = x;
        bad.map(|_| self.case(e, d, w))
    }

    // C20: e is the big-endian variant.
    fn v_c20(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let (m, u) = match e {
            U16BE => (U16LE, 2),
            U32BE => (U32LE, 4),
            _ => return None,
        };
        if d == DEC && w.len() % u != 0 {
            return None;
        }
        let sw = if d == DEC { swap(w, u) } else { w.to_vec() };
        let mut caps = Vec::new();
        for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut self.x);
            let need = self.x.need();
            self.caps(e, need, w.len(), &mut caps);
            for k in 0..caps.len() {
                self.nc = 0;
                self.call(e, d, w, caps[k], fin);
                self.call(m, d, &sw, caps[k], fin);
                let (a, b) = (&self.c[0], &self.c[1]);
                let good = a.obs == b.obs
                    && if d == DEC { a.out == b.out } else { a.out.len() % u == 0 && swap(&a.out, u) == b.out };
                if !good {
                    return Some(self.case(e, d, w));
                }
            }
        }
        None
    }

    // C21
    fn v_c21(&mut self, e: usize, w: &[u8]) -> Option<Case> {
        let g = self.generous(e, w.len() * 3 + PLENTY);
        self.call(e, DEC, w, g, true);
        let t = self.c[0].obs.lo;
        if !matches!(self.c[0].obs.kind, Kind::Ok | Kind::Err) || t > w.len() || t == 0 {
            return None;
        }
        let text = self.c[0].out.clone();
        if std::str::from_utf8(&text).is_err() {
            return None; // C08
        }
        self.call(e, ENC, &text, w.len() * 2 + PLENTY, true);
        let good = if e == BIG5 || e == SJIS {
            let again = self.c[1].out.clone();
            self.call(e, DEC, &again, again.len() * 3 + PLENTY, true);
            self.c[1].all() && self.c[2].all() && self.c[2].out == text
        } else {
            self.c[1].all() && self.c[1].out[..] == w[..t]
        };
        if good && (e == BIG5 || e == SJIS) {
            // One form: every character as it is encoded by itself.
            let mut x = std::mem::replace(&mut self.y, Exp::new());
            self.o.exp(e, ENC, &text, true, &mut x);
            let mut odd = None;
            if x.pos() == text.len() && x.need() == self.c[1].out.len() {
                for k in 1..x.marks.len() {
                    let (a, b) = (x.marks[k - 1], x.marks[k]);
                    let unit = &text[a.0 as usize..b.0 as usize];
                    let got = self.c[1].out[a.1 as usize..b.1 as usize].iter().fold(1u32, |v, &b| v << 8 | b as u32);
                    if self.alone(e, unit) != got {
                        odd = Some(unit.to_vec());
                        break;
                    }
                }
            }
            self.y = x;
            if let Some(unit) = odd {
                self.call(e, ENC, &unit, PLENTY, true);
                return Some(self.case(e, DEC, w));
            }
        }
        if good {
            None
        } else {
            Some(self.case(e, DEC, w))
        }
    }

    /// What the code itself makes of a character and nothing else (the bytes
    /// behind a leading 1; 0 if not what it should be).
    fn alone(&mut self, e: usize, unit: &[u8]) -> u32 {
        let s = unsafe { std::str::from_utf8_unchecked(unit) };
        let c = s.chars().next().unwrap();
        let one = c.len_utf8() == unit.len();
        let t = (e == SJIS) as usize;
        if self.alone[t].is_empty() {
            self.alone[t] = vec![0; 0x110000];
        }
        if one && self.alone[t][c as usize] != 0 {
            return self.alone[t][c as usize];
        }
        let o = self.run.call(e, ENC, unit, PLENTY, true);
        let out = self.run.out(&o);
        let v = if o.ok() && out.len() <= 3 { out.iter().fold(1u32, |v, &b| v << 8 | b as u32) } else { 0 };
        if one {
            self.alone[t][c as usize] = v;
        }
        v
    }

    fn holds_little(&mut self, i: usize) -> bool {
        let c = &self.c[i];
        let room = c.cap >= c.out.len() + 4 || c.cap >= 4 * c.w.len();
        if !(c.obs.ok() && room && c.obs.lo <= c.w.len()) {
            return true;
        }
        let left = &c.w[c.obs.lo..];
        if left.is_empty() {
            return true;
        }
        if c.fin || left.len() > held_max(c.e, c.d) || (c.d == ENC && left[0] & 0xC0 == 0x80) {
            return false;
        }
        self.o.exp(c.e, c.d, left, false, &mut self.y);
        self.y.pos() == 0 && matches!(self.y.stop, Stop::Wait | Stop::WaitOrErr)
    }

    // C26: nothing but an incomplete character is held back.
    fn v_c26(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut caps = Vec::new();
        for &fin in &[true, false] {
            self.o.exp(e, d, w, fin, &mut self.x);
            let need = self.x.need();
            self.caps(e, need, w.len(), &mut caps);
            caps.retain(|&c| c > 3);
            let g = self.generous(e, need + PLENTY);
            caps.push(g);
            caps.push(4 * w.len());
            if w.len() > 8 {
                caps.push(need + 4);
            }
            for k in 0..caps.len() {
                self.nc = 0;
                let i = self.call(e, d, w, caps[k], fin);
                if !self.holds_little(i) {
                    return Some(self.case(e, d, w));
                }
            }
            if !has_end(e, d) {
                break;
            }
        }
        None
    }

    // C27: whole characters in front only shift a call.
    fn v_c27(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut caps = Vec::new();
        self.o.exp(e, d, w, false, &mut self.x);
        // (nothing before, or nothing behind: seldom of interest)
        let ends = self.rng.one_in(16);
        let marks: Vec<usize> = self.x.marks.iter().map(|m| m.0 as usize).filter(|&m| ends || m > 0 && m < w.len()).collect();
        let mut cuts: Vec<usize> = match marks.len() {
            0..=3 => marks.clone(),
            m => vec![marks[m - 1], marks[m - 2], *self.rng.pick(&marks)],
        };
        if w.len() > 40 {
            // and around the first place where anything unusual happens
            if let Some(p) = self.odd(e, d, w, false) {
                let k = marks.partition_point(|&m| m <= p);
                cuts.extend(marks[k.saturating_sub(9)..k].iter());
            }
        }
        for cut in cuts {
            for &fin in Self::fins(e, d) {
                self.o.exp(e, d, &w[cut..], fin, &mut self.x);
                let need = self.x.need();
                self.caps(e, need, w.len() - cut, &mut caps);
                let g = self.generous(e, need + PLENTY);
                caps.push(g);
                self.nc = 0;
                let room = self.generous(e, cut * 3 + PLENTY);
                let a = self.call(e, d, &w[..cut], room, false);
                if !self.c[a].all() {
                    break;
                }
                let o = self.c[a].out.len();
                let step = if caps.len() > 8 { 2 } else { 1 };
                let mut k = if step == 2 { self.rng.below(2) } else { 0 };
                while k < caps.len() {
                    self.nc = 1;
                    self.call(e, d, w, caps[k] + o, fin);
                    self.call(e, d, &w[cut..], caps[k], fin);
                    if !self.shifted() {
                        return Some(self.case(e, d, w));
                    }
                    k += step;
                }
            }
        }
        None
    }
    /// Where in the input a call with room first does something else than the
    /// tables say (only to know where to look).
    fn odd(&mut self, e: usize, d: Dir, w: &[u8], fin: bool) -> Option<usize> {
        let mut x = std::mem::replace(&mut self.y, Exp::new());
        self.o.exp(e, d, w, fin, &mut x);
        let o = self.run.call(e, d, w, x.need() + PLENTY, fin);
        let out = self.run.out(&o);
        let same = out.iter().zip(&x.out).take_while(|(a, b)| a == b).count();
        let p = if matches!(o.kind, Kind::Ok | Kind::Err) && same == x.need() && o.lo == x.pos() && out.len() == same {
            None
        } else {
            let m = x.marks.iter().take_while(|m| m.0 as usize <= o.lo && m.1 as usize <= same).last();
            m.map(|m| m.0 as usize)
        };
        self.y = x;
        p
    }
    /// c[1] is c[2] behind c[0].
    fn shifted(&mut self) -> bool {
        let (a, b, t) = (&self.c[0], &self.c[1], &self.c[2]);
        let (n, o) = (a.w.len(), a.out.len());
        let fine = |c: &Call| matches!(c.obs.kind, Kind::Ok | Kind::Err);
        if !fine(b) || !fine(t) {
            return true; // C09
        }
        let same = b.obs.lo == t.obs.lo.wrapping_add(n)
            && b.obs.wr == t.obs.wr.wrapping_add(o)
            && b.out.len() == o + t.out.len()
            && b.out[..o] == a.out[..]
            && b.out[o..] == t.out[..];
        if !same {
            return false;
        }
        if b.obs.kind == t.obs.kind {
            return b.obs.ok() || b.obs.hi == t.obs.hi.wrapping_add(n) && b.obs.ch == t.obs.ch && b.obs.cause == t.obs.cause;
        }
        let lo = t.obs.lo;
        if lo >= t.w.len() || (t.d == ENC && t.w[lo] & 0xC0 == 0x80) {
            return false;
        }
        self.o.exp(t.e, t.d, &t.w[lo..], t.fin, &mut self.y);
        self.y.pos() == 0
            && match self.y.stop {
                Stop::WaitOrErr => true,
                Stop::Err => t.cap - t.out.len() < self.o.max_unit(t.e, t.d),
                _ => false,
            }
    }

    // C23: more room or more input never revises what was delivered.
    fn v_c23(&mut self, e: usize, d: Dir, w: &[u8]) -> Option<Case> {
        let mut caps = Vec::new();
        for &fin in Self::fins(e, d) {
            self.o.exp(e, d, w, fin, &mut self.x);
            let need = self.x.need();
            self.caps(e, need, w.len(), &mut caps);
            let g = self.generous(e, need + PLENTY);
            caps.push(g);
            caps.sort();
            caps.dedup();
            self.nc = 0;
            for k in 0..caps.len() {
                self.call(e, d, w, caps[k], fin);
            }
            let n = self.nc;
            for k in 0..n - 1 {
                for &j in &[k + 1, n - 1] {
                    if !extends(&self.c[k], &self.c[j], true) {
                        self.c.swap(0, k);
                        self.c.swap(1, if j == 0 { k } else { j });
                        self.nc = 2;
                        return Some(self.case(e, d, w));
                    }
                }
            }
        }
        let n = w.len();
        if n == 0 {
            return None;
        }
        let cuts: Vec<usize> = (0..n).filter(|&i| d == DEC || w[i] & 0xC0 != 0x80).collect();
        let mut ends: Vec<usize> = match cuts.len() {
            0..=6 => cuts.clone(),
            m => vec![cuts[m - 1], cuts[m - 2], *self.rng.pick(&cuts), *self.rng.pick(&cuts), *self.rng.pick(&cuts), *self.rng.pick(&cuts)],
        };
        if n > 14 {
            // and around the first place where anything unusual happens
            if let Some(p) = self.odd(e, d, w, true) {
                let k = cuts.partition_point(|&c| c <= p);
                ends.extend(cuts[k.saturating_sub(9)..(k + 9).min(cuts.len())].iter());
            }
        }
        for cut in ends {
            let fin = self.rng.one_in(2);
            let cap = if self.rng.one_in(2) { self.x.need() + PLENTY } else { self.rng.below(self.x.need() + 6) };
            self.nc = 0;
            self.call(e, d, &w[..cut], cap, false);
            self.call(e, d, w, cap, fin);
            if !extends(&self.c[0], &self.c[1], false) {
                return Some(self.case(e, d, w));
            }
        }
        None
    }

    // C24: decoding from one encoding and encoding to another, in small steps.
    fn v_c24(&mut self, e: usize, w: &[u8]) -> Option<Case> {
        let reps = if w.len() < 100 && self.script_to.is_none() { 2 } else { 1 };
        for rep in 0..reps {
            let to = match self.rng.below(6) {
                _ if rep == 0 && self.script_to.is_some() => self.script_to.unwrap(),
                0 => BIG5,
                1 => SJIS,
                2 => self.rng.below(5),
                3 => e,
                _ => self.rng.below(CODECS.len()),
            };
            self.nc = 0;
            self.call(e, DEC, w, w.len() * 3 + PLENTY, true);
            if !matches!(self.c[0].obs.kind, Kind::Ok | Kind::Err) || self.c[0].obs.lo > w.len() {
                return None; // C09
            }
            let text = self.c[0].out.clone();
            if std::str::from_utf8(&text).is_err() {
                return None; // C08
            }
            self.call(to, ENC, &text, text.len() * 4 + PLENTY, true);
            if !matches!(self.c[1].obs.kind, Kind::Ok | Kind::Err) {
                return None; // C09
            }
            if !self.pipeline(e, to, w) {
                return None; // C08
            }
            if !pipe_ok(&self.c[0], &self.c[1], w.len(), &self.text, &self.s1, &self.s2) {
                return Some(self.case(e, DEC, w));
            }
        }
        None
    }

    /// A transcoding client.  False if a decoder delivered something that is
    /// not text.
    fn pipeline(&mut self, from: usize, to: usize, src: &[u8]) -> bool {
        let n = src.len();
        self.s1.clear();
        self.s2.clear();
        self.text.clear();
        self.log.clear();
        let mut text: Vec<u8> = Vec::new();
        // sizes in proportion to the stream, so that the number of steps is bounded
        let unit = if n <= 64 { 1 } else { n / 24 };
        let arrive = *self.rng.pick(&[1usize, 2, 3, 5, 8, 1000]) * unit;
        let dcap = *self.rng.pick(&[4usize, 5, 6, 7, 8, 16, 64]) * unit + self.rng.below(4);
        let ecap = *self.rng.pick(&[4usize, 5, 6, 7, 8, 16, 64]) * unit + self.rng.below(4);
        let eager = self.rng.below(3); // when the text is passed on
        let late = self.rng.one_in(3);
        let (mut a, mut b, mut t) = (0usize, 0usize, 0usize);
        let (mut bad, mut told) = (false, false);
        let mut starved = false; // the encoder waits for more text
        let script = std::mem::take(&mut self.script);
        for k in 0..(12 * n + 200 + script.len()) {
            let now = script.get(k).cloned();
            let decoded = bad || (a == n && b == n);
            if decoded && t == text.len() {
                break;
            }
            let pending = text.len() - t;
            let now = now.filter(|s| s.stage == 2 && pending > 0 || s.stage == 1 && !decoded);
            let encode = if let Some(s) = now { s.stage == 2 } else { decoded
                || pending > 0
                    && !starved
                    && match eager {
                        0 => true,
                        1 => pending >= 2 * dcap,
                        _ => self.rng.one_in(2),
                    } };
            if encode {
                self.place();
                let cap = if self.rng.one_in(4) { 4 + self.rng.below(ecap) } else { ecap };
                let win = text[t..].to_vec();
                let fin = decoded && now.map_or(true, |s| s.fin);
                let cap = now.map_or(cap, |s| s.cap);
                let small = now.map_or(false, |s| s.cap < 4 || !s.fin);
                let obs = self.run.call(to, ENC, &win, cap, fin);
                let out = self.run.out(&obs).to_vec();
                let o = obs.clone();
                self.s2.push(Call { e: to, d: ENC, len: win.len(), w: win, b: t, cap, fin, pl: self.run.placement, obs, out });
                self.log.push(2);
                match o.kind {
                    Kind::Ok if o.lo <= pending && boundary(&text, t + o.lo) => {
                        t += o.lo;
                        if o.lo == 0 {
                            if decoded && !small {
                                break; // stuck
                            }
                            starved = !small;
                        }
                    }
                    _ => break,
                }
                continue;
            }
            starved = false;
            if let Some(s) = now {
                a = s.a.min(n).max(a);
            } else if b == a && a < n || a < n && self.rng.one_in(3) {
                a = (a + 1 + self.rng.below(arrive)).min(n);
            }
            self.place();
            let cap = if self.rng.one_in(4) { 4 + self.rng.below(dcap) } else { dcap };
            let cap = now.map_or(cap, |s| s.cap);
            let fin = a == n && now.map_or(!late || told, |s| s.fin);
            let win = src[b..a].to_vec();
            let obs = self.run.call(from, DEC, &win, cap, fin);
            let out = self.run.out(&obs).to_vec();
            let o = obs.clone();
            let len = win.len();
            if matches!(o.kind, Kind::Ok | Kind::Err) {
                if std::str::from_utf8(&out).is_err() {
                    self.script = script;
                    return false;
                }
                text.extend_from_slice(&out);
            }
            self.s1.push(Call { e: from, d: DEC, w: win, len, b, cap, fin, pl: self.run.placement, obs, out });
            self.log.push(1);
            match o.kind {
                Kind::Ok if o.lo <= len => {
                    b += o.lo;
                    if o.lo == 0 && now.is_none() {
                        if a < n {
                            a = (a + 1 + self.rng.below(arrive)).min(n);
                        } else if fin {
                            break; // stuck
                        }
                    }
                    if a == n {
                        told = true;
                    }
                }
                Kind::Err if o.lo <= len => {
                    b += o.lo;
                    bad = true;
                }
                _ => break,
            }
        }
        self.text = text;
        self.script = script;
        true
    }

    // C25: encoded texts may be joined.
    fn v_c25(&mut self, e: usize, w: &[u8]) -> Option<Case> {
        let n = w.len();
        let cuts: Vec<usize> = (0..=n).filter(|&i| i == n || w[i] & 0xC0 != 0x80).collect();
        let mut tries: Vec<(usize, usize)> = if cuts.len() <= 5 { cuts.clone() } else { (0..3).map(|_| *self.rng.pick(&cuts)).collect() }.into_iter().map(|c| (c, n)).collect();
        if w.len() > 40 {
            // and around the first place where anything unusual happens
            let mut p = self.odd(e, ENC, w, true);
            if p.is_none() {
                let mut x = Exp::new();
                self.o.exp(e, ENC, w, true, &mut x);
                let bytes = x.out.clone();
                p = self.odd(e, DEC, &bytes, true).map(|q| x.marks[x.marks.partition_point(|m| m.1 as usize <= q) - 1].0 as usize);
            }
            if let Some(p) = p {
                let k = cuts.partition_point(|&c| c <= p);
                let end = cuts[(k + 3).min(cuts.len() - 1)];
                tries.extend(cuts[k.saturating_sub(9)..k].iter().map(|&c| (c, end)));
            }
        }
        let whole = w;
        for (cut, end) in tries {
            let w = &whole[..end];
            let n = w.len();
            self.nc = 0;
            let room = self.generous(e, n * 4 + PLENTY);
            self.call(e, ENC, &w[..cut], room, true);
            self.call(e, ENC, &w[cut..], n * 4 + PLENTY, true);
            if !self.c[0].all() || !self.c[1].all() {
                continue;
            }
            let (a, b) = (self.c[0].out.clone(), self.c[1].out.clone());
            let mut j = a.clone();
            j.extend_from_slice(&b);
            self.call(e, DEC, &j, j.len() * 3 + PLENTY, true);
            self.call(e, DEC, &a, j.len() * 3 + PLENTY, true);
            self.call(e, DEC, &b, j.len() * 3 + PLENTY, true);
            self.call(e, ENC, w, n * 4 + PLENTY, true);
            if !self.c[3].all() || !self.c[4].all() {
                continue; // C07, C08
            }
            let mut text = self.c[3].out.clone();
            text.extend_from_slice(&self.c[4].out);
            let good = self.c[2].all()
                && self.c[2].out == text
                && (self.seam(e, w, cut) || self.c[5].all() && self.c[5].out == j);
            if !good {
                return Some(self.case(e, ENC, w));
            }
        }
        None
    }
    /// A combined pair of Big5 lies across the cut.
    fn seam(&self, e: usize, w: &[u8], cut: usize) -> bool {
        if e != BIG5 {
            return false;
        }
        let s = std::str::from_utf8(w).expect("text");
        match (s[..cut].chars().last(), s[cut..].chars().next()) {
            (Some(a), Some(b)) => self.o.pairs().iter().any(|p| p.0 == a as u32 && p.1 == b as u32),
            _ => false,
        }
    }
}

/// The most that may be held back when more input is to come.
pub fn held_max(e: usize, d: Dir) -> usize {
    match (d == DEC, e) {
        (true, BIG5) | (true, SJIS) => 1,
        (true, _) if e < 5 => 3,
        (false, BIG5) => 2,
        _ => 0,
    }
}

/// Nothing that a delivered is revised by b, which had more room or input.
pub fn extends(a: &Call, b: &Call, same_input: bool) -> bool {
    let fine = |c: &Call| matches!(c.obs.kind, Kind::Ok | Kind::Err);
    if !fine(a) || !fine(b) {
        return true; // C09
    }
    let (p, q) = (&a.obs, &b.obs);
    if p.lo > q.lo || !b.out.starts_with(&a.out) || p.wr > q.wr {
        return false;
    }
    if p.err() {
        if q.lo != p.lo || q.wr != p.wr || !q.err() && b.fin && q.wr.saturating_add(4) <= b.cap {
            return false;
        }
        if q.err() && (q.ch != p.ch || q.cause != p.cause || q.hi < p.hi || same_input && q.hi != p.hi) {
            return false;
        }
    }
    true
}

/// The pipeline delivered what two whole calls do.
pub fn pipe_ok(w: &Call, x: &Call, n: usize, text: &[u8], s1: &[Call], s2: &[Call]) -> bool {
    let fine = |c: &Call| matches!(c.obs.kind, Kind::Ok | Kind::Err);
    if !s1.iter().all(fine) || !s2.iter().all(fine) {
        return false;
    }
    let sink: Vec<u8> = s2.iter().flat_map(|c| c.out.iter().cloned()).collect();
    if sink != x.out {
        return false;
    }
    let l2 = s2.last();
    if x.obs.err() {
        return l2.map(|l| l.obs.err() && l.obs.ch == x.obs.ch && l.b + l.obs.lo == x.obs.lo).unwrap_or(false);
    }
    if text != &w.out[..] || l2.map(|l| l.obs.err()).unwrap_or(false) {
        return false;
    }
    let took = l2.map(|l| l.b + l.obs.lo).unwrap_or(0);
    let l1 = s1.last();
    let at = l1.map(|l| l.b + l.obs.lo).unwrap_or(0);
    let ended = if w.obs.err() { l1.map(|l| l.obs.err()).unwrap_or(false) && at == w.obs.lo } else { !l1.map(|l| l.obs.err()).unwrap_or(false) && at == n };
    took == text.len() && ended
}

fn boundary(s: &[u8], i: usize) -> bool {
    i == s.len() || i < s.len() && s[i] & 0xC0 != 0x80
}
pub fn swap(w: &[u8], u: usize) -> Vec<u8> {
    w.chunks(u).flat_map(|c| c.iter().rev().copied().collect::<Vec<u8>>()).collect()
}

/// The documented substitutions of the Shift JIS encoder (known_findings.txt).
pub fn known_lossy(e: usize, t: &[u8], out: &[u8]) -> bool {
    if e != SJIS {
        return false;
    }
    match std::str::from_utf8(t) {
        Ok(s) => {
            let m: String = s
                .chars()
                .map(|c| match c {
                    '\u{A5}' => '\u{5C}',
                    '\u{203E}' => '\u{7E}',
                    '\u{2212}' => '\u{FF0D}',
                    c => c,
                })
                .collect();
            m.as_bytes() == out
        }
        Err(_) => false,
    }
}

pub fn in_bounds(c: &Call) -> bool {
    let o = &c.obs;
    match o.kind {
        Kind::Ok => !o.oob && o.lo <= c.w.len() && o.wr <= c.cap,
        Kind::Err => !o.oob && o.lo <= o.hi && o.hi <= c.w.len() && o.wr <= c.cap,
        _ => false,
    }
}

/// C12 for one call, given that the code agrees with x when room is plentiful.
pub fn c12_ok(x: &Exp, c: &Call) -> bool {
    let (pos, len) = x.fit(c.cap);
    match c.obs.kind {
        Kind::Ok => c.obs.lo == pos && c.out[..] == x.out[..len],
        Kind::Err => pos == x.pos(),
        _ => false,
    }
}

pub fn no_ascii(c: &Call) -> bool {
    let o = &c.obs;
    !(o.err() && o.lo < o.hi && o.hi <= c.w.len() && c.w[o.lo..o.hi].iter().any(|&b| b < 128))
}

/// q: the text before an ASCII character alone; r: with it and what follows.
pub fn ascii_ok(q: &Call, r: &Call) -> bool {
    let n = q.w.len();
    matches!(r.obs.kind, Kind::Ok | Kind::Err)
        && r.obs.lo > n
        && r.out.len() > q.out.len()
        && r.out[..q.out.len()] == q.out[..]
        && r.out[q.out.len()] == r.w[n]
}

/// The session delivers what the whole call did, up to its first error.
pub fn chunk_ok(whole: &Call, s: &[Call]) -> bool {
    let mut text = Vec::new();
    for c in s {
        if !matches!(c.obs.kind, Kind::Ok | Kind::Err) {
            return false;
        }
        text.extend_from_slice(&c.out);
    }
    let l = match s.last() {
        Some(l) => l,
        None => return true,
    };
    if text != whole.out {
        return false;
    }
    match whole.obs.kind {
        Kind::Err => l.obs.err() && l.b + l.obs.lo == whole.obs.lo && l.obs.ch == whole.obs.ch,
        _ => l.obs.ok() && l.b + l.obs.lo == whole.obs.lo,
    }
}

/// Text and skipped positions of a skipping session, and whether it ended.
pub fn recovered(s: &[Call], n: usize) -> (Vec<u8>, Vec<usize>, bool) {
    let mut t = Vec::new();
    let mut bad = Vec::new();
    for c in s {
        t.extend_from_slice(&c.out);
        if c.obs.err() && c.obs.hi <= c.len {
            bad.extend(c.b + c.obs.lo..c.b + c.obs.hi);
        }
    }
    (t, bad, session_ends(s, n))
}
pub fn session_ends(s: &[Call], n: usize) -> bool {
    match s.last() {
        None => n == 0,
        Some(l) => match l.obs.kind {
            Kind::Ok => l.b + l.obs.lo == n,
            Kind::Err => l.b + l.obs.hi == n,
            _ => false,
        },
    }
}
