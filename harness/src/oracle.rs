//! Interprets the table that TLC writes from the specification (Gen.tla).
//! Mirrors Codec!DecUnits / EncUnits and Call!CallResults; checked against
//! TLC's own call results (MCCall's export) on every run.
use crate::api::*;
use crate::json::J;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    End,
    Wait,
    Err,
    WaitOrErr,
}

/// What the specification allows for a window, before any buffer limit: the
/// whole characters it starts with and why it stops after them.
#[derive(Clone, Debug)]
pub struct Exp {
    /// (input position, output length) after each whole character, (0,0) first
    pub marks: Vec<(u32, u32)>,
    pub out: Vec<u8>,
    pub stop: Stop,
    /// length of the error range
    pub n: usize,
    /// the unencodable character
    pub ch: u32,
}
impl Exp {
    pub fn new() -> Exp {
        Exp { marks: Vec::new(), out: Vec::new(), stop: Stop::End, n: 0, ch: 0 }
    }
    pub fn pos(&self) -> usize {
        self.marks[self.marks.len() - 1].0 as usize
    }
    pub fn need(&self) -> usize {
        self.out.len()
    }
    /// The last whole character that fits in cap.
    pub fn fit(&self, cap: usize) -> (usize, usize) {
        let i = self.marks.partition_point(|m| m.1 as usize <= cap);
        let m = self.marks[i - 1];
        (m.0 as usize, m.1 as usize)
    }
    pub fn may_err(&self) -> bool {
        matches!(self.stop, Stop::Err | Stop::WaitOrErr)
    }
}

struct Seg {
    pat: Vec<(u8, u8)>,
    base: u32,
    w: Vec<u32>,
}
#[derive(Clone, Debug)]
enum Unit {
    Emit(u8, u8, [u8; 8]), // consumed, length, output as UTF-8
    Err(u8),
    Wait,
}
struct Tab {
    one_end: Vec<Unit>,
    one_more: Vec<Unit>,
    two: Vec<Vec<Unit>>,
    bmp: Vec<u32>,
    supp: HashMap<u32, u32>,
    pub scalars: Vec<u32>,
}
enum Kind {
    Utf(Vec<Seg>),
    Tab(Tab),
}
struct One {
    kind: Kind,
    dec_max: usize,
    enc_max: usize,
}
pub struct Oracle {
    encs: Vec<One>,
    announced: Vec<u8>,
    run: Vec<bool>,
    pair_start: Vec<u32>,
    pairs: Vec<(u32, u32, [u8; 2])>,
}

pub fn push_char(v: &mut Vec<u8>, c: u32) {
    let mut t = [0u8; 4];
    v.extend_from_slice(char::from_u32(c).expect("scalar").encode_utf8(&mut t).as_bytes());
}

fn unit(j: &J) -> Unit {
    let v = j.ints();
    match v[0] {
        0 => {
            let mut o = Vec::new();
            for &c in &v[2..] {
                push_char(&mut o, c as u32);
            }
            let mut a = [0u8; 8];
            a[..o.len()].copy_from_slice(&o);
            Unit::Emit(v[1] as u8, o.len() as u8, a)
        }
        1 => Unit::Err(v[1] as u8),
        _ => Unit::Wait,
    }
}

impl Oracle {
    pub fn load(j: &J) -> Oracle {
        let mut encs = Vec::new();
        for c in CODECS {
            let t = j.get("tab").get(c.name);
            let u = j.get("utf").get(c.name);
            let (src, kind) = if let J::Obj(_) = u {
                let segs = u
                    .get("segs")
                    .arr()
                    .iter()
                    .map(|s| Seg {
                        pat: s.get("pat").arr().iter().map(|p| (p.arr()[0].num() as u8, p.arr()[1].num() as u8)).collect(),
                        base: s.get("base").num() as u32,
                        w: s.get("w").ints().iter().map(|&x| x as u32).collect(),
                    })
                    .collect();
                (u, Kind::Utf(segs))
            } else {
                assert!(matches!(t, J::Obj(_)), "oracle lacks {}", c.name);
                let mut bmp = vec![0u32; 65536];
                let mut supp = HashMap::new();
                let mut scalars = Vec::new();
                for e in t.get("enc").arr() {
                    let v = e.ints();
                    let n = (v.len() - 1) as u32;
                    let code = (n << 16) | ((v[1] as u32) << 8) | if n > 1 { v[2] as u32 } else { 0 };
                    let c = v[0] as u32;
                    if c < 65536 {
                        bmp[c as usize] = code;
                    } else {
                        supp.insert(c, code);
                    }
                    scalars.push(c);
                }
                scalars.sort();
                (
                    t,
                    Kind::Tab(Tab {
                        one_end: t.get("one_end").arr().iter().map(unit).collect(),
                        one_more: t.get("one_more").arr().iter().map(unit).collect(),
                        two: t.get("two").arr().iter().map(|r| r.arr().iter().map(unit).collect()).collect(),
                        bmp,
                        supp,
                        scalars,
                    }),
                )
            };
            encs.push(One { kind, dec_max: src.get("dec_max").num() as usize, enc_max: src.get("enc_max").num() as usize });
        }
        Oracle {
            encs,
            announced: j.get("announced").ints().iter().map(|&x| x as u8).collect(),
            run: j.get("run").arr().iter().map(|x| x.bool()).collect(),
            pair_start: j.get("pair_start").ints().iter().map(|&x| x as u32).collect(),
            pairs: j
                .get("pairs")
                .arr()
                .iter()
                .map(|p| {
                    let v = p.ints();
                    (v[0] as u32, v[1] as u32, [v[2] as u8, v[3] as u8])
                })
                .collect(),
        }
    }

    pub fn max_unit(&self, e: usize, d: Dir) -> usize {
        if d == DEC {
            self.encs[e].dec_max
        } else {
            self.encs[e].enc_max
        }
    }
    /// Scalars a table encoding can represent (empty for the UTFs).
    pub fn scalars(&self, e: usize) -> &[u32] {
        match &self.encs[e].kind {
            Kind::Tab(t) => &t.scalars,
            _ => &[],
        }
    }
    pub fn pairs(&self) -> &[(u32, u32, [u8; 2])] {
        &self.pairs
    }
    pub fn is_utf(&self, e: usize) -> bool {
        matches!(self.encs[e].kind, Kind::Utf(_))
    }

    /// The bytes of one scalar on its own, None if unencodable.
    pub fn enc1(&self, e: usize, c: u32) -> Option<([u8; 4], usize)> {
        match &self.encs[e].kind {
            Kind::Utf(segs) => {
                for s in segs {
                    let size: u32 = s.pat.iter().map(|p| p.1 as u32 - p.0 as u32 + 1).product();
                    if s.base <= c && c - s.base < size {
                        let mut o = [0u8; 4];
                        for i in 0..s.pat.len() {
                            let r = s.pat[i].1 as u32 - s.pat[i].0 as u32 + 1;
                            o[i] = (s.pat[i].0 as u32 + ((c - s.base) / s.w[i]) % r) as u8;
                        }
                        return Some((o, s.pat.len()));
                    }
                }
                None
            }
            Kind::Tab(t) => {
                let v = if c < 65536 { t.bmp[c as usize] } else { *t.supp.get(&c).unwrap_or(&0) };
                if v == 0 {
                    None
                } else {
                    Some(([(v >> 8) as u8, v as u8, 0, 0], (v >> 16) as usize))
                }
            }
        }
    }

    pub fn exp(&self, e: usize, d: Dir, input: &[u8], fin: bool, x: &mut Exp) {
        x.marks.clear();
        x.out.clear();
        x.marks.push((0, 0));
        x.stop = Stop::End;
        x.n = 0;
        x.ch = 0;
        let fin = fin || !has_end(e, d);
        if d == ENC {
            self.exp_enc(e, input, fin, x)
        } else {
            match &self.encs[e].kind {
                Kind::Utf(segs) => self.exp_utf(e, segs, input, fin, x),
                Kind::Tab(t) => exp_tab(t, input, fin, x),
            }
        }
    }

    fn exp_utf(&self, e: usize, segs: &[Seg], w: &[u8], fin: bool, x: &mut Exp) {
        let mut i = 0;
        'outer: while i < w.len() {
            let r = &w[i..];
            for s in segs {
                if r.len() >= s.pat.len() && s.pat.iter().zip(r).all(|(p, &b)| p.0 <= b && b <= p.1) {
                    let mut c = s.base;
                    for k in 0..s.pat.len() {
                        c += s.w[k] * (r[k] - s.pat[k].0) as u32;
                    }
                    i += s.pat.len();
                    push_char(&mut x.out, c);
                    x.marks.push((i as u32, x.out.len() as u32));
                    continue 'outer;
                }
            }
            let (stop, n) = match e {
                UTF8 => {
                    let run = 1 + r[1..].iter().take_while(|&&b| self.run[b as usize]).count();
                    let cut = r.len() < self.announced[r[0] as usize] as usize && r[1..].iter().all(|&b| b >= 128 && b < 192);
                    if cut && !fin {
                        let hope = segs.iter().any(|s| r.len() < s.pat.len() && s.pat.iter().zip(r).all(|(p, &b)| p.0 <= b && b <= p.1));
                        if hope {
                            (Stop::Wait, 0)
                        } else {
                            (Stop::WaitOrErr, run)
                        }
                    } else {
                        (Stop::Err, run)
                    }
                }
                U16BE | U16LE => {
                    let h = if e == U16BE { 0 } else { 1 };
                    let cut = r.len() < 2 || (r.len() < 4 && (0xD8..=0xDB).contains(&r[h]));
                    if !cut {
                        (Stop::Err, 2)
                    } else if fin {
                        (Stop::Err, r.len())
                    } else {
                        (Stop::Wait, 0)
                    }
                }
                _ => {
                    if r.len() >= 4 {
                        (Stop::Err, 4)
                    } else if fin {
                        (Stop::Err, r.len())
                    } else {
                        (Stop::Wait, 0)
                    }
                }
            };
            x.stop = stop;
            x.n = n;
            return;
        }
    }

    fn exp_enc(&self, e: usize, w: &[u8], fin: bool, x: &mut Exp) {
        let s = unsafe { std::str::from_utf8_unchecked(w) };
        let mut it = s.char_indices();
        while let Some((i, c)) = it.next() {
            let c = c as u32;
            if e == BIG5 && self.pair_start.contains(&c) {
                match it.clone().next() {
                    None => {
                        if !fin {
                            x.stop = Stop::Wait;
                            return;
                        }
                    }
                    Some((j, c2)) => {
                        if let Some(p) = self.pairs.iter().find(|p| p.0 == c && p.1 == c2 as u32) {
                            it.next();
                            x.out.extend_from_slice(&p.2);
                            x.marks.push(((j + c2.len_utf8()) as u32, x.out.len() as u32));
                            continue;
                        }
                    }
                }
            }
            let l = char::from_u32(c).unwrap().len_utf8();
            match self.enc1(e, c) {
                Some((b, n)) => {
                    x.out.extend_from_slice(&b[..n]);
                    x.marks.push(((i + l) as u32, x.out.len() as u32));
                }
                None => {
                    x.stop = Stop::Err;
                    x.n = l;
                    x.ch = c;
                    return;
                }
            }
        }
    }
}

fn exp_tab(t: &Tab, w: &[u8], fin: bool, x: &mut Exp) {
    let mut i = 0;
    while i < w.len() {
        let b = w[i] as usize;
        let u = if i + 1 < w.len() && !t.two[b].is_empty() {
            &t.two[b][w[i + 1] as usize]
        } else if fin {
            &t.one_end[b]
        } else {
            &t.one_more[b]
        };
        match u {
            Unit::Emit(n, l, o) => {
                i += *n as usize;
                x.out.extend_from_slice(&o[..*l as usize]);
                x.marks.push((i as u32, x.out.len() as u32));
            }
            Unit::Err(n) => {
                x.stop = Stop::Err;
                x.n = *n as usize;
                return;
            }
            Unit::Wait => {
                x.stop = Stop::Wait;
                return;
            }
        }
    }
}
