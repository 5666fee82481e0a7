//! Runs one call of the code under test between guard pages, and notes what
//! can be observed about it.  Before each call the arguments are written to a
//! slot of a shared file, so that the supervising process knows what was being
//! executed should the call crash or never return.
use crate::api::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};
use text_encoding::DecodeErrorCause;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;

/// A block of memory with an inaccessible page on either side.
pub struct Arena {
    base: *mut u8,
    size: usize,
}
impl Arena {
    pub fn new(size: usize) -> Arena {
        let size = (size + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert!(mprotect(p, PAGE, 0) == 0 && mprotect(p.add(PAGE + size), PAGE, 0) == 0);
            Arena { base: p.add(PAGE), size }
        }
    }
    /// Where `len` bytes go under a placement: 0 = up against the upper guard
    /// page, 1 = against the lower one, n = n-2 bytes off an aligned address.
    fn at(&self, len: usize, placement: u32) -> *mut u8 {
        assert!(len + 256 <= self.size, "arena too small");
        unsafe {
            match placement {
                0 => self.base.add(self.size - len),
                1 => self.base,
                n => self.base.add(64 + ((n as usize - 2) & 63)),
            }
        }
    }
}

/// A region larger than 32 bits can count, of which only the pages that are
/// written take memory.  One for input and one for output, each used by one
/// thread at a time.
pub struct Vast {
    base: *mut u8,
}
unsafe impl Send for Vast {}
pub const VAST: u32 = 0xC0; // placements from here on: a vast buffer
const VAST_SIZE: usize = (1 << 32) + (1 << 20);
static VASTS: [Mutex<Option<Vast>>; 2] = [Mutex::new(None), Mutex::new(None)];
/// Codecs not to be given vast buffers (any more): bit 4 e + 2 d + i.
static VAST_OFF: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
fn vast_off(e: usize, d: Dir, i: usize, set: bool) -> bool {
    let k = 4 * e + 2 * (d == ENC) as usize + i;
    if set {
        VAST_OFF[k / 64].fetch_or(1 << (k % 64), Ordering::Relaxed);
    }
    VAST_OFF[k / 64].load(Ordering::Relaxed) >> (k % 64) & 1 == 1
}
/// How many bytes a vast buffer has.
fn vast_len(placement: u32) -> usize {
    (if placement & 0x20 != 0 { 1 << 31 } else { 1 << 32 }) + (placement & 0x1f) as usize
}
fn vast(i: usize) -> Option<MutexGuard<'static, Option<Vast>>> {
    let mut g = VASTS[i].lock().unwrap_or_else(|x| x.into_inner());
    if g.is_none() {
        // private, anonymous, no memory set aside
        let p = unsafe { mmap(std::ptr::null_mut(), VAST_SIZE + 2 * PAGE, 3, 0x4022, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        unsafe {
            mprotect(p, PAGE, 0);
            mprotect(p.add(PAGE + VAST_SIZE), PAGE, 0);
            *g = Some(Vast { base: p.add(PAGE) });
        }
    }
    Some(g)
}

pub const MAX_IN: usize = 10 << 20;
pub const MAX_OUT: usize = 40 << 20;
pub const SLOT: usize = MAX_IN + 64;

/// The slots of all threads: one file mapped by this process and its parent.
pub struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn open(path: &str, n: usize, create: bool) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(create)
            .open(path)
            .expect("slots file");
        if create {
            f.set_len((n * SLOT) as u64).unwrap();
        }
        let p = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap slots");
        Slots { base: p }
    }
    pub fn slot(&self, i: usize) -> Slot {
        Slot { p: unsafe { self.base.add(i * SLOT) } }
    }
}
#[derive(Clone, Copy)]
pub struct Slot {
    p: *mut u8,
}
unsafe impl Send for Slot {}
impl Slot {
    fn w(&self, i: usize) -> *mut u64 {
        unsafe { (self.p as *mut u64).add(i) }
    }
    pub fn begin(&self, e: usize, d: Dir, input: &[u8], cap: usize, fin: bool, pl: u32) {
        unsafe {
            *self.w(2) = e as u64 | (if d == ENC { 1 << 16 } else { 0 }) | ((fin as u64) << 17) | ((pl as u64) << 32);
            *self.w(3) = cap as u64;
            *self.w(4) = input.len() as u64;
            std::ptr::copy_nonoverlapping(input.as_ptr(), self.p.add(64), input.len());
            self.w(0).write_volatile(self.w(0).read_volatile() + 1);
            self.w(1).write_volatile(1);
        }
    }
    pub fn end(&self) {
        unsafe { self.w(1).write_volatile(0) }
    }
    pub fn seq(&self) -> u64 {
        unsafe { self.w(0).read_volatile() }
    }
    pub fn active(&self) -> bool {
        unsafe { self.w(1).read_volatile() == 1 }
    }
    pub fn read(&self) -> (usize, Dir, Vec<u8>, usize, bool, u32) {
        unsafe {
            let a = *self.w(2);
            let n = *self.w(4) as usize;
            let mut v = vec![0u8; n.min(MAX_IN)];
            std::ptr::copy_nonoverlapping(self.p.add(64), v.as_mut_ptr(), v.len());
            (
                (a & 0xffff) as usize,
                if a & (1 << 16) != 0 { ENC } else { DEC },
                v,
                *self.w(3) as usize,
                a & (1 << 17) != 0,
                (a >> 32) as u32,
            )
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ok,
    Err,
    Panic,
    Crash,
    Hang,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Ok => "ok",
            Kind::Err => "err",
            Kind::Panic => "panic",
            Kind::Crash => "crash",
            Kind::Hang => "hang",
        }
    }
}

/// What a call did.  `lo` is the consumed count (Ok) or the start of the error
/// range (Err); positions and counts are exactly what the code reported.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub kind: Kind,
    pub lo: usize,
    pub hi: usize,
    pub wr: usize,   // output_bytes_written, or length of the returned slice
    pub ch: u32,     // EncodeError::character
    pub cause: u8,   // 0 InvalidData, 1 other
    pub at0: bool,   // returned slice starts at the start of the buffer
    pub oob: bool,   // memory around the buffer changed
}
impl Obs {
    pub fn dead(kind: Kind) -> Obs {
        Obs { kind, lo: 0, hi: 0, wr: 0, ch: 0, cause: 0, at0: true, oob: false }
    }
    pub fn ok(&self) -> bool {
        self.kind == Kind::Ok
    }
    pub fn err(&self) -> bool {
        self.kind == Kind::Err
    }
}

pub struct Runner {
    inp: Arena,
    out: Arena,
    pub slot: Option<Slot>,
    pub placement: u32, // packed: input placement, output placement, prefill
    last: (*const u8, usize),
    pub calls: u64,
}

const CANARY: u8 = 0x5C;

impl Runner {
    pub fn new(slot: Option<Slot>) -> Runner {
        Runner {
            inp: Arena::new(MAX_IN + 4096),
            out: Arena::new(MAX_OUT + 4096),
            slot,
            placement: 0,
            last: (std::ptr::null(), 0),
            calls: 0,
        }
    }

    /// The first `wr` bytes of the buffer after the last call (clamped).
    pub fn out(&self, o: &Obs) -> &[u8] {
        match o.kind {
            Kind::Ok | Kind::Err => unsafe { std::slice::from_raw_parts(self.last.0, o.wr.min(self.last.1)) },
            _ => &[],
        }
    }

    pub fn call(&mut self, e: usize, d: Dir, input: &[u8], cap: usize, fin: bool) -> Obs {
        self.calls += 1;
        let pl = self.placement;
        if pl & 0xff >= VAST || (pl >> 8) & 0xff >= VAST {
            return self.call_vast(e, d, input, cap, fin);
        }
        if let Some(s) = self.slot {
            s.begin(e, d, input, cap, fin, pl);
        }
        let ip = self.inp.at(input.len(), pl & 0xff);
        let op = self.out.at(cap, (pl >> 8) & 0xff);
        let fill = (pl >> 16) & 0xff;
        let fill2 = (pl >> 24) & 0xff;
        // Bytes outside the buffer that are ours to watch.
        let before = (op as usize - self.out.base as usize).min(32);
        let after = (self.out.base as usize + self.out.size - op as usize - cap).min(32);
        unsafe {
            std::ptr::copy_nonoverlapping(input.as_ptr(), ip, input.len());
            if fill as u8 == ECHO {
                // The buffer already holds nearly what the call will write.
                let k = fill2 as usize;
                std::ptr::write_bytes(op, 0xA5, cap);
                let inp: &[u8] = std::slice::from_raw_parts(ip, input.len());
                let buf: &mut [u8] = std::slice::from_raw_parts_mut(op, cap);
                let (_, o) = raw(e, d, inp, buf, fin);
                let n = o.wr.min(cap);
                let flip = |i: usize| *op.add(i) ^= 0x15;
                match k & 3 {
                    0 if n > 0 => flip((k >> 2) * 37 % n),
                    1 if n > 0 => flip(n - 1 - (k >> 2) % n),
                    2 => {
                        let (a, b) = ((k >> 2) & 7, (k >> 5) & 7);
                        for i in a..n.saturating_sub(b) {
                            flip(i);
                        }
                    }
                    _ => {}
                }
            } else if fill as u8 == RESIDUE {
                // whatever is there
            } else if fill == fill2 {
                std::ptr::write_bytes(op, fill as u8, cap);
            } else {
                for i in 0..cap {
                    *op.add(i) = if i % 3 == 0 { fill as u8 } else { fill2 as u8 };
                }
            }
            std::ptr::write_bytes(op.sub(before), CANARY, before);
            std::ptr::write_bytes(op.add(cap), CANARY, after);
        }
        let inp: &[u8] = unsafe { std::slice::from_raw_parts(ip, input.len()) };
        let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(op, cap) };
        let (got, mut obs) = raw(e, d, inp, buf, fin);
        if let Some(s) = self.slot {
            s.end();
        }
        if matches!(obs.kind, Kind::Ok | Kind::Err) {
            // A zero-length result may point anywhere.
            obs.at0 = obs.wr == 0 || got == op as *const u8;
            if !obs.at0 {
                let (a, b) = (got as usize, op as usize);
                obs.oob = a < b || a + obs.wr > b + cap;
            }
        }
        unsafe {
            for i in 0..before {
                obs.oob |= *op.sub(before).add(i) != CANARY;
            }
            for i in 0..after {
                obs.oob |= *op.add(cap).add(i) != CANARY;
            }
        }
        self.last = (op, cap);
        if obs.kind == Kind::Ok && !obs.at0 && !obs.oob {
            // Judge the returned slice itself.
            self.last = (got, obs.wr);
        }
        obs
    }
}

impl Runner {
    /// The placements under which a call that ended as `o` must end the same
    /// way in a vast buffer: an output with room to spare made vast, or an
    /// input the call stopped well before the end of followed by 4 GiB of NULs.
    pub fn vast_placement(&self, e: usize, d: Dir, input: &[u8], cap: usize, o: &Obs, r: u64) -> Option<u32> {
        if !matches!(o.kind, Kind::Ok | Kind::Err) {
            return None;
        }
        let k = (r & 0x1f) as u32 | if r & 0x60 == 0 { 0x20 } else { 0 };
        let i = if r & 0x80 == 0 && input.len() <= 4096 && o.lo.max(o.hi) + 8 <= input.len() {
            0
        } else if cap >= o.wr && cap - o.wr >= 8 {
            1
        } else {
            return None;
        };
        if vast_off(e, d, i, false) {
            return None;
        }
        Some(if i == 0 { (self.placement & !0xff) | VAST | k } else { (self.placement & !0xff00) | (VAST | k) << 8 })
    }

    fn call_vast(&mut self, e: usize, d: Dir, input: &[u8], cap: usize, fin: bool) -> Obs {
        let (pi, po) = (self.placement & 0xff, (self.placement >> 8) & 0xff);
        let i = if pi >= VAST { 0 } else { 1 };
        let g = match vast(i) {
            Some(g) if !vast_off(e, d, i, false) => g,
            g => {
                vast_off(e, d, i, true);
                drop(g);
                // no such memory here: an ordinary call
                let pl = self.placement;
                self.placement &= !(0xff << (8 * i));
                let o = self.call(e, d, input, cap, fin);
                self.placement = pl;
                return o;
            }
        };
        if let Some(s) = self.slot {
            s.begin(e, d, input, cap, fin, self.placement);
        }
        let base = g.as_ref().unwrap().base;
        let t = std::time::Instant::now();
        let (ip, il, op, ol) = if i == 0 {
            unsafe { std::ptr::copy_nonoverlapping(input.as_ptr(), base, input.len()) };
            (base, vast_len(pi).max(input.len()), self.out.at(cap, if po < VAST { po } else { 2 }), cap)
        } else {
            let p = self.inp.at(input.len(), pi);
            unsafe { std::ptr::copy_nonoverlapping(input.as_ptr(), p, input.len()) };
            (p, input.len(), unsafe { base.add(64) }, vast_len(po))
        };
        let (before, after) = if i == 0 { (0, 0) } else { (32, 32) };
        unsafe {
            std::ptr::write_bytes(op.sub(before), CANARY, before);
            std::ptr::write_bytes(op.add(ol), CANARY, after);
        }
        let inp: &[u8] = unsafe { std::slice::from_raw_parts(ip, il) };
        let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(op, ol) };
        let (got, mut obs) = raw(e, d, inp, buf, fin);
        if let Some(s) = self.slot {
            s.end();
        }
        if matches!(obs.kind, Kind::Ok | Kind::Err) {
            obs.at0 = obs.wr == 0 || got == op as *const u8;
            if !obs.at0 {
                let (a, b) = (got as usize, op as usize);
                obs.oob = a < b || a.saturating_add(obs.wr) > b + ol;
            }
        }
        unsafe {
            for i in 0..before {
                obs.oob |= *op.sub(before).add(i) != CANARY;
            }
            for i in 0..after {
                obs.oob |= *op.add(ol).add(i) != CANARY;
            }
        }
        // What was written, to where it can be read once the region is not ours.
        let n = obs.wr.min(cap).min(if matches!(obs.kind, Kind::Ok | Kind::Err) { cap } else { 0 });
        let from = if obs.at0 || obs.oob { op as *const u8 } else { got };
        let to = self.out.at(cap, 2);
        unsafe {
            std::ptr::copy(from, to, n);
            if i == 0 {
                std::ptr::write_bytes(base, 0, input.len());
            }
            self.last = (to, n);
            if t.elapsed().as_millis() > 150 {
                // Looks at all of its buffer: correct, but no more of this.
                vast_off(e, d, i, true);
                madvise(base, VAST_SIZE, 4);
            }
        }
        VAST_CALLS.fetch_add(1, Ordering::Relaxed);
        obs
    }
}
pub static VAST_CALLS: AtomicU64 = AtomicU64::new(0);

pub const ECHO: u8 = 0xE7;
pub const RESIDUE: u8 = 0xE9;

/// The call itself: where its result lies and what it says.
fn raw(e: usize, d: Dir, inp: &[u8], buf: &mut [u8], fin: bool) -> (*const u8, Obs) {
    let op = buf.as_ptr();
    let c = &CODECS[e];
    let r = catch_unwind(AssertUnwindSafe(|| match d {
            ENC => {
                let s = unsafe { std::str::from_utf8_unchecked(inp) };
                let r = match c.enc {
                    Enc::Plain(f) => f(s, buf),
                    Enc::End(f) => f(s, buf, fin),
                };
                match r {
                    Ok((o, n)) => (o.as_ptr(), Obs { kind: Kind::Ok, lo: n, hi: n, wr: o.len(), ch: 0, cause: 0, at0: true, oob: false }),
                    Err(x) => (
                        op,
                        Obs {
                            kind: Kind::Err,
                            lo: x.error_range.0,
                            hi: x.error_range.1,
                            wr: x.output_bytes_written,
                            ch: x.character as u32,
                            cause: 0,
                            at0: true,
                            oob: false,
                        },
                    ),
                }
            }
            DEC => {
                let r = match c.dec {
                    Dec::Plain(f) => f(inp, buf),
                    Dec::End(f) => f(inp, buf, fin),
                };
                match r {
                    Ok((o, n)) => (o.as_ptr(), Obs { kind: Kind::Ok, lo: n, hi: n, wr: o.len(), ch: 0, cause: 0, at0: true, oob: false }),
                    Err(x) => (
                        op,
                        Obs {
                            kind: Kind::Err,
                            lo: x.error_range.0,
                            hi: x.error_range.1,
                            wr: x.output_bytes_written,
                            ch: 0,
                            cause: if x.cause == DecodeErrorCause::InvalidData { 0 } else { 1 },
                            at0: true,
                            oob: false,
                        },
                    ),
                }
            }
        }));
    match r {
        Ok(x) => x,
        Err(_) => (std::ptr::null(), Obs::dead(Kind::Panic)),
    }
}
