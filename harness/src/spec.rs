//! Reference decoder for Vorbis setup headers and audio packets, written from the Vorbis I
//! specification (sections 3, 4, 7, 8); it works on symbolic bytes, making structural values concrete.
#![allow(dead_code)]
use super::bits::*;
use super::mk::*;
use super::sym::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Verdict {
    /// the specification forbids it
    Illegal,
    /// forbidden, but documented as tolerated (repaired) or left to the decoder
    Tolerated,
    Legal,
}

/// stops at the end of the packet
struct Rd<'a> {
    r: BR<'a>,
    worst: Verdict,
}
enum Stop {
    Bad,
}
type P<T> = Result<T, Stop>;
impl Rd<'_> {
    fn get(&mut self, w: u32) -> P<u64> {
        self.r.get(w).ok_or(Stop::Bad)
    }
    fn conc(&mut self, w: u32) -> P<u64> {
        Ok(conc(self.get(w)?))
    }
    fn flag(&mut self) -> P<bool> {
        Ok(self.get(1)? == 1)
    }
    fn need(&mut self, c: bool) -> P<()> {
        if c { Ok(()) } else { Err(Stop::Bad) }
    }
    fn wish(&mut self, c: bool) {
        if !c {
            self.worst = Verdict::Tolerated;
        }
    }
}

/// 2^32 times the Kraft sum
pub fn kraft(lens: &[u8]) -> u64 {
    lens.iter().filter(|l| **l != 0).map(|l| 1u64 << (32 - *l)).sum()
}
/// do the lengths form a full prefix code (or one of the permitted special cases)
pub fn full(lens: &[u8]) -> bool {
    let used = lens.iter().filter(|l| **l != 0).count();
    let one = lens.iter().any(|l| *l == 1);
    used == 0 || (used == 1 && one) || kraft(lens) == 1 << 32
}

pub fn lookup1(entries: u64, dims: u64) -> u64 {
    if entries == 0 {
        return 0;
    }
    let mut r = 1u64;
    while {
        let mut p = 1u64;
        let mut i = 0;
        while i < dims && p <= entries {
            p *= r + 1;
            i += 1;
        }
        p <= entries
    } {
        r += 1;
    }
    r
}

fn book(r: &mut Rd) -> P<Book> {
    let sync = r.get(24)?;
    r.wish(sync == 0x564342);
    let dims = r.get(16)?;
    let n = r.conc(24)? as usize;
    let ordered = r.flag()?;
    // an entry takes at least a bit, unless the list is ordered
    if !ordered && r.r.end - r.r.pos < n {
        return Err(Stop::Bad);
    }
    // bound of the exploration
    assume(n <= 1000);
    let mut lens: Vec<u8> = Vec::with_capacity(n);
    let form;
    if ordered {
        form = Form::Ordered;
        let mut l = r.get(5)? + 1;
        while lens.len() < n {
            r.need(l <= 32)?;
            let k = r.conc(ilog((n - lens.len()) as u64))? as usize;
            r.need(lens.len() + k <= n)?;
            if k > 0 {
                l = conc(l);
            }
            for _ in 0..k {
                lens.push(l as u8);
            }
            l += 1;
        }
    } else if r.flag()? {
        form = Form::Sparse;
        for _ in 0..n {
            let l = if r.flag()? { r.conc(5)? as u8 + 1 } else { 0 };
            lens.push(l);
        }
    } else {
        form = Form::Dense;
        for _ in 0..n {
            let l = r.conc(5)? as u8 + 1;
            lens.push(l);
        }
    }
    let lookup = r.conc(4)?;
    let mut b = Book { dims, lens, form, lookup, min: 0, delta: 0, vbits: 1, seq: 0, mult: vec![] };
    r.need(lookup <= 2)?;
    if lookup != 0 {
        b.min = r.get(32)?;
        b.delta = r.get(32)?;
        b.vbits = r.conc(4)? as u32 + 1;
        b.seq = r.get(1)?;
        b.dims = conc(b.dims);
        let k = if lookup == 2 {
            n as u64 * b.dims
        } else if b.dims == 0 {
            // the root is not defined
            r.need(false)?;
            0
        } else {
            lookup1(n as u64, b.dims)
        };
        if ((r.r.end - r.r.pos) as u64) < k * b.vbits as u64 {
            return Err(Stop::Bad);
        }
        for _ in 0..k {
            let m = r.get(b.vbits)?;
            b.mult.push(m);
        }
    }
    r.need(kraft(&b.lens) <= 1 << 32 || b.lens == [1])?;
    r.wish(full(&b.lens));
    Ok(b)
}

fn pfloor(r: &mut Rd, books: usize) -> P<Floor> {
    let ty = r.get(16)?;
    // type 0 is not supported
    r.need(ty == 1)?;
    let n = r.conc(5)?;
    let mut f = floor(&[], vec![], 0, 0, &[]);
    let mut classes = 0;
    for _ in 0..n {
        let c = r.conc(4)?;
        f.parts.push(c);
        classes = classes.max(c + 1);
    }
    for _ in 0..classes {
        let dim = r.conc(3)? + 1;
        let sub = r.conc(2)? as u32;
        let mut c = Class { dim, sub, master: 0, books: vec![] };
        if sub != 0 {
            c.master = r.get(8)?;
            r.need(c.master < books as u64)?;
        }
        for _ in 0..1 << sub {
            let b = r.get(8)?;
            r.need(b <= books as u64)?;
            c.books.push(b);
        }
        f.classes.push(c);
    }
    f.mult = r.get(2)? + 1;
    f.range = r.conc(4)? as u32;
    for p in f.parts.clone() {
        for _ in 0..f.classes[p as usize].dim {
            let x = r.conc(f.range)?;
            r.need(x != 0)?;
            for y in f.xs.clone() {
                r.need(x != y)?;
            }
            f.xs.push(x);
        }
    }
    r.need(f.xs.len() <= 63)?;
    Ok(f)
}

fn presidue(r: &mut Rd, books: &[Book]) -> P<Residue> {
    let ty = r.get(16)?;
    r.need(ty <= 2)?;
    let begin = r.get(24)?;
    let end = r.get(24)?;
    let psize = r.get(24)? + 1;
    let classes = r.conc(6)? + 1;
    let classbook = r.get(8)?;
    r.need(classbook < books.len() as u64)?;
    // every classification combination has an entry
    let cb = &books[conc(classbook) as usize];
    let mut combos = 1u64;
    let mut i = 0;
    let d = if classes > 1 { conc(cb.dims) } else { 0 };
    while i < d && combos <= 1 << 32 {
        combos *= classes;
        i += 1;
    }
    r.need(combos <= cb.lens.len() as u64)?;
    let mut x = Residue { ty, begin, end, psize, classes, classbook, cascade: vec![], books: vec![] };
    for _ in 0..classes {
        let low = r.get(3)?;
        let high = if r.flag()? { r.get(5)? } else { 0 };
        x.cascade.push(high << 3 | low);
    }
    for i in 0..classes as usize {
        let mut v = vec![];
        for j in 0..8 {
            if (x.cascade[i] >> j) & 1 == 1 {
                let b = r.get(8)?;
                r.need(b < books.len() as u64)?;
                v.push(b);
            }
        }
        x.books.push(v);
    }
    Ok(x)
}

fn pmapping(r: &mut Rd, channels: u32, floors: usize, residues: usize) -> P<Mapping> {
    let ty = r.get(16)?;
    r.need(ty == 0)?;
    let mut m = mapping(&[], &[], &[]);
    m.long_submaps = r.flag()?;
    let subs = if m.long_submaps { r.conc(4)? + 1 } else { 1 };
    if r.flag()? {
        let steps = r.conc(8)? + 1;
        let w = ilog(channels as u64 - 1);
        for _ in 0..steps {
            let a = r.get(w)?;
            let b = r.get(w)?;
            r.need(a != b && a < channels as u64 && b < channels as u64)?;
            m.coupling.push((a, b));
        }
    }
    m.reserved = r.get(2)?;
    let z = m.reserved == 0;
    r.wish(z);
    for _ in 0..channels {
        if subs > 1 {
            let x = r.get(4)?;
            r.need(x < subs)?;
            m.mux.push(x);
        } else {
            m.mux.push(0);
        }
    }
    for _ in 0..subs {
        let t = r.get(8)?;
        let f = r.get(8)?;
        r.need(f < floors as u64)?;
        let s = r.get(8)?;
        r.need(s < residues as u64)?;
        m.subs.push((t, f, s));
    }
    Ok(m)
}

fn setup_in(r: &mut Rd, channels: u32) -> P<Setup> {
    for (i, c) in b"\x05vorbis".iter().enumerate() {
        let x = r.get(8)?;
        r.need(x == *c as u64)?;
        let _ = i;
    }
    let mut s = Setup { books: vec![], times: vec![], floors: vec![], residues: vec![], mappings: vec![], modes: vec![], framing: 0 };
    for _ in 0..=r.conc(8)? {
        let b = book(r)?;
        s.books.push(b);
    }
    for _ in 0..=r.conc(6)? {
        let t = r.get(16)?;
        r.wish(t == 0);
        s.times.push(t);
    }
    for _ in 0..=r.conc(6)? {
        let f = pfloor(r, s.books.len())?;
        s.floors.push(f);
    }
    for _ in 0..=r.conc(6)? {
        let x = presidue(r, &s.books)?;
        s.residues.push(x);
    }
    for _ in 0..=r.conc(6)? {
        let m = pmapping(r, channels, s.floors.len(), s.residues.len())?;
        s.mappings.push(m);
    }
    for _ in 0..=r.conc(6)? {
        let big = r.get(1)?;
        let window = r.get(16)?;
        let transform = r.get(16)?;
        r.wish(window == 0);
        r.wish(transform == 0);
        let mapping = r.get(8)?;
        r.need(mapping < s.mappings.len() as u64)?;
        s.modes.push(Mode { big, window, transform, mapping });
    }
    match r.r.get(1) {
        Some(f) => {
            s.framing = f;
            r.wish(f == 1);
        }
        None => r.wish(false),
    }
    Ok(s)
}

/// parses a setup header packet
pub fn parse_setup(p: &[u8], channels: u32) -> (Verdict, Option<Setup>, usize) {
    let mut r = Rd { r: BR::new(p), worst: Verdict::Legal };
    match setup_in(&mut r, channels) {
        Ok(s) => (r.worst, Some(s), r.r.pos),
        Err(_) => (Verdict::Illegal, None, r.r.pos),
    }
}

fn all_eq(a: &[u64], b: &[u64]) -> bool {
    let mut d = (a.len() != b.len()) as u64;
    for (x, y) in a.iter().zip(b) {
        d |= x ^ y;
    }
    d == 0
}

/// value of a Vorbis float word
pub fn vorbis_float(word: u64) -> u64 {
    let sign = (word >> 31 & 1) << 63;
    let e = (word >> 21) & 0x3ff;
    let m = word & 0x1f_ffff;
    if m == 0 {
        return sign;
    }
    let p = 63 - (m as u64).leading_zeros() as u64;
    sign | ((e + p + 1023 - 788) << 52) | ((m << (52 - p)) & ((1 << 52) - 1))
}

/// are two configurations the same but for codeword lengths and meaningless fields
pub fn check_same_config(a: &Setup, b: &Setup) {
    check(a.books.len() == b.books.len(), "codebook count is kept");
    for (x, y) in a.books.iter().zip(&b.books) {
        check(x.dims == y.dims, "codebook dimensions are kept");
        check(x.lens.len() == y.lens.len(), "codebook entry count is kept");
        check(x.lookup == y.lookup, "codebook lookup type is kept");
        if x.lookup != 0 && y.lookup != 0 {
            check(x.vbits == y.vbits && all_eq(&x.mult, &y.mult), "codebook multiplicands are kept");
            check(x.seq == y.seq, "codebook sequence flag is kept");
            let same_min = x.min == y.min;
            if !same_min {
                check(vorbis_float(x.min) << 1 == vorbis_float(y.min) << 1, "codebook minimum value is kept");
            }
            let same_delta = x.delta == y.delta;
            if !same_delta {
                check(vorbis_float(x.delta) << 1 == vorbis_float(y.delta) << 1, "codebook delta value is kept");
            }
        }
    }
    check(a.floors.len() == b.floors.len(), "floor count is kept");
    for (x, y) in a.floors.iter().zip(&b.floors) {
        check(all_eq(&x.parts, &y.parts), "floor partitions are kept");
        check(x.classes.len() == y.classes.len(), "floor class count is kept");
        for (c, d) in x.classes.iter().zip(&y.classes) {
            check(c.dim == d.dim && c.sub == d.sub, "floor class dimensions and subclasses are kept");
            check(c.sub == 0 || c.master == d.master, "floor master books are kept");
            check(all_eq(&c.books, &d.books), "floor books are kept");
        }
        check(x.mult == y.mult, "floor multiplier is kept");
        check(x.range == y.range, "floor range bits are kept");
        check(all_eq(&x.xs, &y.xs), "floor X points are kept");
    }
    check(a.residues.len() == b.residues.len(), "residue count is kept");
    for (x, y) in a.residues.iter().zip(&b.residues) {
        check(x.ty == y.ty, "residue type is kept");
        check(x.begin == y.begin, "residue begin is kept");
        // an end before the begin denotes an empty residue
        check(x.end.max(x.begin) == y.end.max(y.begin), "residue end is kept");
        check(x.psize == y.psize, "residue partition size is kept");
        check(x.classes == y.classes, "residue classifications are kept");
        check(x.classbook == y.classbook, "residue classbook is kept");
        check(all_eq(&x.cascade, &y.cascade), "residue cascade is kept");
        for (c, d) in x.books.iter().zip(&y.books) {
            check(all_eq(c, d), "residue books are kept");
        }
    }
    check(a.mappings.len() == b.mappings.len(), "mapping count is kept");
    for (x, y) in a.mappings.iter().zip(&b.mappings) {
        check(x.coupling.len() == y.coupling.len(), "coupling step count is kept");
        for (c, d) in x.coupling.iter().zip(&y.coupling) {
            check(c.0 == d.0 && c.1 == d.1, "coupling channels are kept");
        }
        check(all_eq(&x.mux, &y.mux), "channel submaps are kept");
        check(x.subs.len() == y.subs.len(), "submap count is kept");
        for (c, d) in x.subs.iter().zip(&y.subs) {
            check(c.1 == d.1 && c.2 == d.2, "submap floors and residues are kept");
        }
    }
    check(a.modes.len() == b.modes.len(), "mode count is kept");
    for (x, y) in a.modes.iter().zip(&b.modes) {
        check(x.big == y.big, "mode block flags are kept");
        check(x.mapping == y.mapping, "mode mappings are kept");
    }
}

// ---------------------------------------------------------------- audio packets

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ev {
    /// value, width
    Raw(u64, u32),
    /// book, entry
    Entry(usize, usize),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum End {
    /// decoded to its end
    Complete,
    /// cut short before the mode and window information was complete
    NoMode,
    /// cut short after that
    Cut,
    /// not an audio packet
    NotAudio,
    /// must not be decoded
    Invalid,
}
pub struct Audio {
    pub evs: Vec<Ev>,
    pub end: End,
    /// bits of the complete values and codewords
    pub bits: usize,
    pub big: Option<bool>,
}

/// codewords as the specification assigns them (bits in stream order, first bit lowest)
pub fn codewords(lens: &[u8]) -> Vec<(u32, u32)> {
    // the lowest free code of each length: walk the tree of free nodes
    let mut out = vec![(0, 0); lens.len()];
    let mut free: Vec<(u64, u32)> = vec![(0, 0)];
    for (i, l) in lens.iter().enumerate() {
        let l = *l as u32;
        if l == 0 {
            continue;
        }
        // leftmost free node that is at most that deep
        let mut best: Option<usize> = None;
        for (k, (c, d)) in free.iter().enumerate() {
            if *d <= l {
                let at = *c << (32 - *d);
                if best.map_or(true, |b: usize| at < free[b].0 << (32 - free[b].1)) {
                    best = Some(k);
                }
            }
        }
        let k = match best {
            Some(k) => k,
            None => continue,
        };
        let (mut c, mut d) = free.swap_remove(k);
        while d < l {
            free.push((c << 1 | 1, d + 1));
            c <<= 1;
            d += 1;
        }
        let mut rev = 0u32;
        for b in 0..l {
            rev |= ((c >> (l - 1 - b) & 1) as u32) << b;
        }
        out[i] = (rev, l);
    }
    out
}

pub struct Dec {
    pub s: Setup,
    pub words: Vec<Vec<(u32, u32)>>,
    /// books with a single used entry of length one
    pub single: Vec<bool>,
    pub channels: usize,
    pub bs: [usize; 2],
}

enum X {
    Eop,
    Invalid,
}
struct Cx<'a> {
    d: &'a Dec,
    r: BR<'a>,
    evs: Vec<Ev>,
    bits: usize,
}
impl Cx<'_> {
    fn raw(&mut self, w: u32) -> Result<u64, X> {
        let v = self.r.get(w).ok_or(X::Eop)?;
        self.evs.push(Ev::Raw(v, w));
        self.bits = self.r.pos;
        Ok(v)
    }
    fn entry(&mut self, b: usize) -> Result<usize, X> {
        let ws = &self.d.words[b];
        let (mut c, mut n) = (0u32, 0u32);
        loop {
            if n == 32 {
                return Err(X::Invalid);
            }
            let bit = match self.r.get(1) {
                Some(x) => x,
                None => return Err(X::Eop),
            };
            if bit == 1 {
                c |= 1 << n;
            }
            n += 1;
            let mut prefix = false;
            for (i, (w, l)) in ws.iter().enumerate() {
                let hit = *l == n && *w == c;
                // a book whose only used entry has length one takes either bit
                if hit || (n == 1 && *l == 1 && self.d.single[b]) {
                    self.evs.push(Ev::Entry(b, i));
                    self.bits = self.r.pos;
                    return Ok(i);
                }
                prefix |= *l > n && (*w ^ c) & ((1u32 << n) - 1) == 0;
            }
            if !prefix {
                return Err(X::Invalid);
            }
        }
    }
}

impl Dec {
    pub fn new(s: Setup, channels: usize, bs: [usize; 2]) -> Self {
        let words = s.books.iter().map(|b| codewords(&b.lens)).collect();
        let single = s.books.iter().map(|b| b.lens.iter().filter(|l| **l != 0).count() == 1 && b.lens.contains(&1)).collect();
        Dec { s, words, single, channels, bs }
    }
    pub fn decode(&self, p: &[u8]) -> Audio {
        let mut c = Cx { d: self, r: BR::new(p), evs: Vec::with_capacity(64), bits: 0 };
        let mut big = None;
        let mut body = false;
        let r = self.run(&mut c, &mut big, &mut body);
        let end = match r {
            Ok(true) => End::Complete,
            Ok(false) => End::NotAudio,
            Err(X::Eop) if body => End::Cut,
            Err(X::Eop) => End::NoMode,
            Err(X::Invalid) => End::Invalid,
        };
        Audio { evs: c.evs, end, bits: c.bits, big }
    }
    fn run(&self, c: &mut Cx, big: &mut Option<bool>, body: &mut bool) -> Result<bool, X> {
        let s = &self.s;
        if c.raw(1)? != 0 {
            return Ok(false);
        }
        let m = c.raw(ilog(s.modes.len() as u64 - 1))?;
        if m >= s.modes.len() as u64 {
            return Err(X::Invalid);
        }
        let mode = &s.modes[conc(m) as usize];
        let isbig = mode.big == 1;
        if isbig {
            c.raw(1)?;
            c.raw(1)?;
        }
        *big = Some(isbig);
        *body = true;
        let n = self.bs[isbig as usize];
        let map = &s.mappings[mode.mapping as usize];
        // floors
        let mut silent = vec![];
        for ch in 0..self.channels {
            let f = &s.floors[map.subs[map.mux[ch] as usize].1 as usize];
            let energy = c.raw(1)? == 1;
            silent.push(!energy);
            if !energy {
                continue;
            }
            let range = [256, 128, 86, 64][f.mult as usize - 1];
            for _ in 0..2 {
                c.raw(ilog(range - 1))?;
            }
            for p in &f.parts {
                let cl = &f.classes[*p as usize];
                let mask = (1usize << cl.sub) - 1;
                let mut v = 0;
                if cl.sub > 0 {
                    v = c.entry(cl.master as usize)?;
                }
                for _ in 0..cl.dim {
                    let b = cl.books[v & mask];
                    v >>= cl.sub;
                    if b != 0 {
                        c.entry(b as usize - 1)?;
                    }
                }
            }
        }
        for (a, b) in &map.coupling {
            if !(silent[*a as usize] && silent[*b as usize]) {
                silent[*a as usize] = false;
                silent[*b as usize] = false;
            }
        }
        for (k, sub) in map.subs.iter().enumerate() {
            let mut skip: Vec<bool> = vec![];
            for ch in 0..self.channels {
                if map.mux[ch] as usize == k {
                    skip.push(silent[ch]);
                }
            }
            let r = &s.residues[sub.2 as usize];
            let mut size = n / 2;
            if r.ty == 2 {
                if skip.iter().all(|x| *x) {
                    continue;
                }
                size *= skip.len();
                skip = vec![false];
            }
            self.residue(c, r, size, &skip)?;
        }
        Ok(true)
    }
    fn residue(&self, c: &mut Cx, r: &Residue, size: usize, skip: &[bool]) -> Result<(), X> {
        if skip.iter().all(|x| *x) {
            return Ok(());
        }
        let begin = (r.begin as usize).min(size);
        let end = (r.end as usize).min(size).max(begin);
        if end == begin {
            return Ok(());
        }
        let parts = (end - begin) / r.psize as usize;
        let cw = self.s.books[r.classbook as usize].dims as usize;
        let mut class = vec![vec![0usize; parts + cw]; skip.len()];
        for pass in 0..8 {
            let mut at = 0;
            while at < parts {
                if pass == 0 {
                    for (j, sk) in skip.iter().enumerate() {
                        if *sk {
                            continue;
                        }
                        let mut t = c.entry(r.classbook as usize)?;
                        for i in (0..cw).rev() {
                            class[j][at + i] = t % r.classes as usize;
                            t /= r.classes as usize;
                        }
                    }
                }
                let mut i = 0;
                while i < cw && at < parts {
                    for (j, sk) in skip.iter().enumerate() {
                        if *sk {
                            continue;
                        }
                        let v = class[j][at];
                        if (r.cascade[v] >> pass) & 1 == 0 {
                            continue;
                        }
                        let k = (0..pass).filter(|b| (r.cascade[v] >> b) & 1 == 1).count();
                        let b = r.books[v][k] as usize;
                        let bk = &self.s.books[b];
                        if bk.lookup == 0 || bk.dims == 0 || r.psize % bk.dims != 0 {
                            return Err(X::Invalid);
                        }
                        for _ in 0..r.psize / bk.dims {
                            c.entry(b)?;
                        }
                    }
                    at += 1;
                    i += 1;
                }
            }
        }
        Ok(())
    }
}
