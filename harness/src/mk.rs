//! Builders of Vorbis headers (written from the specification); values may be symbolic.
#![allow(dead_code)]
use super::bits::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Form {
    Dense,
    Sparse,
    Ordered,
}

#[derive(Clone)]
pub struct Book {
    pub dims: u64,
    pub lens: Vec<u8>,
    pub form: Form,
    pub lookup: u64,
    pub min: u64,
    pub delta: u64,
    pub vbits: u32,
    pub seq: u64,
    pub mult: Vec<u64>,
}

#[derive(Clone)]
pub struct Class {
    pub dim: u64,
    pub sub: u32,
    pub master: u64,
    /// book number plus one, 0 for none
    pub books: Vec<u64>,
}

#[derive(Clone)]
pub struct Floor {
    pub ty: u64,
    pub parts: Vec<u64>,
    pub classes: Vec<Class>,
    pub mult: u64,
    pub range: u32,
    pub xs: Vec<u64>,
}

#[derive(Clone)]
pub struct Residue {
    pub ty: u64,
    pub begin: u64,
    pub end: u64,
    pub psize: u64,
    pub classes: u64,
    pub classbook: u64,
    pub cascade: Vec<u64>,
    pub books: Vec<Vec<u64>>,
}

#[derive(Clone)]
pub struct Mapping {
    pub ty: u64,
    /// write the submap count even if it is one
    pub long_submaps: bool,
    pub coupling: Vec<(u64, u64)>,
    pub reserved: u64,
    pub mux: Vec<u64>,
    /// time, floor, residue
    pub subs: Vec<(u64, u64, u64)>,
}

#[derive(Clone)]
pub struct Mode {
    pub big: u64,
    pub window: u64,
    pub transform: u64,
    pub mapping: u64,
}

#[derive(Clone)]
pub struct Setup {
    pub books: Vec<Book>,
    pub times: Vec<u64>,
    pub floors: Vec<Floor>,
    pub residues: Vec<Residue>,
    pub mappings: Vec<Mapping>,
    pub modes: Vec<Mode>,
    pub framing: u64,
}

pub fn ilog(mut n: u64) -> u32 {
    let mut r = 0;
    while n > 0 {
        r += 1;
        n >>= 1;
    }
    r
}

pub fn scalar_book(lens: &[u8]) -> Book {
    let form = if lens.iter().any(|l| *l == 0) { Form::Sparse } else { Form::Dense };
    Book { dims: 1, lens: lens.to_vec(), form, lookup: 0, min: 0, delta: 0, vbits: 1, seq: 0, mult: vec![] }
}

pub fn put_book(o: &mut BW, b: &Book) {
    o.put(0x564342, 24);
    o.put(b.dims, 16);
    o.put(b.lens.len() as u64, 24);
    o.put((b.form == Form::Ordered) as u64, 1);
    match b.form {
        Form::Ordered => {
            // lengths must not decrease
            let n = b.lens.len();
            if n > 0 {
                o.put(b.lens[0] as u64 - 1, 5);
                let (mut i, mut l) = (0, b.lens[0]);
                while i < n {
                    let k = b.lens[i..].iter().take_while(|x| **x == l).count();
                    o.put(k as u64, ilog((n - i) as u64));
                    i += k;
                    l += 1;
                }
            } else {
                o.put(0, 5);
            }
        }
        Form::Dense => {
            o.put(0, 1);
            for l in &b.lens {
                o.put(*l as u64 - 1, 5);
            }
        }
        Form::Sparse => {
            o.put(1, 1);
            for l in &b.lens {
                o.put((*l != 0) as u64, 1);
                if *l != 0 {
                    o.put(*l as u64 - 1, 5);
                }
            }
        }
    }
    o.put(b.lookup, 4);
    if b.lookup != 0 {
        o.put(b.min, 32);
        o.put(b.delta, 32);
        o.put(b.vbits as u64 - 1, 4);
        o.put(b.seq, 1);
        for m in &b.mult {
            o.put(*m, b.vbits);
        }
    }
}

pub fn put_floor(o: &mut BW, f: &Floor) {
    o.put(f.ty, 16);
    o.put(f.parts.len() as u64, 5);
    for p in &f.parts {
        o.put(*p, 4);
    }
    for c in &f.classes {
        o.put(c.dim - 1, 3);
        o.put(c.sub as u64, 2);
        if c.sub != 0 {
            o.put(c.master, 8);
        }
        for b in &c.books {
            o.put(*b, 8);
        }
    }
    o.put(f.mult.wrapping_sub(1), 2);
    o.put(f.range as u64, 4);
    for x in &f.xs {
        o.put(*x, f.range);
    }
}

pub fn put_residue(o: &mut BW, r: &Residue) {
    o.put(r.ty, 16);
    o.put(r.begin, 24);
    o.put(r.end, 24);
    o.put(r.psize - 1, 24);
    o.put(r.classes - 1, 6);
    o.put(r.classbook, 8);
    for c in &r.cascade {
        o.put(*c & 7, 3);
        let high = *c >> 3;
        o.put((high != 0) as u64, 1);
        if high != 0 {
            o.put(high, 5);
        }
    }
    for b in &r.books {
        for x in b {
            o.put(*x, 8);
        }
    }
}

pub fn put_mapping(o: &mut BW, m: &Mapping, channels: u32) {
    o.put(m.ty, 16);
    let long = m.long_submaps || m.subs.len() > 1;
    o.put(long as u64, 1);
    if long {
        o.put(m.subs.len() as u64 - 1, 4);
    }
    o.put(!m.coupling.is_empty() as u64, 1);
    if !m.coupling.is_empty() {
        o.put(m.coupling.len() as u64 - 1, 8);
        let w = ilog(channels as u64 - 1);
        for (a, b) in &m.coupling {
            o.put(*a, w);
            o.put(*b, w);
        }
    }
    o.put(m.reserved, 2);
    if m.subs.len() > 1 {
        for x in &m.mux {
            o.put(*x, 4);
        }
    }
    for (t, f, r) in &m.subs {
        o.put(*t, 8);
        o.put(*f, 8);
        o.put(*r, 8);
    }
}

pub fn setup_bits(s: &Setup, channels: u32) -> BW {
    let mut o = BW::new();
    o.v.reserve(512);
    o.put(5, 8);
    o.bytes(b"vorbis");
    o.put(s.books.len() as u64 - 1, 8);
    for b in &s.books {
        put_book(&mut o, b);
    }
    o.put(s.times.len() as u64 - 1, 6);
    for t in &s.times {
        o.put(*t, 16);
    }
    o.put(s.floors.len() as u64 - 1, 6);
    for f in &s.floors {
        put_floor(&mut o, f);
    }
    o.put(s.residues.len() as u64 - 1, 6);
    for r in &s.residues {
        put_residue(&mut o, r);
    }
    o.put(s.mappings.len() as u64 - 1, 6);
    for m in &s.mappings {
        put_mapping(&mut o, m, channels);
    }
    o.put(s.modes.len() as u64 - 1, 6);
    for m in &s.modes {
        o.put(m.big, 1);
        o.put(m.window, 16);
        o.put(m.transform, 16);
        o.put(m.mapping, 8);
    }
    o.put(s.framing, 1);
    o
}

pub fn setup_packet(s: &Setup, channels: u32) -> Vec<u8> {
    setup_bits(s, channels).v
}

pub fn ident_packet(channels: u8, rate: u32, bs0: u32, bs1: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(30);
    v.push(1);
    v.extend_from_slice(b"vorbis");
    v.extend_from_slice(&[0; 4]);
    v.push(channels);
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&[0; 12]);
    v.push((bs0 | bs1 << 4) as u8);
    v.push(1);
    v
}

pub fn comment_packet(vendor: &[u8], comments: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    v.push(3);
    v.extend_from_slice(b"vorbis");
    v.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
    v.extend_from_slice(vendor);
    v.extend_from_slice(&(comments.len() as u32).to_le_bytes());
    for c in comments {
        v.extend_from_slice(&(c.len() as u32).to_le_bytes());
        v.extend_from_slice(c);
    }
    v.push(1);
    v
}

pub fn floor(parts: &[u64], classes: Vec<Class>, mult: u64, range: u32, xs: &[u64]) -> Floor {
    Floor { ty: 1, parts: parts.to_vec(), classes, mult, range, xs: xs.to_vec() }
}

pub fn mapping(coupling: &[(u64, u64)], mux: &[u64], subs: &[(u64, u64, u64)]) -> Mapping {
    Mapping { ty: 0, long_submaps: false, coupling: coupling.to_vec(), reserved: 0, mux: mux.to_vec(), subs: subs.to_vec() }
}

pub fn mode(big: u64, mapping: u64) -> Mode {
    Mode { big, window: 0, transform: 0, mapping }
}

/// the smallest setup there is: one scalar codebook, empty floor and residue
pub fn min_setup(channels: u32) -> Setup {
    Setup {
        books: vec![scalar_book(&[1, 1])],
        times: vec![0],
        floors: vec![floor(&[], vec![], 1, 1, &[])],
        residues: vec![Residue { ty: 0, begin: 0, end: 0, psize: 1, classes: 1, classbook: 0, cascade: vec![0], books: vec![vec![]] }],
        mappings: vec![mapping(&[], &vec![0; channels as usize], &[(0, 0, 0)])],
        modes: vec![mode(0, 0)],
        framing: 1,
    }
}
