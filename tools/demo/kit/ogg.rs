//! Ogg pages, whole files, and a comparison of streams before and after.
#![allow(dead_code, unused_imports)]
use super::bits::*;
use super::mk::*;
use super::spec::*;
pub use optivorbis::*;
pub use optivorbis::remuxer::ogg_to_ogg::*;
use std::io::Cursor;

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut r = (i as u32) << 24;
        let mut k = 0;
        while k < 8 {
            r = if r >> 31 == 1 { (r << 1) ^ 0x04c11db7 } else { r << 1 };
            k += 1;
        }
        t[i] = r;
        i += 1;
    }
    t
}
static CRC: [u32; 256] = crc_table();

pub fn crc(v: &[u8]) -> u32 {
    let mut c = 0u32;
    for (i, b) in v.iter().enumerate() {
        let b = if (22..26).contains(&i) { 0 } else { *b };
        c = (c << 8) ^ CRC[(b as u32 ^ (c >> 24)) as usize];
    }
    c
}

/// one Ogg page
#[derive(Clone)]
pub struct Page {
    pub flags: u8,
    pub gp: u64,
    pub serial: u32,
    pub seq: u32,
    pub lacing: Vec<u8>,
    pub body: Vec<u8>,
}
pub const CONT: u8 = 1;
pub const BOS: u8 = 2;
pub const EOS: u8 = 4;

impl Page {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(27 + self.lacing.len() + self.body.len());
        v.extend_from_slice(b"OggS\0");
        v.push(self.flags);
        v.extend_from_slice(&self.gp.to_le_bytes());
        v.extend_from_slice(&self.serial.to_le_bytes());
        v.extend_from_slice(&self.seq.to_le_bytes());
        v.extend_from_slice(&[0; 4]);
        v.push(self.lacing.len() as u8);
        v.extend_from_slice(&self.lacing);
        v.extend_from_slice(&self.body);
        let c = crc(&v);
        v[22..26].copy_from_slice(&c.to_le_bytes());
        v
    }
}

/// puts packets (and whether they end their page) into pages without granule positions;
/// also tells the page every packet ends in
pub fn paginate(serial: u32, packets: &[(Vec<u8>, bool)], eos: bool) -> (Vec<Page>, Vec<usize>) {
    let fresh = |n: usize, flags| Page { flags, gp: u64::MAX, serial, seq: n as u32, lacing: vec![], body: vec![] };
    let mut pages = vec![fresh(0, BOS)];
    let mut ends = vec![];
    for (i, (p, end)) in packets.iter().enumerate() {
        let mut at = 0;
        loop {
            if pages.last().unwrap().lacing.len() == 255 {
                let n = pages.len();
                pages.push(fresh(n, if at > 0 { CONT } else { 0 }));
            }
            let n = (p.len() - at).min(255);
            let g = pages.last_mut().unwrap();
            g.lacing.push(n as u8);
            g.body.extend_from_slice(&p[at..at + n]);
            at += n;
            if n < 255 {
                break;
            }
        }
        ends.push(pages.len() - 1);
        if *end && i + 1 < packets.len() {
            let n = pages.len();
            pages.push(fresh(n, 0));
        }
    }
    if eos {
        pages.last_mut().unwrap().flags |= EOS;
    }
    (pages, ends)
}

pub fn join(pages: &[Page]) -> Vec<u8> {
    let mut v = vec![];
    for p in pages {
        v.extend_from_slice(&p.bytes());
    }
    v
}

/// a page of the output, with the packets that end in it
pub struct OutPage {
    pub flags: u8,
    pub gp: u64,
    pub serial: u32,
    pub seq: u32,
    pub crc_ok: bool,
    pub ends: Vec<Vec<u8>>,
    /// the page ends inside a packet
    pub open: bool,
    pub segments: usize,
}

/// splits a file into pages; None if it is not a sequence of pages
pub fn read_pages(v: &[u8]) -> Option<Vec<OutPage>> {
    let le = |p: &[u8], n: usize| {
        let mut x = 0u64;
        for i in (0..n).rev() {
            x = x << 8 | p[i] as u64;
        }
        x
    };
    let mut out: Vec<OutPage> = vec![];
    let mut at = 0;
    // packets that go on in the next page of their stream
    let mut open: Vec<(u32, Vec<u8>)> = vec![];
    while at < v.len() {
        let p = &v[at..];
        if p.len() < 27 || &p[..5] != b"OggS\0" {
            return None;
        }
        let n = p[26] as usize;
        if p.len() < 27 + n {
            return None;
        }
        let lacing = &p[27..27 + n];
        let size: usize = lacing.iter().map(|x| *x as usize).sum();
        if p.len() < 27 + n + size {
            return None;
        }
        let serial = le(&p[14..], 4) as u32;
        let flags = p[5];
        let crc_ok = crc(&p[..27 + n + size]) == le(&p[22..], 4) as u32;
        let mut cur = vec![];
        let mut going = false;
        if let Some(i) = open.iter().position(|(s, _)| *s == serial) {
            cur = open.swap_remove(i).1;
            going = true;
        }
        if (flags & CONT != 0) != going {
            return None;
        }
        let mut ends = vec![];
        let mut b = 27 + n;
        for l in lacing {
            cur.extend_from_slice(&p[b..b + *l as usize]);
            b += *l as usize;
            going = *l == 255;
            if !going {
                ends.push(std::mem::take(&mut cur));
            }
        }
        if going {
            open.push((serial, cur));
        }
        out.push(OutPage { flags, gp: le(&p[6..], 8), serial, seq: le(&p[18..], 4) as u32, crc_ok, ends, open: going, segments: n });
        at += 27 + n + size;
    }
    if open.is_empty() { Some(out) } else { None }
}


pub fn settings<M: OggVorbisStreamMangler>(m: M) -> Settings<M> {
    Settings {
        randomize_stream_serials: false,
        first_stream_serial_offset: 0,
        ignore_start_sample_offset: true,
        error_on_no_vorbis_streams: true,
        verify_ogg_page_checksums: true,
        vorbis_stream_mangler: m,
    }
}

pub const SIZES: [u64; 2] = [64, 256];

/// a setup with two modes: small blocks, big blocks
pub fn two_modes() -> Setup {
    let mut s = min_setup(1);
    s.modes = vec![mode(0, 0), mode(1, 0)];
    s
}


pub fn remux<M: OggVorbisStreamMangler>(s: Settings<M>, data: &[u8]) -> Result<Vec<u8>, RemuxError> {
    OggToOgg::new(s, VorbisOptimizerSettings::default()).remux(Cursor::new(data), vec![])
}

/// all the packets of a file with their page's serial, in order
pub fn packets_of(file: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let mut v = vec![];
    for p in read_pages(file).expect("pages") {
        for q in p.ends {
            v.push((p.serial, q));
        }
    }
    v
}

/// a short (or long) audio packet of a `two_modes` stream
pub fn audio(big: u64, id: u64) -> Vec<u8> {
    let mut o = BW::new();
    o.put(0, 1);
    o.put(big, 1);
    if big == 1 {
        o.put(3, 2);
    }
    o.put(1, 1);
    o.put(id, 16);
    o.v
}

/// headers of a stream with a short and a long mode, each on its page
pub fn heads() -> Vec<(Vec<u8>, bool)> {
    vec![(ident_packet(1, 44100, 6, 8), true), (comment_packet(b"vendor", &[b"a=b"]), false), (setup_packet(&two_modes(), 1), true)]
}

/// headers and audio packets as pages; `gps` for every page (headers: two pages)
pub fn file(serial: u32, audio: &[(Vec<u8>, bool)], gps: &[u64], eos: bool) -> Vec<u8> {
    let mut v = heads();
    v.extend_from_slice(audio);
    let (mut pages, _) = paginate(serial, &v, eos);
    for (p, g) in pages.iter_mut().zip(gps) {
        p.gp = *g;
    }
    join(&pages)
}

/// a setup header through the optimizer
pub fn setup_through(s: &Setup, channels: u8, bs: (u32, u32)) -> Result<Vec<u8>, VorbisOptimizerError> {
    let st = VorbisOptimizerSettings::default();
    let heads = [ident_packet(channels, 44100, bs.0, bs.1), comment_packet(b"x", &[]), setup_packet(s, channels as u32)];
    let mut o = VorbisOptimizer::new(&st, &heads[0][..])?;
    o.analyze_packet(&heads[1][..])?;
    o.analyze_packet(&heads[2][..])?;
    let mut last = vec![];
    for h in &heads {
        last = o.optimize_packet(&h[..])?.unwrap().0.into_owned();
    }
    Ok(last)
}

/// the written setup header and audio packets of a stream (None: dropped)
pub fn optimised(s: &Setup, channels: u8, bs: (u32, u32), packets: &[Vec<u8>]) -> Result<(Vec<u8>, Vec<Option<Vec<u8>>>), VorbisOptimizerError> {
    let st = VorbisOptimizerSettings::default();
    let heads = [ident_packet(channels, 44100, bs.0, bs.1), comment_packet(b"x", &[]), setup_packet(s, channels as u32)];
    let mut o = VorbisOptimizer::new(&st, &heads[0][..])?;
    for p in heads[1..].iter().chain(packets) {
        o.analyze_packet(&p[..])?;
    }
    let mut setup = vec![];
    for h in &heads {
        setup = o.optimize_packet(&h[..])?.unwrap().0.into_owned();
    }
    let mut out = vec![];
    for p in packets {
        out.push(o.optimize_packet(&p[..])?.map(|x| x.0.into_owned()));
    }
    Ok((setup, out))
}

pub fn huffman_cost(freqs: &[u64]) -> u64 {
    let mut w: Vec<u64> = freqs.iter().copied().filter(|f| *f > 0).collect();
    if w.len() == 1 {
        return w[0];
    }
    let mut cost = 0;
    while w.len() > 1 {
        w.sort_by(|a, b| b.cmp(a));
        let two = w.pop().unwrap() + w.pop().unwrap();
        cost += two;
        w.push(two);
    }
    cost
}

/// every packet decodes as before, and no codebook spends more than needed
pub fn same_audio(s: &Setup, channels: u8, bs: (u32, u32), packets: &[Vec<u8>]) {
    let (setup, out) = optimised(s, channels, bs, packets).expect("the stream is optimised");
    let (v, c) = { let (v, c, _) = parse_setup(&setup, channels as u32); (v, c) };
    assert!(v == Verdict::Legal, "the written setup header is legal");
    let c = c.unwrap();
    let sizes = [1usize << bs.0, 1 << bs.1];
    let (d1, d2) = (Dec::new(s.clone(), channels as usize, sizes), Dec::new(c.clone(), channels as usize, sizes));
    let mut used: Vec<Vec<u64>> = s.books.iter().map(|b| vec![0; b.lens.len()]).collect();
    for (p, q) in packets.iter().zip(&out) {
        let a = d1.decode(p);
        let q = match q {
            Some(q) => q,
            None => {
                assert!(a.end == End::NoMode, "a packet with audio was dropped");
                continue;
            }
        };
        let b = d2.decode(q);
        assert!(a.end == b.end, "packet ends differently");
        assert_eq!(a.evs.len(), b.evs.len(), "other number of values");
        for (x, y) in a.evs.iter().zip(&b.evs) {
            match (x, y) {
                (Ev::Raw(x, w), Ev::Raw(y, z)) => assert!(x == y && w == z, "other value"),
                (Ev::Entry(k, x), Ev::Entry(l, y)) => {
                    assert!(k == l && x == y, "other codebook entry");
                    used[*k][*x] += 1;
                }
                _ => panic!("other kind of value"),
            }
        }
        assert!(q.len() == (b.bits + 7) / 8, "trailing data");
    }
    for (b, u) in c.books.iter().zip(&used) {
        let cost: u64 = b.lens.iter().zip(u).map(|(l, n)| *l as u64 * n).sum();
        assert_eq!(cost, huffman_cost(u), "codeword lengths are not optimal");
    }
}
