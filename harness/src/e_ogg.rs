//! O01 to O08: whole files through the Ogg remuxer.
use super::bits::*;
use super::mk::*;
use super::os::{random, world};
use super::spec::*;
use super::sym::*;
use ogg::PacketWriteEndInfo;
use optivorbis::*;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::num::NonZeroU32;
use std::rc::Rc;

use optivorbis::remuxer::ogg_to_ogg::*;

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut r = (i as u32) << 24;
        let mut k = 0;
        while k < 8 {
            r = if r >> 31 == 1 { (r << 1) ^ 0x04c11db7 } else { r << 1 };
            k += 1;
        }
        t[i] = r;
        i += 1;
    }
    t
}
static CRC: [u32; 256] = crc_table();

pub fn crc(v: &[u8]) -> u32 {
    let mut c = 0u32;
    for (i, b) in v.iter().enumerate() {
        let b = if (22..26).contains(&i) { 0 } else { *b };
        c = (c << 8) ^ CRC[(b as u32 ^ (c >> 24)) as usize];
    }
    c
}

/// one Ogg page
#[derive(Clone)]
pub struct Page {
    pub flags: u8,
    pub gp: u64,
    pub serial: u32,
    pub seq: u32,
    pub lacing: Vec<u8>,
    pub body: Vec<u8>,
}
pub const CONT: u8 = 1;
pub const BOS: u8 = 2;
pub const EOS: u8 = 4;

impl Page {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(27 + self.lacing.len() + self.body.len());
        v.extend_from_slice(b"OggS\0");
        v.push(self.flags);
        v.extend_from_slice(&self.gp.to_le_bytes());
        v.extend_from_slice(&self.serial.to_le_bytes());
        v.extend_from_slice(&self.seq.to_le_bytes());
        v.extend_from_slice(&[0; 4]);
        v.push(self.lacing.len() as u8);
        v.extend_from_slice(&self.lacing);
        v.extend_from_slice(&self.body);
        let c = crc(&v);
        v[22..26].copy_from_slice(&c.to_le_bytes());
        v
    }
}

/// puts packets (and whether they end their page) into pages without granule positions;
/// also tells the page every packet ends in
pub fn paginate(serial: u32, packets: &[(Vec<u8>, bool)], eos: bool) -> (Vec<Page>, Vec<usize>) {
    let fresh = |n: usize, flags| Page { flags, gp: u64::MAX, serial, seq: n as u32, lacing: vec![], body: vec![] };
    let mut pages = vec![fresh(0, BOS)];
    let mut ends = vec![];
    for (i, (p, end)) in packets.iter().enumerate() {
        let mut at = 0;
        loop {
            if pages.last().unwrap().lacing.len() == 255 {
                let n = pages.len();
                pages.push(fresh(n, if at > 0 { CONT } else { 0 }));
            }
            let n = (p.len() - at).min(255);
            let g = pages.last_mut().unwrap();
            g.lacing.push(n as u8);
            g.body.extend_from_slice(&p[at..at + n]);
            at += n;
            if n < 255 {
                break;
            }
        }
        ends.push(pages.len() - 1);
        if *end && i + 1 < packets.len() {
            let n = pages.len();
            pages.push(fresh(n, 0));
        }
    }
    if eos {
        pages.last_mut().unwrap().flags |= EOS;
    }
    (pages, ends)
}

pub fn join(pages: &[Page]) -> Vec<u8> {
    let mut v = vec![];
    for p in pages {
        v.extend_from_slice(&p.bytes());
    }
    v
}

/// a page of the output, with the packets that end in it
pub struct OutPage {
    pub flags: u8,
    pub gp: u64,
    pub serial: u32,
    pub seq: u32,
    pub crc_ok: bool,
    pub ends: Vec<Vec<u8>>,
    /// the page ends inside a packet
    pub open: bool,
    pub segments: usize,
}

/// splits a file into pages; None if it is not a sequence of pages
pub fn read_pages(v: &[u8]) -> Option<Vec<OutPage>> {
    let le = |p: &[u8], n: usize| {
        let mut x = 0u64;
        for i in (0..n).rev() {
            x = x << 8 | p[i] as u64;
        }
        x
    };
    let mut out: Vec<OutPage> = vec![];
    let mut at = 0;
    // packets that go on in the next page of their stream
    let mut open: Vec<(u32, Vec<u8>)> = vec![];
    while at < v.len() {
        let p = &v[at..];
        if p.len() < 27 || &p[..5] != b"OggS\0" {
            return None;
        }
        let n = p[26] as usize;
        if p.len() < 27 + n {
            return None;
        }
        let lacing = &p[27..27 + n];
        let size: usize = lacing.iter().map(|x| *x as usize).sum();
        if p.len() < 27 + n + size {
            return None;
        }
        let serial = le(&p[14..], 4) as u32;
        let flags = p[5];
        let crc_ok = crc(&p[..27 + n + size]) == le(&p[22..], 4) as u32;
        let mut cur = vec![];
        let mut going = false;
        if let Some(i) = open.iter().position(|(s, _)| *s == serial) {
            cur = open.swap_remove(i).1;
            going = true;
        }
        if (flags & CONT != 0) != going {
            return None;
        }
        let mut ends = vec![];
        let mut b = 27 + n;
        for l in lacing {
            cur.extend_from_slice(&p[b..b + *l as usize]);
            b += *l as usize;
            going = *l == 255;
            if !going {
                ends.push(std::mem::take(&mut cur));
            }
        }
        if going {
            open.push((serial, cur));
        }
        out.push(OutPage { flags, gp: le(&p[6..], 8), serial, seq: le(&p[18..], 4) as u32, crc_ok, ends, open: going, segments: n });
        at += 27 + n + size;
    }
    if open.is_empty() { Some(out) } else { None }
}

/// what the mangler saw
#[derive(Default)]
pub struct Seen {
    pub rates: Vec<u32>,
    pub bitrates: Vec<(i32, i32, i32)>,
    pub serials: Vec<(u32, usize, bool)>,
    pub ends: Vec<(PacketWriteEndInfo, usize, bool)>,
    pub granules: Vec<(i64, usize, bool, bool)>,
}
/// passes everything on, but remembers it
pub struct Spy(pub Rc<RefCell<Seen>>);
impl OggVorbisStreamMangler for Spy {
    fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
        self.0.borrow_mut().rates.push(f.get());
        f
    }
    fn mangle_bitrates(&mut self, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
        self.0.borrow_mut().bitrates.push((a, b, c));
        (a, b, c)
    }
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
        self.0.borrow_mut().serials.push((s, n, last));
        s
    }
    fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, n: usize, last: bool) -> PacketWriteEndInfo {
        self.0.borrow_mut().ends.push((e, n, last));
        e
    }
    fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        self.0.borrow_mut().granules.push((g, n, header, last));
        g
    }
}

pub fn settings<M: OggVorbisStreamMangler>(m: M) -> Settings<M> {
    Settings {
        randomize_stream_serials: false,
        first_stream_serial_offset: 7,
        ignore_start_sample_offset: true,
        error_on_no_vorbis_streams: true,
        verify_ogg_page_checksums: false,
        vorbis_stream_mangler: m,
    }
}

pub const SIZES: [u64; 2] = [64, 256];

/// a setup with two modes: small blocks, big blocks
pub fn two_modes() -> Setup {
    let mut s = min_setup(1);
    s.modes = vec![mode(0, 0), mode(1, 0)];
    s
}

/// the three headers of a stream, and how they are expected to be written
pub struct Headers {
    pub src: Vec<Vec<u8>>,
    pub out: Vec<Vec<u8>>,
}
pub fn headers(rate: u32) -> Headers {
    let id = ident_packet(1, rate, 6, 8);
    let comment = comment_packet(b"vendor", &[b"a=b"]);
    let setup = setup_packet(&two_modes(), 1);
    let st = VorbisOptimizerSettings::default();
    let mut out = vec![];
    if let Ok(mut o) = VorbisOptimizer::new(&st, &id[..]) {
        let src = [&id, &comment, &setup];
        for p in &src[1..] {
            let _ = o.analyze_packet(&p[..]);
        }
        for p in src {
            if let Ok(Some((q, _))) = o.optimize_packet(&p[..]) {
                out.push(q.into_owned());
            }
        }
    }
    Headers { src: vec![id, comment, setup], out }
}

/// an audio packet with one byte of arbitrary content; it is written as it is
pub fn audio(big: usize, id: u64) -> Vec<u8> {
    audio_with(big, bits(8, "content"), id)
}
/// the same with fixed content (checksums of arbitrary bytes are hard for the solver)
pub fn fixed(big: usize, id: u64) -> Vec<u8> {
    audio_with(big, id * 29 & 255, id)
}
fn audio_with(big: usize, content: u64, id: u64) -> Vec<u8> {
    let mut o = BW::new();
    o.put(0, 1);
    o.put(big as u64, 1);
    if big == 1 {
        o.put(3, 2);
    }
    o.put(1, 1);
    o.put(content, 8);
    o.put(id, 8);
    o.v
}

/// the granule positions of a stream of kept packets of the given block sizes;
/// `page_gp` are those of the source pages the packets end in, `first` is the last packet of the
/// first audio page
pub fn granules(sizes: &[u64], page_gp: &[i64], first: Option<usize>, ignore: bool) -> Vec<i64> {
    let m = sizes.len();
    let mut full = vec![0i64; m];
    for i in 1..m {
        full[i] = full[i - 1] + (sizes[i - 1] + sizes[i]) as i64 / 4;
    }
    let mut g = full.clone();
    let mut offset = 0;
    if let Some(f) = first {
        // the last of several packets tells where the stream ends, not where it starts
        if f + 1 < m || m == 1 {
            offset = page_gp[f].wrapping_sub(full[f]);
            if !ignore {
                for x in &mut g[f..] {
                    *x = x.wrapping_add(offset);
                }
            }
        }
    }
    if m > 1 {
        let end = if ignore { page_gp[m - 1].wrapping_sub(offset) } else { page_gp[m - 1] };
        if end > g[m - 2] && end < g[m - 1] {
            g[m - 1] = end;
        }
    }
    g
}

/// granule positions
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_granule() {
    let (n, kinds) = (param(0), param(1));
    let h = headers(44100);
    let ignore = flip("ignore start");
    let mut packets: Vec<(Vec<u8>, bool)> = h.src.iter().enumerate().map(|(i, p)| (p.clone(), i != 1)).collect();
    let mut kept = vec![];
    for i in 0..n {
        // small, big, or dropped
        let k = choice(kinds, "kind");
        packets.push((if k == 2 { vec![] } else { audio(k, i as u64) }, flip("page end")));
        if k < 2 {
            kept.push((3 + i, SIZES[k]));
        }
    }
    let (mut pages, ends) = paginate(5, &packets, true);
    let gps: Vec<i64> = pages
        .iter_mut()
        .enumerate()
        .map(|(i, p)| {
            p.gp = if i < 2 { 0 } else { bits(64, "granule position") };
            p.gp as i64
        })
        .collect();
    let seen = Rc::new(RefCell::new(Seen::default()));
    let mut st = settings(Spy(seen.clone()));
    st.ignore_start_sample_offset = ignore;
    let mut out = vec![];
    let r = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&join(&pages)[..]), &mut out);
    if r.is_err() {
        return check(false, "the file is accepted");
    }
    let sizes: Vec<u64> = kept.iter().map(|k| k.1).collect();
    let page_gp: Vec<i64> = kept.iter().map(|k| gps[ends[k.0]]).collect();
    // the last packet of the first audio page
    let mut first = None;
    for (i, k) in kept.iter().enumerate() {
        let last = k.0 + 1 == packets.len() || ends[k.0] != ends[k.0 + 1];
        if last && first.is_none() {
            first = Some(i);
        }
    }
    let sane = gps.iter().all(|g| *g < 1 << 60 && *g > -(1 << 60));
    let want = granules(&sizes, &page_gp, first, ignore);
    let seen = seen.borrow();
    check(seen.granules.len() == 3 + kept.len(), "every packet gets a granule position");
    let Some(parts) = read_pages(&out) else { return check(false, "the output consists of pages") };
    let (mut at, mut ended) = (0, false);
    for p in &parts {
        let k = p.ends.len();
        if k > 0 {
            at += k;
            let g = p.gp as i64;
            observe(p.gp);
            if p.flags & EOS == 0 && at > 3 && !ignore && first == Some(at - 4) {
                ended = true;
            }
            if at <= 3 {
                check(g == 0, "header pages have granule position zero");
            } else {
                check(!sane || g == want[at - 4], "granule position of a page");
            }
        }
    }
    // an offset is told by the position of a page that is not the last one
    let offset = match first {
        Some(f) if f + 1 < sizes.len() && !ignore => want[f] != granules(&sizes, &page_gp, first, true)[f],
        _ => false,
    };
    check(!sane || ended == offset, "the first audio page ends where it did if it tells an offset");
    for (i, g) in seen.granules.iter().enumerate() {
        if i < 3 {
            check(g.0 == 0, "headers have granule position zero");
        } else {
            check(!sane || g.0 == want[i - 3], "granule position of a packet");
        }
    }
    cover("granules");
    if kept.len() > 2 && first == Some(1) {
        cover("start offset before the end");
    }
}

/// what the optimizer makes of the packets of a stream (None: it refuses one)
pub fn optimized(src: &[Vec<u8>]) -> Option<Vec<Vec<u8>>> {
    let st = VorbisOptimizerSettings::default();
    let mut o = VorbisOptimizer::new(&st, &src[0][..]).ok()?;
    for p in &src[1..] {
        o.analyze_packet(&p[..]).ok()?;
    }
    let mut out = Vec::with_capacity(src.len());
    for p in src {
        if let Some((q, _)) = o.optimize_packet(&p[..]).ok()? {
            out.push(q.into_owned());
        }
    }
    Some(out)
}

pub fn remux<M: OggVorbisStreamMangler>(st: Settings<M>, file: &[u8]) -> Option<Vec<u8>> {
    OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(file), Vec::with_capacity(file.len())).ok()
}

/// one logical stream of the output: structure and packets
pub fn check_stream(parts: &[&OutPage], want: &[Vec<u8>]) {
    let mut at = 0;
    let n = parts.len();
    for (i, p) in parts.iter().enumerate() {
        check(p.crc_ok, "page checksum");
        check(p.seq == i as u32, "page sequence number");
        check((p.flags & BOS != 0) == (i == 0), "beginning of stream mark");
        check((p.flags & EOS != 0) == (i + 1 == n), "end of stream mark");
        let before = at;
        for q in &p.ends {
            if at >= want.len() {
                return check(false, "no packet is added");
            }
            check(same(q, &want[at]), "packets are written as optimised, in order");
            at += 1;
        }
        if i == 0 {
            check(at == 1 && !p.open, "the identification header has the first page for itself");
        } else if before < 3 && at >= 3 {
            check(at == 3 && !p.open, "the setup header ends its page");
        } else if i + 1 < n {
            check(p.segments == 255, "pages are filled");
        }
    }
    check(at == want.len(), "no packet is lost");
}

/// a file whose streams have these serials and packets, one after another
pub fn check_file(out: &[u8], want: &[(u32, Vec<Vec<u8>>)]) {
    let Some(pages) = read_pages(out) else { return check(false, "the output consists of pages") };
    let mut at = 0;
    for (serial, packets) in want {
        let n = pages[at..].iter().take_while(|p| p.serial == *serial).count();
        if n == 0 {
            return check(false, "every stream is written with its serial");
        }
        let part: Vec<&OutPage> = pages[at..at + n].iter().collect();
        check_stream(&part, packets);
        at += n;
    }
    check(at == pages.len(), "nothing else is written");
}

/// an audio packet of `n` bytes with one byte of arbitrary content
pub fn long_audio(n: usize, id: u64) -> Vec<u8> {
    let mut v = audio(0, id);
    while v.len() < n {
        v.push(v.len() as u8);
    }
    v
}

/// layouts of source pages: together, page end, page break inside, page break inside and page end
fn lay_out(serial: u32, packets: &[(Vec<u8>, usize)], eos: usize) -> Vec<Page> {
    let fresh = |n: usize, flags| Page { flags, gp: u64::MAX, serial, seq: n as u32, lacing: vec![], body: vec![] };
    let mut pages = vec![fresh(0, BOS)];
    for (i, (p, how)) in packets.iter().enumerate() {
        let mut at = 0;
        loop {
            let n = pages.len();
            if pages[n - 1].lacing.len() == 255 || (how & 2 != 0 && at == 255) {
                pages.push(fresh(n, if at > 0 { CONT } else { 0 }));
            }
            let k = (p.len() - at).min(255);
            let g = pages.last_mut().unwrap();
            g.lacing.push(k as u8);
            g.body.extend_from_slice(&p[at..at + k]);
            at += k;
            if k < 255 {
                g.gp = 0;
                break;
            }
        }
        if how & 1 != 0 && i + 1 < packets.len() {
            let n = pages.len();
            pages.push(fresh(n, 0));
        }
    }
    match eos {
        0 => {}
        1 => pages.last_mut().unwrap().flags |= EOS,
        // an empty page carries the mark
        _ => {
            let n = pages.len();
            pages.push(fresh(n, EOS));
        }
    }
    pages
}

const LENGTHS: [usize; 9] = [4, 0, 510, 300, 254, 255, 256, 600, 1];

/// page layouts, packet sizes, dropped packets, end of stream marks
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_pages() {
    let (n, kinds) = (param(0), param(1));
    let h = headers(44100);
    let mut src = h.src.clone();
    let mut packets: Vec<(Vec<u8>, usize)> = vec![];
    for i in 0..n {
        // lengths 0 and 1: a dropped packet, a packet with nothing after the mode
        let l = pick(&LENGTHS[..kinds], "length");
        let p = match l {
            0 => vec![],
            1 => vec![2],
            _ => long_audio(l, i as u64),
        };
        src.push(p);
    }
    let tight = choice(3, "header layout");
    for (i, p) in src.iter().enumerate() {
        let how = match i {
            0 => 1,
            1 => (tight == 1) as usize,
            2 => (tight != 2) as usize,
            _ => choice(if p.len() > 255 { 4 } else { 2 }, "layout"),
        };
        packets.push((p.clone(), how));
    }
    let eos = choice(3, "end of stream mark");
    let file = join(&lay_out(5, &packets, eos));
    let want = match optimized(&src) {
        Some(w) => w,
        None => return check(false, "the packets are accepted"),
    };
    match remux(settings(OggVorbisStreamPassthroughMangler), &file) {
        Some(out) => {
            observe_bytes(&out);
            check_file(&out, &[(7, want)]);
            cover("remuxed");
            if src.last().unwrap().is_empty() && n > 0 {
                cover("last packet dropped");
            }
        }
        None => check(false, "the file is accepted"),
    }
}

/// streams of many packets, so that output pages fill up
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_many() {
    let n = pick(&[0, 1, 253, 254, 255, 256, 257, 509, 510, 511, 514][..param(0)], "packets");
    let drop = choice(3, "dropped at the end");
    let per = pick(&[1, 7, 100, 255, 1000], "packets in a page");
    let h = headers(44100);
    let mut src = h.src.clone();
    let mut packets: Vec<(Vec<u8>, usize)> = vec![];
    for i in 0..n + drop {
        src.push(if i >= n { vec![] } else { vec![i as u8 & 0xf8, 17 + (i % 200) as u8] });
    }
    for (i, p) in src.iter().enumerate() {
        packets.push((p.clone(), (i == 0 || i == 2 || (i > 2 && i % per == 0)) as usize));
    }
    let file = join(&lay_out(5, &packets, choice(3, "end of stream mark")));
    let want = match optimized(&src) {
        Some(w) => w,
        None => return check(false, "the packets are accepted"),
    };
    check(want.len() == 3 + n, "empty packets are dropped, others kept");
    match remux(settings(OggVorbisStreamPassthroughMangler), &file) {
        Some(out) => {
            observe_bytes(&out[..58]);
            check_file(&out, &[(7, want)]);
            cover("many");
        }
        None => check(false, "the file is accepted"),
    }
}

/// granule positions of streams whose output pages differ from the source pages
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_granule_many() {
    let (n, per) = (param(0), pick(&[1, 100, 253, 300], "packets in a page"));
    let h = headers(44100);
    let ignore = flip("ignore start");
    let mut packets: Vec<(Vec<u8>, bool)> = h.src.iter().enumerate().map(|(i, p)| (p.clone(), i != 1)).collect();
    let mut sizes = vec![];
    for i in 0..n {
        let big = (i % 5 == 2) as usize;
        sizes.push(SIZES[big]);
        packets.push((vec![if big == 1 { 0x0e } else { 0 }, 9, i as u8], (i + 1) % per == 0));
    }
    let (mut pages, ends) = paginate(5, &packets, true);
    let last = pages.len() - 1;
    for (i, p) in pages.iter_mut().enumerate() {
        p.gp = if i < 2 { 0 } else if i == 2 || i == last { bits(64, "granule position") } else { 77 };
    }
    let page_gp: Vec<i64> = ends[3..].iter().map(|e| pages[*e].gp as i64).collect();
    let first = (0..n).find(|i| 3 + i + 1 == packets.len() || ends[3 + i] != ends[3 + i + 1]);
    let sane = page_gp.iter().all(|g| *g < 1 << 60 && *g > -(1 << 60));
    let want = granules(&sizes, &page_gp, first, ignore);
    let mut st = settings(OggVorbisStreamPassthroughMangler);
    st.ignore_start_sample_offset = ignore;
    let Some(out) = remux(st, &join(&pages)) else { return check(false, "the file is accepted") };
    let Some(parts) = read_pages(&out) else { return check(false, "the output consists of pages") };
    let mut at = 0;
    for p in &parts {
        if !p.ends.is_empty() {
            at += p.ends.len();
            observe(p.gp);
            check(!sane || p.gp as i64 == if at <= 3 { 0 } else { want[at - 4] }, "granule position of a page");
        } else {
            check(p.gp == u64::MAX, "pages without the end of a packet have no granule position");
        }
    }
    check(at == packets.len(), "all packets are there");
    cover("many");
}

/// records the serials and hands out others
struct Serials(Rc<RefCell<Vec<(u32, usize)>>>, u32);
impl OggVorbisStreamMangler for Serials {
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, _last: bool) -> u32 {
        if n == 0 {
            self.1 += 1;
        }
        self.0.borrow_mut().push((s, n));
        self.1
    }
}

/// `m` chained streams, each with its number of audio packets
fn chain(m: usize, serials: &[u32]) -> (Vec<u8>, Vec<Vec<Vec<u8>>>) {
    let (mut file, mut want) = (vec![], vec![]);
    for i in 0..m {
        let mut src = headers(44100 + i as u32).src;
        for k in 0..1 + i {
            src.push(fixed(0, (10 * i + k) as u64));
        }
        let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k == 0 || k == 2) as usize)).collect();
        file.extend_from_slice(&join(&lay_out(serials[i], &p, 1)));
        want.push(optimized(&src).unwrap_or_default());
    }
    (file, want)
}

/// randomised serials
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_random() {
    let m = param(0);
    let (file, _) = chain(m, &[9, 3, 0xffff_ffff, 1]);
    let seen = Rc::new(RefCell::new(vec![]));
    let mut st = settings(Serials(seen.clone(), 100));
    st.randomize_stream_serials = true;
    st.first_stream_serial_offset = bits(32, "offset") as u32;
    let offset = st.first_stream_serial_offset;
    let Some(out) = remux(st, &file) else { return check(false, "the file is accepted") };
    observe(out.len() as u64);
    let seen = seen.borrow();
    let mut r = 0u32;
    for i in 0..4 {
        if random(i) > 255 {
            return check(false, "four random bytes are drawn at least");
        }
        r |= (random(i) as u32) << (8 * i);
    }
    // packet 0 of every stream, and that the others agree with it
    let mut first = vec![];
    for (s, n) in seen.iter() {
        if *n == 0 {
            first.push(*s);
        }
        check(*s == first[first.len() - 1], "all packets of a stream have its serial");
        observe(*s as u64);
    }
    check(first.len() == m, "every stream gets a serial");
    check(first[0] == r.wrapping_add(offset), "the first serial is the random number plus the offset");
    if m > 1 {
        let inc = first[1].wrapping_sub(first[0]);
        check(inc & 1 == 1, "the step is odd");
        for i in 1..m {
            check(first[i].wrapping_sub(first[i - 1]) == inc, "the step is constant");
            for k in 0..i {
                check(first[i] != first[k], "serials are distinct");
            }
        }
    }
    cover("random");
}

/// serials in order
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_serials() {
    let m = param(0);
    let serials: [u32; 3] = pick(&[[9, 3, 4], [0xffff_ffff, 0, 1], [1, 0, 0xffff_ffff], [7, 8, 9]], "source serials");
    let (file, want) = chain(m, &serials);
    let mut st = settings(OggVorbisStreamPassthroughMangler);
    st.first_stream_serial_offset = pick(&[0, 1, 7, 8, 0x8000_0000, 0xffff_fffe, 0xffff_ffff], "offset");
    let offset = st.first_stream_serial_offset;
    let Some(out) = remux(st, &file) else { return check(false, "the file is accepted") };
    observe_bytes(&out);
    let w: Vec<(u32, Vec<Vec<u8>>)> = want.into_iter().enumerate().map(|(i, p)| (offset.wrapping_add(i as u32), p)).collect();
    check_file(&out, &w);
    cover("in order");
}

/// two or three logical streams in one file, in any order of their pages
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_mux() {
    let (m, full) = (param(0), param(1));
    // pages of every stream
    let mut streams: Vec<Vec<Page>> = vec![];
    let mut want = vec![];
    for i in 0..m {
        let serial = [9, 3, 77][i];
        let kind = choice(if i == 0 { 3 } else { 4 }, "stream");
        // missing, on the last page, or (Vorbis) too early
        let eos = choice(if kind == 0 || kind == 3 { 3 } else { 2 }, "end of stream mark");
        if kind == 0 || kind == 3 {
            let mut src = headers(44100 + i as u32).src;
            for k in 0..1 + kind / 3 {
                src.push(audio(0, (20 * i + k) as u64));
            }
            if kind == 3 && full == 0 {
                src.truncate(4);
            }
            let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k != 1) as usize)).collect();
            let mut pages = lay_out(serial, &p, eos & 1);
            if eos == 2 {
                pages[1].flags |= EOS;
            }
            streams.push(pages);
            want.push(Some(optimized(&src).unwrap_or_default()));
        } else {
            // not Vorbis: a first packet that is not an identification header
            let mut f = if kind == 1 { sym_vec(8, "foreign") } else { pick(&[&b"OpusHead\x01\x02\x38\x01\x80\xbb\0\0\0\0\0"[..], b"\x03vorbis_______________________________", b"\x01vorbi", b"", b"fLaC"], "foreign").to_vec() };
            if kind == 1 {
                assume(!same(&f[..7], b"\x01vorbis"));
                f.push(1);
            }
            let p = vec![(f, 1), (sym_vec(1, "foreign"), 1)];
            streams.push(lay_out(serial, &p, eos));
            want.push(None);
        }
    }
    // any order of pages
    let mut next = vec![0; m];
    let (mut file, mut started) = (vec![], vec![]);
    let mut reading: Option<usize> = None;
    let mut grouped = false;
    loop {
        let mut can: Vec<usize> = (0..m).filter(|i| next[*i] < streams[*i].len()).collect();
        // a stream may start only after the one before it did
        can.retain(|i| *i == 0 || next[*i - 1] > 0);
        if can.is_empty() {
            break;
        }
        let i = can[if can.len() == 1 { 0 } else { choice(can.len(), "next page") }];
        let p = &streams[i][next[i]];
        next[i] += 1;
        file.extend_from_slice(&p.bytes());
        if want[i].is_some() {
            if next[i] == 1 {
                grouped |= reading.is_some();
                reading = Some(i);
                started.push(i);
            } else {
                // the last packet read tells whether the stream may go on, another one may have started since
                grouped |= started.last() != Some(&i);
                reading = if p.flags & EOS != 0 { None } else { Some(i) };
            }
        }
    }
    let mut st = settings(OggVorbisStreamPassthroughMangler);
    st.error_on_no_vorbis_streams = flip("error without vorbis");
    let must = st.error_on_no_vorbis_streams;
    let r = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&file[..]), vec![]);
    if grouped {
        cover("grouped");
        return check(matches!(r, Err(RemuxError::UnsupportedStreamMultiplexing)), "grouped Vorbis streams are reported");
    }
    if started.is_empty() && must {
        cover("no vorbis");
        return check(matches!(r, Err(RemuxError::NoVorbisStreamFound)), "a file without Vorbis streams is reported");
    }
    match r {
        Ok(out) => {
            observe_bytes(&out);
            let w: Vec<(u32, Vec<Vec<u8>>)> = started.iter().enumerate().map(|(k, i)| (7 + k as u32, want[*i].clone().unwrap_or_default())).collect();
            check_file(&out, &w);
            cover("remuxed");
            if started.len() > 1 {
                cover("chained");
            }
        }
        Err(_) => check(false, "the file is accepted"),
    }
}

/// damaged files: checksums, identification headers
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_damage() {
    let mut src = headers(44100).src;
    src.push(fixed(0, 1));
    let want = optimized(&src).unwrap_or_default();
    let verify = flip("verify");
    let mut st = settings(OggVorbisStreamPassthroughMangler);
    st.verify_ogg_page_checksums = verify;
    let damage = choice(3, "damage");
    assume(damage == 0 || !verify);
    if damage == 1 {
        // an identification header that begins like one but is not valid
        let v = sym_vec(7, "identification");
        src[0][11..16].copy_from_slice(&v[..5]);
        src[0][28] = v[5];
        src[0][7] = v[6];
    }
    if damage == 2 {
        let n = choice(30, "length");
        src[0].truncate(n);
    }
    let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k == 0 || k == 2) as usize)).collect();
    let pages = lay_out(5, &p, 1);
    let mut file = vec![];
    let mut wrong = false;
    let bad = if damage == 0 { choice(pages.len(), "page") } else { 99 };
    for (i, p) in pages.iter().enumerate() {
        let mut b = p.bytes();
        if i == bad {
            for k in 22..26 {
                let d = bits(8, "difference") as u8;
                wrong |= d != 0;
                b[k] ^= d;
            }
        }
        file.extend_from_slice(&b);
    }
    let r = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&file[..]), vec![]);
    match damage {
        0 => match r {
            Ok(out) => {
                check(!(verify && wrong), "wrong checksums are refused");
                check_file(&out, &[(7, want)]);
                cover("accepted");
            }
            Err(e) => {
                check(verify && wrong, "checksums are only verified if asked for");
                check(matches!(e, RemuxError::OggError(_)), "wrong checksums are an error of the container");
                cover("wrong checksum");
            }
        },
        1 => {
            let i = &src[0];
            let b = (i[28] & 15, i[28] >> 4);
            let rate = i[12] | i[13] | i[14] | i[15];
            let good = i[7] == 0 && i[11] != 0 && rate != 0 && b.0 >= 6 && b.0 <= b.1 && b.1 <= 13;
            // one channel: what the rest of the stream was made for
            if good {
                assume(i[11] == 1);
                check(r.is_ok(), "valid identification headers are accepted");
            } else {
                check(matches!(r, Err(RemuxError::OptimizerError(_))), "corrupt identification headers are an error");
                cover("corrupt");
            }
        }
        _ => {
            if src[0].len() < 7 {
                check(matches!(r, Err(RemuxError::NoVorbisStreamFound)), "too short for Vorbis");
            } else {
                check(matches!(r, Err(RemuxError::OptimizerError(_))), "corrupt identification headers are an error");
            }
            cover("short");
        }
    }
}

/// data before the position the source is at
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_prefix() {
    let mut src = headers(44100).src;
    for k in 0..2 {
        src.push(audio(0, k));
    }
    let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k == 0 || k == 2) as usize)).collect();
    let file = join(&lay_out(5, &p, choice(2, "end of stream mark")));
    let cut = choice(3, "remainder");
    let rest = match cut {
        0 => &file[..],
        // no pages at all
        1 => &file[..20],
        _ => &file[..file.len() - 1],
    };
    let mut all = match choice(5, "before") {
        0 => sym_vec(1, "before"),
        1 => sym_vec(param(0), "before"),
        2 => b"OggS\0".to_vec(),
        3 => file.clone(),
        _ => file[..file.len() - 30].to_vec(),
    };
    let n = all.len() as u64;
    all.extend_from_slice(rest);
    let want = remux(settings(OggVorbisStreamPassthroughMangler), rest);
    let mut c = Cursor::new(&all[..]);
    c.set_position(n);
    let got = OggToOgg::new(settings(OggVorbisStreamPassthroughMangler), VorbisOptimizerSettings::default()).remux(c, vec![]).ok();
    check(want.is_some() == (cut == 0), "the remainder is accepted if it is whole");
    match (want, got) {
        (Some(a), Some(b)) => {
            observe_bytes(&b);
            check(same(&a, &b), "what comes before the position has no influence");
            cover("remuxed");
        }
        (None, None) => {
            check(true, "both fail");
            cover("refused");
        }
        _ => check(false, "the result is that of the remainder"),
    }
}

/// returns arbitrary values
struct Changer {
    seen: Rc<RefCell<Seen>>,
    back: Rc<RefCell<Vec<(u32, usize, i64)>>>,
    rates: (u32, i32, i32, i32),
    last_must_end: bool,
}
impl OggVorbisStreamMangler for Changer {
    fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
        self.seen.borrow_mut().rates.push(f.get());
        NonZeroU32::new(self.rates.0).unwrap_or(f)
    }
    fn mangle_bitrates(&mut self, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
        self.seen.borrow_mut().bitrates.push((a, b, c));
        (self.rates.1, self.rates.2, self.rates.3)
    }
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
        self.seen.borrow_mut().serials.push((s, n, last));
        let r = pick(&[500, 3], "serial");
        self.back.borrow_mut().push((r, 0, 0));
        r
    }
    fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, n: usize, last: bool) -> PacketWriteEndInfo {
        self.seen.borrow_mut().ends.push((e, n, last));
        let k = if last && self.last_must_end { 1 + choice(2, "page end") } else { choice(3, "page end") };
        self.back.borrow_mut().last_mut().unwrap().1 = k;
        [PacketWriteEndInfo::NormalPacket, PacketWriteEndInfo::EndPage, PacketWriteEndInfo::EndStream][k]
    }
    fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        self.seen.borrow_mut().granules.push((g, n, header, last));
        let r = bits(64, "granule position") as i64;
        self.back.borrow_mut().last_mut().unwrap().2 = r;
        r
    }
}

/// manglers
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_mangler() {
    let n = param(0);
    let mut src = headers(44100).src;
    // bitrates of the source: maximum, nominal, minimum
    let rates: Vec<u8> = sym_vec(12, "bitrate");
    src[0][16..28].copy_from_slice(&rates);
    for k in 0..n {
        src.push(audio(k & 1, k as u64));
    }
    let last_dropped = flip("last packet dropped");
    if last_dropped {
        src.push(vec![]);
    }
    let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k == 0 || k == 2) as usize)).collect();
    let file = join(&lay_out(5, &p, 1));
    let (seen, back) = (Rc::new(RefCell::new(Seen::default())), Rc::new(RefCell::new(vec![])));
    let new = (bits(32, "rate") as u32, bits(32, "rates") as i32, bits(32, "rates") as i32, bits(32, "rates") as i32);
    assume(new.0 != 0);
    let st = settings(Changer { seen: seen.clone(), back: back.clone(), rates: new, last_must_end: true });
    let Some(out) = remux(st, &file) else { return check(false, "the file is accepted") };
    let mut want = optimized(&src).unwrap_or_default();
    check(want.len() == 3 + n, "all packets are kept");
    if want.len() != 3 + n {
        return;
    }
    // the identification header with the returned values
    want[0][12..16].copy_from_slice(&new.0.to_le_bytes());
    want[0][16..20].copy_from_slice(&new.3.to_le_bytes());
    want[0][20..24].copy_from_slice(&new.2.to_le_bytes());
    want[0][24..28].copy_from_slice(&new.1.to_le_bytes());
    // true arguments
    let (seen, back) = (seen.borrow(), back.borrow());
    let le = |k: usize| i32::from_le_bytes([rates[k], rates[k + 1], rates[k + 2], rates[k + 3]]);
    check(seen.rates.len() == 1 && seen.rates[0] == 44100, "the mangler sees the sampling frequency");
    check(seen.bitrates.len() == 1 && seen.bitrates[0] == (le(8), le(4), le(0)), "the mangler sees the bitrates");
    check(seen.serials.len() == 3 + n && seen.ends.len() == 3 + n && seen.granules.len() == 3 + n, "every written packet is presented once");
    let sizes: Vec<u64> = (0..n).map(|k| SIZES[k & 1]).collect();
    let g = granules(&sizes, &vec![0; n], Some(n.max(1) - 1).filter(|_| n > 0 && !last_dropped), true);
    for i in 0..3 + n {
        let last = i + 1 == 3 + n;
        check(seen.serials[i] == (7, i, last), "serial, number and last flag");
        let e = if last { PacketWriteEndInfo::EndStream } else if i == 0 || i == 2 { PacketWriteEndInfo::EndPage } else { PacketWriteEndInfo::NormalPacket };
        check(seen.ends[i].0 == e && seen.ends[i].1 == i && seen.ends[i].2 == last, "page end mark, number and last flag");
        let gp = if i < 3 { 0 } else { g[i - 3] };
        check(seen.granules[i] == (gp, i, i < 3, last), "granule position, number and flags");
    }
    // what the values returned make: pages by serial
    let mut pending: Vec<(u32, Vec<usize>, u32)> = vec![];
    let mut pages: Vec<(u32, u32, Vec<usize>, bool)> = vec![];
    for (i, (s, end, _)) in back.iter().enumerate() {
        let k = match pending.iter().position(|p| p.0 == *s) {
            Some(k) => k,
            None => {
                pending.push((*s, vec![], 0));
                pending.len() - 1
            }
        };
        pending[k].1.push(i);
        if *end > 0 {
            let v = std::mem::take(&mut pending[k].1);
            pages.push((*s, pending[k].2, v, *end == 2));
            pending[k].2 += 1;
        }
    }
    let Some(parts) = read_pages(&out) else { return check(false, "the output consists of pages") };
    check(parts.len() == pages.len(), "pages end where the mangler says");
    if parts.len() != pages.len() {
        return;
    }
    for (p, (s, seq, v, eos)) in parts.iter().zip(&pages) {
        check(p.serial == *s && p.seq == *seq, "serial of the mangler");
        check(p.gp as i64 == back[*v.last().unwrap()].2, "granule position of the mangler");
        check(p.flags == (if *seq == 0 { BOS } else { 0 }) | (if *eos { EOS } else { 0 }), "marks of the mangler");
        check(p.ends.len() == v.len() && v.iter().zip(&p.ends).all(|(i, q)| same(q, &want[*i])), "packets and header values of the mangler");
        observe(p.gp);
    }
    cover("mangled");
}

/// the same pages, leaving out checksums (functions of the rest, O03) because they are hard for the solver
fn same_pages(a: &[u8], b: &[u8]) -> bool {
    let (Some(a), Some(b)) = (read_pages(a), read_pages(b)) else { return false };
    a.len() == b.len()
        && a.iter().zip(&b).all(|(p, q)| {
            p.flags == q.flags && p.gp == q.gp && p.serial == q.serial && p.seq == q.seq && p.segments == q.segments && p.open == q.open
                && p.ends.len() == q.ends.len() && p.ends.iter().zip(&q.ends).all(|(x, y)| same(x, y))
        })
}

/// running twice, and over the result
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_twice() {
    let (n, kinds) = (param(0), param(1));
    let h = headers(44100);
    let ignore = flip("ignore start");
    let mut packets: Vec<(Vec<u8>, bool)> = h.src.iter().enumerate().map(|(i, p)| (p.clone(), i != 1)).collect();
    for i in 0..n {
        let k = choice(kinds, "kind");
        packets.push((if k == 2 { vec![] } else { audio(k, i as u64) }, flip("page end")));
    }
    let (mut pages, _) = paginate(5, &packets, flip("end of stream mark"));
    for (i, p) in pages.iter_mut().enumerate() {
        p.gp = if i < 2 { 0 } else { bits(64, "granule position") };
        assume((p.gp as i64) < 1 << 60 && p.gp as i64 > -(1 << 60));
    }
    let file = join(&pages);
    let make = || {
        let mut st = settings(OggVorbisStreamPassthroughMangler);
        st.ignore_start_sample_offset = ignore;
        st
    };
    let r = OggToOgg::new(make(), VorbisOptimizerSettings::default());
    let Ok(a) = r.remux(Cursor::new(&file[..]), vec![]) else { return check(false, "the file is accepted") };
    let Ok(b) = r.remux(Cursor::new(&file[..]), vec![]) else { return check(false, "the file is accepted again") };
    let Some(c) = remux(make(), &file) else { return check(false, "the file is accepted once more") };
    check(same_pages(&a, &b) && same_pages(&a, &c), "the result is the same every time");
    observe(a.len() as u64);
    let Some(d) = remux(make(), &a) else { return check(false, "the result is accepted") };
    check(same_pages(&a, &d), "remuxing the result gives the result");
    cover("twice");
}

/// a source that fails or gives little at a time
struct Source<'a> {
    v: &'a [u8],
    at: u64,
    calls: u64,
    fail: u64,
    kind: std::io::ErrorKind,
    most: usize,
    fired: Rc<RefCell<usize>>,
}
impl Source<'_> {
    fn call(&mut self) -> std::io::Result<()> {
        self.calls += 1;
        if self.calls == self.fail {
            *self.fired.borrow_mut() += 1;
            return Err(self.kind.into());
        }
        Ok(())
    }
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.call()?;
        let rest = &self.v[(self.at as usize).min(self.v.len())..];
        let n = rest.len().min(b.len()).min(self.most);
        b[..n].copy_from_slice(&rest[..n]);
        self.at += n as u64;
        Ok(n)
    }
}
impl Seek for Source<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.call()?;
        self.at = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(n) => (self.at as i64 + n) as u64,
            SeekFrom::End(n) => (self.v.len() as i64 + n) as u64,
        };
        Ok(self.at)
    }
}
/// a sink that fails or takes little at a time
struct Sink {
    v: Rc<RefCell<Vec<u8>>>,
    calls: u64,
    fail: u64,
    kind: Option<std::io::ErrorKind>,
    most: usize,
    fired: Rc<RefCell<usize>>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail {
            *self.fired.borrow_mut() += 1;
            return match self.kind {
                Some(k) => Err(k.into()),
                // takes nothing
                None => Ok(0),
            };
        }
        let n = b.len().min(self.most);
        self.v.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// errors of the source and the sink
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_faults() {
    use std::io::ErrorKind::*;
    let (n, kinds) = (param(0), param(1));
    let m = 1 + choice(2, "streams");
    let mut file = vec![];
    // a foreign stream in front of the Vorbis ones
    if flip("foreign") {
        file.extend_from_slice(&join(&lay_out(77, &[(b"fLaC_".to_vec(), 1), (vec![1, 2], 1)], 1)));
    }
    for i in 0..m {
        let mut src = headers(44100).src;
        for k in 0..n {
            src.push(if i == 0 { audio(0, k as u64) } else { fixed(0, k as u64) });
        }
        let p: Vec<(Vec<u8>, usize)> = src.iter().enumerate().map(|(k, p)| (p.clone(), (k != 1) as usize)).collect();
        file.extend_from_slice(&join(&lay_out(5 + i as u32, &p, 1)));
    }
    let Some(want) = remux(settings(OggVorbisStreamPassthroughMangler), &file) else { return check(false, "the file is accepted") };
    let most = pick(&[usize::MAX, 1, 5], "bytes at once");
    let fired = Rc::new(RefCell::new(0));
    let got = Rc::new(RefCell::new(vec![]));
    let kind = pick(&[Other, UnexpectedEof, PermissionDenied, WouldBlock, InvalidData][..kinds], "kind");
    let side = choice(3, "side");
    // 0: never
    let fail = bits(32, "failing call");
    assume(side != 2 || fail == 0);
    let before = choice(2, "before");
    let mut all = vec![b'x'; before];
    all.extend_from_slice(&file);
    let source = Source { v: &all, at: before as u64, calls: 0, fail: if side == 0 { fail } else { 0 }, kind, most, fired: fired.clone() };
    let nothing = side == 1 && flip("takes nothing");
    let sink = Sink { v: got.clone(), calls: 0, fail: if side == 1 { fail } else { 0 }, kind: if nothing { None } else { Some(kind) }, most, fired: fired.clone() };
    let r = OggToOgg::new(settings(OggVorbisStreamPassthroughMangler), VorbisOptimizerSettings::default()).remux(source, sink);
    let got = got.borrow();
    observe(got.len() as u64);
    observe(r.is_ok() as u64);
    let failed = *fired.borrow() > 0;
    match r {
        Ok(_) => {
            check(!failed, "an error of the source or sink is reported");
            check(same(&got, &want), "the output is complete");
            cover("complete");
        }
        Err(e) => {
            check(failed, "short reads and writes are no errors");
            let k = match e {
                RemuxError::OggError(ogg::OggReadError::ReadError(e)) => Some(e.kind()),
                RemuxError::IoError(e) => Some(e.kind()),
                _ => None,
            };
            check(k == Some(if nothing { WriteZero } else { kind }), "the error is the one of the source or sink");
            check(got.len() <= want.len() && same(&got, &want[..got.len()]), "what was written is the beginning of the output");
            check(side == 1 || got.is_empty() || fail > 1, "nothing is written before the source was read");
            cover("failed");
        }
    }
}

/// SOURCE_DATE_EPOCH, and a system without random numbers
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_epoch() {
    let (m, len) = (param(0), param(1));
    let (file, _) = chain(m, &[9, 3, 0xffff_ffff, 1]);
    let w = world();
    let mut text = match choice(4, "variable") {
        // not set
        0 => None,
        1 => {
            let n = choice(len + 1, "length");
            Some(sym_vec(n, "text"))
        }
        2 => Some(pick(&[&b"1700000000"[..], b"-315619200", b"99999999999999999999", b"170141183460469231731687303715884105727"], "text").to_vec()),
        _ => Some(pick(&[&b"1.5"[..], b"1700000000 ", b"0x10", b"1e9", b"", b"\xff"], "text").to_vec()),
    };
    let mut valid = true;
    if let Some(t) = &mut text {
        let digits = match t.first() {
            Some(b'-' | b'+') => &t[1..],
            _ => &t[..],
        };
        valid = !digits.is_empty() && digits.iter().all(|b| b.is_ascii_digit());
        for b in t.iter() {
            assume(*b != 0);
        }
        t.push(0);
    }
    let set = text.is_some();
    w.epoch = text;
    w.random_fails = flip("no random numbers");
    let seen = Rc::new(RefCell::new(vec![]));
    let mut st = settings(Serials(seen.clone(), 100));
    st.randomize_stream_serials = flip("randomise");
    st.first_stream_serial_offset = bits(32, "offset") as u32;
    let (randomise, offset) = (st.randomize_stream_serials, st.first_stream_serial_offset);
    let mut other = None;
    if randomise && set && valid {
        other = Some(other_process(|| {
            let again = Rc::new(RefCell::new(vec![]));
            let mut st = settings(Serials(again.clone(), 100));
            st.randomize_stream_serials = true;
            st.first_stream_serial_offset = offset;
            let mut out = vec![];
            let _ = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&file[..]), &mut out);
            let v = again.borrow().iter().filter(|s| s.1 == 0).map(|s| s.0 as u64).collect();
            v
        }));
    }
    let mut out = vec![];
    let r = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&file[..]), &mut out).map(|_| ());
    observe(out.len() as u64);
    if randomise && set && !valid {
        check(matches!(r, Err(RemuxError::InvalidSourceDateEpoch)), "an invalid value is reported");
        check(out.is_empty(), "nothing is written then");
        cover("invalid");
        return;
    }
    if r.is_err() {
        return check(false, "the file is accepted");
    }
    let seen = seen.borrow();
    let first: Vec<u32> = seen.iter().filter(|s| s.1 == 0).map(|s| s.0).collect();
    check(first.len() == m, "every stream gets a serial");
    for s in &first {
        observe(*s as u64);
    }
    if let Some(o) = other {
        check(o.len() == m && o.iter().zip(&first).all(|(a, b)| *a == *b as u64), "another process gives the same serials");
    }
    if !randomise {
        check(first.iter().enumerate().all(|(i, s)| *s == offset.wrapping_add(i as u32)), "the variable has no effect on serials in order");
        check(!w.random_asked && !w.clock_read, "nothing random is involved");
        return cover("in order");
    }
    if m > 1 {
        let inc = first[1].wrapping_sub(first[0]);
        check(inc & 1 == 1, "the step is odd");
        for i in 2..m {
            check(first[i].wrapping_sub(first[i - 1]) == inc, "the step is constant");
        }
    }
    if set {
        check(!w.random_asked && !w.clock_read, "the result depends on the variable, the settings and the file only");
        cover("reproducible");
    } else if w.random_fails {
        check(w.clock_read, "without random numbers the clock is used");
        cover("clock");
    } else {
        check(!w.clock_read, "the clock is not used");
        cover("random");
    }
}

/// a stream whose packets use different entries of a codebook, so that it matters which are counted
fn coded_stream(serial: u32) -> Vec<Page> {
    let mut s = two_modes();
    s.books.push(scalar_book(&[2, 2, 2, 2]));
    let b = s.books.len() as u64 - 1;
    s.residues[0] = Residue { ty: 1, begin: 0, end: 32, psize: 8, classes: 4, classbook: b, cascade: vec![0; 4], books: vec![vec![]; 4] };
    let mut p = vec![(ident_packet(1, 44100, 6, 8), 1), (comment_packet(b"vendor", &[b"a=b"]), 0), (setup_packet(&s, 1), 1)];
    for (i, c) in [0b01_00_00_01u64, 0b10_10_10_10, 0b11_11_11_11].into_iter().enumerate() {
        let mut o = BW::new();
        o.put(0, 2);
        o.put(1, 1);
        o.put(0x2345, 16);
        o.put(c, 8);
        // the second one goes on in another page
        if i == 1 {
            o.v.resize(300, 0);
        }
        p.push((o.v, if i == 1 { 3 } else { 1 }));
    }
    lay_out(serial, &p, 1)
}
/// the packets of the Vorbis streams as the Ogg library gives them, by serial
fn packets_by_stream(file: &[u8]) -> Option<Vec<(u32, Vec<Vec<u8>>)>> {
    let mut po = ogg::reading::PageParsingOptions::default();
    po.verify_checksum = false;
    let mut r = ogg::PacketReader::new_with_page_parse_opts(Cursor::new(file), po);
    let mut v: Vec<(u32, Vec<Vec<u8>>)> = vec![];
    while let Some(p) = r.read_packet().ok()? {
        match v.iter_mut().find(|x| x.0 == p.stream_serial()) {
            Some(x) => x.1.push(p.data),
            // a stream begins where its first page is marked
            None => v.push((p.stream_serial(), if p.first_in_stream() { vec![p.data] } else { vec![vec![]] })),
        }
    }
    Some(v)
}

/// damage to pages: marks, numbers, lengths; lost, repeated and reordered pages; foreign bytes, cut files
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ogg_container() {
    let two = param(0) == 1;
    let mut pages = coded_stream(9);
    if two {
        pages.extend(coded_stream(4));
    }
    let n = pages.len();
    let i = choice(n, "page");
    let what = choice(param(1), "damage");
    let mut file = vec![];
    // unless it is about these pages alone
    if two && what > 6 {
        assume(i > 4 && i < 8);
    }
    match what {
        0 => pages[i].flags ^= bits(3, "flags") as u8,
        1 => {
            pages.remove(i);
        }
        2 => {
            let p = pages[i].clone();
            pages.insert(choice(n + 1, "to"), p);
        }
        3 => pages.swap(i, choice(n, "with")),
        4 => pages[i].serial = pick(&[9, 4, 5], "serial"),
        5 => pages[i].seq = bits(32, "sequence number") as u32,
        6 => pages[i].gp = bits(64, "granule position"),
        7 => {
            let k = choice(pages[i].lacing.len(), "segment");
            pages[i].lacing[k] = conc(bits(8, "length")) as u8;
        }
        8 => {
            pages[i].lacing.clear();
            pages[i].body.clear();
        }
        9 => pages[i].lacing.resize(choice(256, "segments"), 0),
        10 => {
            let at = choice(pages[i].body.len(), "byte");
            pages[i].body.truncate(at);
        }
        _ => {}
    }
    for (k, p) in pages.iter().enumerate() {
        if what == 11 && k == i {
            file.extend_from_slice(&sym_vec(param(2), "foreign"));
        }
        file.extend_from_slice(&p.bytes());
        if what == 12 && k == i {
            let cut = choice(30, "cut");
            file.truncate(file.len().saturating_sub(cut));
            break;
        }
        if what == 13 && k == i {
            // any byte of the page header but its checksum and serial
            let at = file.len() - p.body.len() - p.lacing.len() - 27 + pick(&[0, 1, 2, 3, 4, 5, 26], "byte");
            file[at] = conc(bits(8, "value")) as u8;
        }
    }
    let r = OggToOgg::new(settings(OggVorbisStreamPassthroughMangler), VorbisOptimizerSettings::default()).remux(Cursor::new(&file[..]), vec![]);
    match r {
        Ok(out) => {
            let Some(pages) = read_pages(&out) else { return check(false, "the output consists of pages") };
            let Some(src) = packets_by_stream(&file) else { return check(false, "damaged files are an error") };
            let mut want = vec![];
            for (_, p) in &src {
                if p[0].len() >= 7 && same(&p[0][..7], b"\x01vorbis") {
                    want.push(optimized(p));
                }
            }
            let mut at = 0;
            for w in &want {
                let Some(w) = w else { return check(false, "what the optimizer refuses is an error") };
                let k = pages[at..].iter().take_while(|p| p.serial == pages[at].serial).count();
                let part: Vec<&OutPage> = pages[at..at + k].iter().collect();
                check_stream(&part, w);
                at += k;
            }
            check(at == pages.len(), "nothing else is written");
            cover("remuxed");
        }
        Err(_) => cover("refused"),
    }
}
