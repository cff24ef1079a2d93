//! V03, V04: setup headers.
//! Parameter 0 selects what is asserted: 1 = the rewritten header describes the same configuration (V03),
//! 2 = headers are refused or accepted as they must (V04), 3 = both, 4 = nothing but that nothing panics (V09).
use super::bits::*;
use super::mk::*;
use super::spec::*;
use super::sym::*;
use optivorbis::*;

fn v03() -> bool {
    param(0) & 1 != 0
}
fn v04() -> bool {
    param(0) & 2 != 0
}
fn v09() -> bool {
    param(0) & 4 != 0
}

/// an optimizer that has seen valid identification and comment headers
pub fn started(settings: &VorbisOptimizerSettings, channels: u8, bs: (u32, u32)) -> Option<VorbisOptimizer<'_>> {
    let id = ident_packet(channels, 44100, bs.0, bs.1);
    match VorbisOptimizer::new(settings, &id[..]) {
        Ok(mut o) => {
            check(matches!(o.analyze_packet(comment_packet(b"x", &[])), Ok(None)), "comment header accepted");
            Some(o)
        }
        Err(_) => {
            check(false, "identification header accepted");
            None
        }
    }
}

/// writes the identification and comment headers, which come before the setup header
pub fn pass_headers(o: &mut VorbisOptimizer, channels: u8, bs: (u32, u32)) {
    let id = ident_packet(channels, 44100, bs.0, bs.1);
    check(matches!(o.optimize_packet(&id[..]), Ok(Some(_))), "identification header written");
    check(matches!(o.optimize_packet(&id[..]), Ok(Some(_))), "comment header written");
}

fn check_setup(p: &[u8], channels: u8) {
    let (verdict, conf, _) = parse_setup(p, channels as u32);
    if !v04() && !v09() {
        assume(verdict != Verdict::Illegal);
    }
    let settings = VorbisOptimizerSettings::default();
    let mut o = match started(&settings, channels, (6, 6)) {
        Some(o) => o,
        None => return,
    };
    match o.analyze_packet(p) {
        Ok(b) => {
            if v04() {
                check(verdict != Verdict::Illegal, "setup headers that break a rule are refused");
                check(b.is_none(), "headers have no block size");
            }
        }
        Err(_) => {
            check(true, "no panic");
            if v04() {
                check(verdict != Verdict::Legal, "legal setup headers are accepted");
                cover("refused");
            }
            return;
        }
    }
    if v09() {
        // the same packet in the rewriting pass
        let id = ident_packet(channels, 44100, 6, 6);
        let _ = o.optimize_packet(&id[..]);
        let _ = o.optimize_packet(&id[..]);
        if let Ok(Some((q, _))) = o.optimize_packet(p) {
            observe(q.len() as u64);
        }
        check(true, "no panic");
        return cover("accepted");
    }
    let conf = match conf {
        Some(c) => c,
        None => return,
    };
    if !v03() {
        cover("accepted");
        return;
    }
    pass_headers(&mut o, channels, (6, 6));
    let q = match o.optimize_packet(p) {
        Ok(Some((q, None))) => q.into_owned(),
        _ => return check(false, "setup header is written"),
    };
    observe_bytes(&q);
    let (v2, conf2, pos) = parse_setup(&q, channels as u32);
    check(v2 == Verdict::Legal, "the rewritten setup header is legal");
    check(q.len() == (pos + 7) / 8, "the rewritten setup header has no trailing data");
    if let Some(c2) = conf2 {
        check_same_config(&conf, &c2);
        check(c2.times.len() == 1, "one time domain transform is written");
        for b in &c2.books {
            check(b.lens.iter().all(|l| *l == 0), "no codewords when there is no audio");
        }
    }
    // it can be parsed again by the optimizer itself
    let mut o = match started(&settings, channels, (6, 6)) {
        Some(o) => o,
        None => return,
    };
    check(matches!(o.analyze_packet(&q[..]), Ok(None)), "the rewritten setup header is accepted again");
    cover("accepted");
}

fn vq_book(n: usize, dims: u64) -> Book {
    let mut lens = vec![];
    let mut l = 0;
    while 1 << l < n {
        l += 1;
    }
    for i in 0..n {
        let k = if n & (n - 1) == 0 { l } else if i + 1 == n { n as u8 - 1 } else { i as u8 + 1 };
        lens.push(k);
    }
    let mut b = scalar_book(&lens);
    b.dims = dims;
    b.lookup = 1;
    b.min = 0xe1500000;
    b.delta = 0x61500000;
    b.vbits = 4;
    b.mult = (0..lookup1(n as u64, dims)).collect();
    b
}

const WORDS: &[u64] = &[0x62a00001, 0, 0x80000000, 0xffffffff, 1, 0x801fffff];

/// codebooks: entry counts, lengths in all forms, lookup data
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_books() {
    let maxn = param(1);
    let lim = param(2); // up to that many entries all lengths are explored
    let part = param(3); // 0: codeword lengths, 1: lookup data, 2: both
    let mut s = min_setup(1);
    let first = flip("tested book first");
    let n = choice(maxn + 1, "entries");
    let form = if part == 1 { Form::Dense } else { pick(&[Form::Dense, Form::Sparse, Form::Ordered], "form") };
    let mut o = BW::new();
    o.put(5, 8);
    o.bytes(b"vorbis");
    o.put(1, 8);
    if !first {
        put_book(&mut o, &s.books[0]);
    } else {
        s.residues[0].classbook = 1;
    }
    let dims;
    o.put(if n <= 1 { bits(24, "sync") } else { 0x564342 }, 24);
    let lookup = if part == 0 {
        0
    } else if n <= 2 {
        bits(4, "lookup")
    } else {
        pick(&[0, 1, 2, 3], "lookup")
    };
    let mut k = 0; // multiplicands
    if lookup == 0 {
        dims = bits(16, "dimensions");
    } else {
        dims = pick(&[1, 2, 0, 3, 65535], "dimensions");
        let lookup = conc(lookup);
        if lookup == 1 {
            k = if dims == 0 { 0 } else { lookup1(n as u64, dims) };
        }
        if lookup == 2 {
            k = if dims == 65535 { 0 } else { dims * n as u64 };
        }
    }
    o.put(dims, 16);
    o.put(n as u64, 24);
    o.put((form == Form::Ordered) as u64, 1);
    let length = |i: usize| {
        if part == 1 {
            // a full code
            if i + 1 == n { n.max(2) as u64 - 2 } else { i as u64 }
        } else if n <= lim || (i == 0 && n == lim + 1) { bits(5, "length") } else { choice(3, "length") as u64 }
    };
    match form {
        Form::Dense => {
            o.put(0, 1);
            for i in 0..n {
                o.put(length(i), 5);
            }
        }
        Form::Sparse => {
            o.put(1, 1);
            for i in 0..n {
                let u = flip("used");
                o.put(u as u64, 1);
                if u {
                    o.put(length(i), 5);
                }
            }
        }
        Form::Ordered => {
            let mut l = if n <= lim { conc(bits(5, "first length")) } else { choice(3, "first length") as u64 } + 1;
            o.put(l - 1, 5);
            let mut left = n as u64;
            while left > 0 && l <= 32 {
                let w = ilog(left);
                let c = conc(bits(w, "count"));
                o.put(c, w);
                if c > left {
                    break;
                }
                left -= c;
                // long runs of absent lengths are only explored at the top
                if c == 0 && l > 3 && l < 30 {
                    break;
                }
                l += 1;
            }
        }
    }
    o.put(lookup, 4);
    if conc(lookup) != 0 {
        let w = if n <= 1 { choice(WORDS.len(), "minimum") } else { 0 };
        o.put(WORDS[w], 32);
        o.put(WORDS[(w + 1) % WORDS.len()], 32);
        let vb = if n <= 1 { conc(bits(4, "value bits")) } else { pick(&[0, 15, 6], "value bits") };
        o.put(vb, 4);
        o.put(bits(1, "sequence"), 1);
        for _ in 0..k {
            o.put(bits(vb as u32 + 1, "multiplicand"), vb as u32 + 1);
        }
    }
    if first {
        put_book(&mut o, &s.books[0]);
    }
    put_rest(&mut o, &s, 1);
    check_setup(&o.v, 1);
}

fn put_times(o: &mut BW, s: &Setup) {
    o.put(s.times.len() as u64 - 1, 6);
    for t in &s.times {
        o.put(*t, 16);
    }
}
/// everything after the books
fn put_rest(o: &mut BW, s: &Setup, channels: u32) {
    put_times(o, s);
    o.put(s.floors.len() as u64 - 1, 6);
    for f in &s.floors {
        put_floor(o, f);
    }
    o.put(s.residues.len() as u64 - 1, 6);
    for r in &s.residues {
        put_residue(o, r);
    }
    put_tail(o, s, channels);
}
fn put_tail(o: &mut BW, s: &Setup, channels: u32) {
    o.put(s.mappings.len() as u64 - 1, 6);
    for m in &s.mappings {
        put_mapping(o, m, channels);
    }
    put_modes(o, s);
}
fn put_modes(o: &mut BW, s: &Setup) {
    o.put(s.modes.len() as u64 - 1, 6);
    for m in &s.modes {
        o.put(m.big, 1);
        o.put(m.window, 16);
        o.put(m.transform, 16);
        o.put(m.mapping, 8);
    }
    o.put(s.framing, 1);
}

/// floors: type, partitions, classes, books, points
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_floors() {
    let deep = param(1);
    let mut s = min_setup(1);
    s.books.push(scalar_book(&[1, 2, 2]));
    let parts: &[u64] = match choice(6 + deep, "partitions") {
        0 => &[],
        1 => &[0],
        2 => &[1],
        3 => &[0, 1],
        4 => &[0, 0],
        5 => &[2, 0],
        6 => &[1, 0, 1],
        _ => &[15],
    };
    let n = parts.iter().map(|p| p + 1).max().unwrap_or(0);
    let mut f = floor(parts, vec![], 1 + bits(2, "multiplier"), 4, &[]);
    f.ty = bits(16, "type");
    for i in 0..n {
        let used = parts.contains(&i);
        let sub = if used || i == 0 { choice(4, "subclasses") as u32 } else { 0 };
        let mut c = Class { dim: 1, sub, master: 0, books: vec![] };
        c.dim = if used { pick(&[1, 3], "dimensions") } else { 1 + bits(3, "dimensions") };
        c.master = bits(8, "master book");
        for j in 0..1u64 << sub {
            c.books.push(if j < 2 || j == 7 { bits(8, "book") } else { j % 3 });
        }
        f.classes.push(c);
    }
    f.range = if parts.len() <= 1 { pick(&[4, 0, 1, 15], "range") } else { 4 };
    let n: u64 = parts.iter().map(|p| f.classes[*p as usize].dim).sum();
    // one of the points may be zero or repeat the first one
    let odd = if n > 0 { choice(1 + n as usize, "odd point") as u64 } else { 0 };
    for i in 1..=n {
        let x = if odd == i { pick(&[0, 1], "x") } else { i };
        let step = if f.range == 15 { 4095 } else { 1 };
        f.xs.push(if f.range == 0 { 0 } else { x * step & ((1 << f.range) - 1) });
    }
    let second = parts.len() == 1 && flip("second floor");
    s.floors[0] = f;
    if second {
        s.floors.push(floor(&[], vec![], 3, 7, &[]));
        s.floors.swap(0, 1);
    }
    check_setup(&setup_packet(&s, 1), 1);
}

/// floors around the limit of 65 points
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_points() {
    let mut s = min_setup(1);
    let d = 1 + choice(8, "last dimension") as u64;
    let k = 6 + choice(3, "partitions");
    let cl = |dim| Class { dim, sub: 0, master: 0, books: vec![0] };
    let mut parts = vec![0; k];
    parts.push(1);
    let n = 8 * k as u64 + d;
    let xs: Vec<u64> = (1..=n).map(|x| if x == n && flip("repeated") { 1 } else { x }).collect();
    s.floors[0] = floor(&parts, vec![cl(8), cl(d)], 1 + bits(2, "multiplier"), 7, &xs);
    check_setup(&setup_packet(&s, 1), 1);
}

/// residues
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_residues() {
    let deep = param(1);
    let mut s = min_setup(1);
    s.books.push(vq_book(4, 2));
    s.books[1].dims = pick(&[2, 0, 1, 3, 65535], "classbook dimensions");
    s.books[1].lookup = 0;
    let mut o = BW::new();
    o.put(5, 8);
    o.bytes(b"vorbis");
    o.put(s.books.len() as u64 - 1, 8);
    for b in &s.books {
        put_book(&mut o, b);
    }
    put_times(&mut o, &s);
    o.put(0, 6);
    put_floor(&mut o, &s.floors[0]);
    let second = flip("second residue");
    o.put(second as u64, 6);
    if second {
        put_residue(&mut o, &s.residues[0]);
    }
    o.put(bits(16, "type"), 16);
    o.put(bits(24, "begin"), 24);
    o.put(bits(24, "end"), 24);
    o.put(bits(24, "partition size"), 24);
    let classes = 1 + choice(2 + deep, "classifications") as u64;
    o.put(classes - 1, 6);
    let cb = bits(8, "classbook");
    o.put(cb, 8);
    let mut n = 0;
    for i in 0..classes {
        let all = i == 0 && (deep > 0 || classes == 1);
        let low = if all { conc(bits(3, "low")) } else { pick(&[0, 5], "low") };
        let flag = flip("high");
        o.put(low, 3);
        o.put(flag as u64, 1);
        n += low.count_ones();
        if flag {
            let high = if all { conc(bits(5, "high bits")) } else { pick(&[0, 17], "high bits") };
            o.put(high, 5);
            n += high.count_ones();
        }
    }
    for i in 0..n {
        o.put(if i < 2 || i + 1 == n { bits(8, "book") } else { (i & 1) as u64 }, 8);
    }
    put_tail(&mut o, &s, 1);
    check_setup(&o.v, 1);
}

/// mappings
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_mappings() {
    let deep = param(1);
    let channels = [2, 1, 3, 5, 255][choice(3 + deep, "channels")] as u8;
    let mut s = min_setup(1);
    s.floors.push(floor(&[], vec![], 2, 3, &[]));
    let r = s.residues[0].clone();
    s.residues.push(r);
    let mut m = mapping(&[], &[], &[]);
    m.ty = bits(16, "type");
    m.reserved = bits(2, "reserved");
    m.long_submaps = flip("long");
    let subs = if m.long_submaps { 1 + choice(3, "submaps") } else { 1 };
    let w = ilog(channels as u64 - 1);
    for _ in 0..choice(3, "coupling steps") {
        m.coupling.push((bits(w, "magnitude"), bits(w, "angle")));
    }
    for c in 0..channels {
        m.mux.push(if c < 3 { bits(4, "mux") } else { 0 });
    }
    for i in 0..subs {
        let f = |t: &str| if i < 2 { bits(8, t) } else { 1 };
        m.subs.push((bits(8, "time"), f("floor"), f("residue")));
    }
    s.mappings[0] = m;
    if flip("second mapping") {
        s.mappings.push(mapping(&[], &vec![0; channels as usize], &[(0, 1, 0)]));
        s.mappings.swap(0, 1);
    }
    check_setup(&setup_packet(&s, channels as u32), channels);
}

/// time domain transforms, modes, framing, trailing data
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_modes() {
    let mut s = min_setup(2);
    s.mappings.push(mapping(&[(0, 1)], &[0, 0], &[(0, 0, 0)]));
    s.times = (0..1 + choice(3, "times")).map(|_| bits(16, "transform")).collect();
    s.modes.clear();
    for _ in 0..1 + choice(param(1), "modes") {
        s.modes.push(Mode { big: bits(1, "block flag"), window: bits(16, "window"), transform: bits(16, "transform"), mapping: bits(8, "mapping") });
    }
    s.framing = bits(1, "framing");
    let mut p = setup_packet(&s, 2);
    for _ in 0..choice(3, "trailing bytes") {
        p.push(bits(8, "trailing") as u8);
    }
    check_setup(&p, 2);
}

/// a header with something of everything
pub fn rich_setup() -> Setup {
    let mut s = min_setup(2);
    s.books.push(vq_book(5, 2));
    let mut b = vq_book(4, 3);
    b.lookup = 2;
    b.mult = (0..12).collect();
    s.books.push(b);
    let mut b = scalar_book(&[1, 2, 3, 3]);
    b.form = Form::Ordered;
    b.dims = 2;
    s.books.push(b);
    s.books.push(scalar_book(&[0, 2, 1, 0, 2]));
    s.times = vec![0, 0];
    s.floors = vec![
        floor(
            &[0, 1, 0],
            vec![
                Class { dim: 2, sub: 1, master: 0, books: vec![4, 0] },
                Class { dim: 1, sub: 2, master: 3, books: vec![0, 5, 4, 1] },
            ],
            2,
            6,
            &[3, 9, 27, 1, 63],
        ),
        floor(&[], vec![], 4, 0, &[]),
    ];
    s.residues = vec![
        Residue { ty: 2, begin: 0, end: 64, psize: 8, classes: 2, classbook: 3, cascade: vec![9, 1], books: vec![vec![1, 1], vec![1]] },
        Residue { ty: 1, begin: 8, end: 40, psize: 12, classes: 1, classbook: 0, cascade: vec![0x82], books: vec![vec![2, 2]] },
    ];
    s.mappings = vec![mapping(&[(0, 1)], &[0, 0], &[(0, 0, 0)]), mapping(&[(1, 0)], &[1, 0], &[(0, 0, 0), (0, 1, 1)])];
    s.modes = vec![mode(0, 0), mode(1, 1), mode(1, 0)];
    s
}

/// an arbitrary byte (a few values only where it is part of a float: B03 is about all floats)
fn any_byte(p: &[u8], at: usize) -> u8 {
    let mut s = rich_setup();
    for b in &mut s.books {
        b.min ^= 0xffffffff;
        b.delta ^= 0xffffffff;
    }
    let q = setup_packet(&s, 2);
    if p[at] != q[at] { pick(&[0, 1, 0x7f, 0x80, 0xff], "float byte") } else { bits(8, "byte") as u8 }
}

/// a rich header cut anywhere
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_cut() {
    let mut p = setup_packet(&rich_setup(), 2);
    let n = choice(p.len() + 1, "packet length");
    p.truncate(n);
    // what follows the byte of the cut is arbitrary
    let l = p.len();
    if l > 7 {
        p[l - 1] = any_byte(&p, l - 1);
    }
    check_setup(&p, 2);
}

/// a rich header with a window of arbitrary bytes anywhere
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_set_window() {
    let w = param(1);
    let (a, k) = (param(2), param(3)); // share of the positions
    let mut p = setup_packet(&rich_setup(), 2);
    let n = (p.len() - w) / k + 1;
    let at = a + k * choice(n, "position");
    assume(at + w <= p.len());
    let orig = p.clone();
    for i in 0..w {
        p[at + i] = any_byte(&orig, at + i);
    }
    check_setup(&p, 2);
}
