//! V05 to V09 (and V03 once more, with audio): whole streams through both passes of the optimizer.
//! Parameter 0 selects what is asserted: 1 = V05, 2 = V06, 4 = V07, 8 = V08, 16 = V09 (panics only), 32 = V03, 64 = O07.
use super::bits::*;
use super::mk::*;
use super::spec::*;
use super::sym::*;
use optivorbis::*;

fn on(m: usize) -> bool {
    param(0) & m != 0
}

/// what the stream needs for the property to say anything
fn need(c: bool, id: &str) {
    if on(1 | 2 | 4 | 32 | 64) {
        check(c, id);
    }
}

/// cost of the cheapest prefix code (with the length of one for a single symbol)
pub fn huffman_cost(freqs: &[u64]) -> u64 {
    let mut w: Vec<u64> = freqs.iter().copied().filter(|f| *f > 0).collect();
    if w.len() == 1 {
        return w[0];
    }
    let mut cost = 0;
    while w.len() > 1 {
        let mut two = 0;
        for _ in 0..2 {
            let mut m = 0;
            for i in 1..w.len() {
                if w[i] < w[m] {
                    m = i;
                }
            }
            two += w.swap_remove(m);
        }
        cost += two;
        w.push(two);
    }
    cost
}

fn same_events(a: &[Ev], b: &[Ev]) -> bool {
    for (x, y) in a.iter().zip(b) {
        let eq = match (x, y) {
            (Ev::Raw(v, w), Ev::Raw(u, z)) => w == z && v == u,
            (Ev::Entry(b, e), Ev::Entry(c, f)) => b == c && e == f,
            _ => false,
        };
        if !eq {
            return false;
        }
    }
    true
}

/// runs a stream through both passes and compares with the reference decoder
pub fn run_stream(s: &Setup, channels: u8, bs: (u32, u32), packets: &[Vec<u8>]) {
    let setup = setup_packet(s, channels as u32);
    let sizes = [1usize << bs.0, 1 << bs.1];
    let dec = Dec::new(s.clone(), channels as usize, sizes);
    let settings = VorbisOptimizerSettings::default();
    let mut o = match started_with(&settings, channels, bs) {
        Some(o) => o,
        None => return need(false, "the headers are accepted"),
    };
    if !matches!(o.analyze_packet(&setup[..]), Ok(None)) {
        return need(false, "the setup header is accepted");
    }
    let mut before: Vec<Audio> = Vec::with_capacity(packets.len());
    for p in packets {
        let a = dec.decode(p);
        let r = o.analyze_packet(&p[..]);
        if on(8) {
            match a.end {
                End::Complete | End::Cut => {
                    let n = sizes[(a.big == Some(true)) as usize] as u16;
                    check(matches!(r, Ok(Some(m)) if m == n), "the analysis keeps the packet and reports its block size")
                }
                End::NoMode => check(matches!(r, Ok(None)), "the analysis drops the packet"),
                End::NotAudio => check(r.is_err(), "packets of another type are an error"),
                End::Invalid => check(r.is_err(), "undecodable packets are an error"),
            }
        }
        if matches!(a.end, End::NotAudio | End::Invalid) || r.is_err() {
            cover("refused");
            return check(true, "no panic");
        }
        before.push(a);
    }
    let id = ident_packet(channels, 44100, bs.0, bs.1);
    let comment = comment_packet(b"x", &[]);
    let mut heads: Vec<Vec<u8>> = vec![];
    for h in [&id, &comment] {
        match o.optimize_packet(&h[..]) {
            Ok(Some((q, None))) => heads.push(q.into_owned()),
            _ => return need(false, "the first headers are written"),
        }
    }
    let q = match o.optimize_packet(&setup[..]) {
        Ok(Some((q, None))) => q.into_owned(),
        _ => return need(false, "setup header is written"),
    };
    observe_bytes(&q);
    let mut out: Vec<Option<Vec<u8>>> = Vec::with_capacity(packets.len());
    for (p, a) in packets.iter().zip(&before) {
        match o.optimize_packet(&p[..]) {
            Ok(Some((r, n))) => {
                if on(8) {
                    check(matches!(a.end, End::Complete | End::Cut), "the rewriting pass drops what the analysis drops");
                    let m = sizes[(a.big == Some(true)) as usize] as u16;
                    check(n == Some(m), "both passes report the block size of the mode");
                }
                out.push(Some(r.into_owned()));
            }
            Ok(None) => {
                if on(8) {
                    check(a.end == End::NoMode, "the rewriting pass keeps what the analysis keeps");
                }
                out.push(None);
            }
            Err(_) if on(16) && !on(8) => return,
            Err(_) => return check(false, "packets that were analysed can be rewritten"),
        }
    }
    for p in out.iter().flatten() {
        observe_bytes(p);
    }
    if on(1 | 2 | 4 | 32) {
        let (verdict, conf, _) = parse_setup(&q, channels as u32);
        check(verdict == Verdict::Legal, "the rewritten setup header is legal");
        let c2 = match conf {
            Some(c) => c,
            None => return,
        };
        if on(32) {
            check_same_config(s, &c2);
        }
        if on(1) {
            check_codes(s, &c2, &before);
        }
        if on(2 | 4) {
            check_packets(c2, channels, sizes, packets, &before, &out);
        }
    }
    if on(64) && before.iter().all(|a| a.end != End::Cut) {
        heads.push(q);
        heads.extend(out.into_iter().flatten());
        check_again(&settings, &heads);
    }
    check(true, "no panic");
    cover("optimised");
}

/// a second run over an optimised stream writes the same stream
fn check_again(settings: &VorbisOptimizerSettings, stream: &[Vec<u8>]) {
    let mut o = match VorbisOptimizer::new(settings, &stream[0][..]) {
        Ok(o) => o,
        Err(_) => return check(false, "the written identification header is accepted"),
    };
    for p in &stream[1..] {
        if o.analyze_packet(&p[..]).is_err() {
            return check(false, "what was written is accepted");
        }
    }
    for p in stream {
        match o.optimize_packet(&p[..]) {
            Ok(Some((q, _))) => check(same(&q, p), "optimising again changes nothing"),
            _ => check(false, "what was written is written again"),
        }
    }
    cover("twice");
}

fn started_with(settings: &VorbisOptimizerSettings, channels: u8, bs: (u32, u32)) -> Option<VorbisOptimizer<'_>> {
    let id = ident_packet(channels, 44100, bs.0, bs.1);
    let mut o = VorbisOptimizer::new(settings, &id[..]).ok()?;
    match o.analyze_packet(comment_packet(b"x", &[])) {
        Ok(None) => Some(o),
        _ => None,
    }
}

fn check_codes(s: &Setup, c2: &Setup, audio: &[Audio]) {
    for (i, b) in c2.books.iter().enumerate() {
        let mut used = vec![0u64; s.books[i].lens.len()];
        for a in audio {
            for e in &a.evs {
                if let Ev::Entry(k, n) = e {
                    if *k == i {
                        used[*n] += 1;
                    }
                }
            }
        }
        if used.len() != b.lens.len() {
            return check(false, "codebook entry count is kept");
        }
        let mut cost = 0;
        for (u, l) in used.iter().zip(&b.lens) {
            check((*u > 0) == (*l > 0), "exactly the used entries have a codeword");
            cost += u * *l as u64;
        }
        check(full(&b.lens), "the codewords form a full prefix code");
        check(cost == huffman_cost(&used), "no other prefix code is cheaper");
    }
}

fn check_packets(c2: Setup, channels: u8, sizes: [usize; 2], packets: &[Vec<u8>], before: &[Audio], out: &[Option<Vec<u8>>]) {
    let dec = Dec::new(c2, channels as usize, sizes);
    let (mut old, mut new, mut cut) = (0, 0, false);
    for ((p, a), q) in packets.iter().zip(before).zip(out) {
        let q = match q {
            Some(q) => q,
            None => {
                check(a.end == End::NoMode, "packets with audio are kept");
                continue;
            }
        };
        let b = dec.decode(q);
        match a.end {
            End::Complete => {
                check(b.end == End::Complete, "the rewritten packet is complete");
                if on(2) {
                    check(a.evs.len() == b.evs.len(), "the rewritten packet holds the same number of values");
                    check(same_events(&a.evs, &b.evs), "the rewritten packet holds the same values");
                }
                if on(4) {
                    check(q.len() == (b.bits + 7) / 8, "a packet has no trailing data");
                }
                old += a.bits;
                new += b.bits;
                if p.len() > (a.bits + 7) / 8 {
                    cover("trailing data");
                }
            }
            _ => {
                cut = true;
                if on(2) {
                    check(a.evs.len() <= b.evs.len(), "a cut packet keeps its values");
                    check(same_events(&a.evs, &b.evs), "a cut packet holds the same values up to the cut");
                }
                cover("cut packet");
            }
        }
    }
    if on(4) && !cut {
        check(new <= old, "the audio data does not grow");
        if new < old {
            cover("shrinks");
        }
    }
}

/// a packet of `n` bytes that starts with a clear bit, all other bits arbitrary
fn packet(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i == 0 { (bits(7, "packet") << 1) as u8 } else { bits(8, "packet") as u8 });
    }
    v
}

fn scalar(lens: &[u8]) -> Book {
    scalar_book(lens)
}
fn vq(lens: &[u8], dims: u64) -> Book {
    let mut b = scalar_book(lens);
    b.dims = dims;
    b.lookup = 2;
    b.vbits = 1;
    b.mult = vec![0; lens.len() * dims as usize];
    b
}
fn class(dim: u64, sub: u32, master: u64, books: &[u64]) -> Class {
    Class { dim, sub, master, books: books.to_vec() }
}

/// one channel, the floor has partitions and classes, no residue
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_floor() {
    let n = param(1);
    let mut s = min_setup(1);
    s.books = vec![scalar(&[1, 2, 2]), scalar(&[2, 2, 2, 2]), scalar(&[0, 1, 0]), scalar(&[1, 0, 2, 3, 3])];
    let (parts, classes): (&[u64], Vec<Class>) = match choice(6, "shape") {
        0 => (&[0], vec![class(2, 0, 0, &[1])]),
        1 => (&[0, 0], vec![class(1, 1, 0, &[1, 2])]),
        2 => (&[0], vec![class(3, 1, 1, &[0, 4])]),
        3 => (&[1, 0], vec![class(1, 0, 0, &[3]), class(2, 2, 3, &[1, 0, 4, 2])]),
        4 => (&[0, 1, 0], vec![class(1, 0, 0, &[0]), class(1, 3, 3, &[0, 1, 2, 3, 4, 0, 0, 1])]),
        _ => (&[1], vec![class(4, 2, 2, &[9, 9, 9, 9]), class(4, 0, 0, &[3])]),
    };
    let mut classes = classes;
    for c in &mut classes {
        for b in &mut c.books {
            if *b == 9 {
                *b = 0;
            }
        }
    }
    let k: u64 = parts.iter().map(|p| classes[*p as usize].dim).sum();
    let xs: Vec<u64> = (1..=k).collect();
    let mult = 1 + choice(4, "multiplier") as u64;
    s.floors[0] = floor(parts, classes, mult, 5, &xs);
    run_stream(&s, 1, (6, 6), &[packet(n)]);
}

/// residues
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_residue() {
    let (n, two) = (param(1), param(2));
    let channels = 1 + choice(two, "channels");
    let mut s = min_setup(channels as u32);
    let ty = choice(3, "type") as u64;
    // block size 64: vectors of 32 (interleaved: 32 per channel)
    let (begin, end, psize) = pick(&[(0, 32, 16), (8, 31, 8), (20, 4000, 4), (33, 64, 16), (0, 7, 8), (31, 32, 1)], "range");
    let few = channels == 2 || param(3) == 0;
    assume(!few || psize >= 8);
    let (cw, classes, lens, d): (u64, u64, &[u8], u64) = match choice(5, "classbook") {
        0 => (1, 2, &[1, 1], (psize / 2).max(1)),
        1 => (2, 2, &[2, 2, 2, 2], psize),
        2 => (3, 1, &[0, 1], psize),
        3 => (2, 3, &[1, 3, 3, 4, 4, 0, 4, 0, 4], psize),
        _ => (1, 2, &[1, 1], pick(&[3, 0], "odd dimensions")),
    };
    // dimensions that do not divide the partition size are an error
    let mut cb = scalar(lens);
    cb.dims = cw;
    s.books = vec![cb, vq(&[1, 1], d), vq(&[0, 2, 1], psize), scalar(&[1, 1])];
    let cas: &[u64] = pick(&[&[1, 0, 128], &[3, 5, 1], &[0, 130, 0]], "cascade");
    let mut r = Residue { ty, begin, end, psize, classes, classbook: 0, cascade: vec![], books: vec![] };
    for i in 0..classes as usize {
        r.cascade.push(cas[i]);
        let k = cas[i].count_ones() as usize;
        r.books.push([&[1, 2][..], &[2, 1], &[1, 3]][i][..k].to_vec());
    }
    s.residues[0] = r;
    s.floors[0] = floor(&[], vec![], 4, 1, &[]);
    run_stream(&s, channels as u8, (6, 6), &[packet(n)]);
}

/// modes, block sizes, packets of any length and content
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_modes() {
    let (n, packets) = (param(1), param(2));
    let mut s = min_setup(1);
    s.books = vec![scalar(&[1, 1]), scalar(&[1, 2, 2])];
    s.floors = vec![floor(&[], vec![], 4, 1, &[]), floor(&[0], vec![class(1, 0, 0, &[2])], 4, 3, &[1])];
    s.mappings.push(mapping(&[], &[0], &[(0, 1, 0)]));
    let k = pick(&[1, 2, 3, 5], "modes");
    s.modes = (0..k).map(|i| mode((i & 1) ^ (k == 1 && flip("big")) as u64, i & 1)).collect();
    let bs = pick(&[(6, 6), (6, 8), (7, 13), (13, 13)], "block sizes");
    let mut v = vec![];
    for i in 0..packets {
        let l = choice(n + 1, "length");
        v.push(if i == 0 { sym_vec(l, "packet") } else { packet(l) });
    }
    run_stream(&s, 1, bs, &v);
}

/// several channels, submaps, coupling
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_maps() {
    let n = param(1);
    let channels = 2 + choice(2, "channels");
    let mut s = min_setup(channels as u32);
    s.books = vec![scalar(&[1, 1]), vq(&[1, 1], 16), vq(&[1, 2, 2], 16)];
    s.floors = vec![floor(&[], vec![], 4, 1, &[]), floor(&[0], vec![class(1, 0, 0, &[1])], 4, 3, &[1])];
    let res = |ty, book| Residue { ty, begin: 0, end: 16, psize: 16, classes: 1, classbook: 0, cascade: vec![1], books: vec![vec![book]] };
    s.residues = vec![res(pick(&[0, 2], "type"), 1), res(pick(&[1, 2], "type"), 2)];
    let coupling: &[(u64, u64)] = match choice(if channels == 2 { 3 } else { 4 }, "coupling") {
        0 => &[],
        1 => &[(0, 1)],
        2 => &[(1, 0)],
        _ => &[(0, 2), (2, 1)],
    };
    let mux: &[u64] = pick(&[&[0, 0, 0], &[0, 1, 0], &[1, 0, 1], &[1, 1, 1]], "mux");
    let mut subs = vec![(0, 0, 0), (0, 1, 1)];
    if mux[0] == 0 && mux[1] == 0 && flip("one submap") {
        subs.truncate(1);
    }
    s.mappings[0] = mapping(coupling, &mux[..channels], &subs);
    run_stream(&s, channels as u8, (6, 6), &[packet(n)]);
}

/// usage counts over several packets
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_stats() {
    let (n, packets, deep) = (param(1), param(2), param(3));
    let mut s = min_setup(1);
    let lens: &[u8] = [&[2, 2, 2, 2][..], &[1, 2, 3, 3], &[3, 0, 2, 1, 3], &[2, 3, 3, 2, 2], &[1, 2, 3, 4, 5, 5], &[3, 3, 3, 3, 3, 3, 3, 3]]
        [choice(deep, "lengths")];
    s.books = vec![scalar(lens), scalar(&[1, 1])];
    if flip("ordered") {
        assume(lens.windows(2).all(|w| w[0] <= w[1]) && lens[0] > 0);
        s.books[0].form = Form::Ordered;
    }
    s.floors = vec![floor(&[0], vec![class(param(4) as u64, 0, 0, &[1])], 4, 5, &(1..=param(4) as u64).collect::<Vec<_>>())];
    let v: Vec<_> = (0..packets).map(|_| packet(n)).collect();
    run_stream(&s, 1, (6, 6), &v);
}

/// arbitrary bits up to the end of a packet of `n` bytes
fn pad(o: &mut BW, n: usize) {
    while o.v.len() < n || o.pos % 8 != 0 {
        let w = 8 - o.pos % 8;
        let x = bits(w as u32, "packet");
        o.put(x, w as u32);
    }
}

/// streams that reach the limits of the format
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_aud_big() {
    let mut s = min_setup(1);
    s.floors = vec![floor(&[0], vec![class(1, 0, 0, &[1])], 4, 3, &[1])];
    let mut o = BW::new();
    o.put(0, 1);
    match param(1) {
        // codewords of up to 32 bits
        0 => {
            let mut l: Vec<u8> = (1..33).collect();
            l.push(32);
            if flip("reversed") {
                l.reverse();
            }
            s.books[0] = scalar(&l);
            o.put(1, 1);
            o.put(bits(12, "posts"), 12);
            pad(&mut o, 7);
            let mut p = BW::new();
            p.put(1 << 1, 14);
            pad(&mut p, param(2));
            run_stream(&s, 1, (6, 6), &[o.v, p.v]);
        }
        // hundreds of entries
        1 => {
            let mut l = vec![9u8; 88];
            l.extend([8u8; 212]);
            let k = param(2);
            l.rotate_left(k);
            s.books[0] = scalar(&l);
            o.put(1, 1);
            o.put(bits(12, "posts"), 12);
            let x = bits(9, "entry");
            o.put(x, 9);
            pad(&mut o, 3);
            let mut p = BW::new();
            p.put(2, 14);
            p.put(0x155, 9);
            run_stream(&s, 1, (6, 6), &[p.v.clone(), o.v, p.v]);
        }
        // many codebooks
        2 => {
            s.books = vec![scalar(&[1, 1]); 256];
            s.books[255] = scalar(&[1, 2, 2]);
            s.books[254] = vq(&[2, 1, 2], 8);
            s.books[127] = scalar(&[2, 2, 2, 2]);
            s.books[128] = scalar(&[3, 1, 2, 3]);
            s.floors = vec![floor(&[0], vec![class(1, 1, 127, &[128 + 1, 255])], 4, 3, &[1])];
            s.residues[0] = Residue { ty: 1, begin: 0, end: 8, psize: 8, classes: 2, classbook: 255, cascade: vec![1, 2], books: vec![vec![254], vec![254]] };
            pad(&mut o, 4);
            run_stream(&s, 1, (6, 6), &[o.v]);
        }
        // very uneven usage counts: long codewords are written
        3 => {
            let n = param(2);
            let mut l: Vec<u8> = vec![4; n.min(16)];
            if n < 16 {
                l = (0..n).map(|i| if i < 16 - n { 3 } else { 4 }).collect();
            }
            s.books = vec![scalar(&[1, 1]), vq(&l, 1)];
            s.residues[0] = Residue { ty: 1, begin: 0, end: 4096, psize: 4096, classes: 2, classbook: 0, cascade: vec![1, 0], books: vec![vec![1], vec![]] };
            s.floors = vec![floor(&[], vec![], 4, 1, &[])];
            // entry i is used F(i) times, the last entries are left to the other packet
            let words = codewords(&l);
            o.put(1, 1);
            o.put(0, 12);
            o.put(0, 1);
            let (mut a, mut b) = (1usize, 1usize);
            for (w, len) in &words[..n] {
                for _ in 0..a {
                    o.put(*w as u64, *len);
                }
                (a, b) = (b, a + b);
            }
            let mut p = BW::new();
            p.put(2, 14);
            p.put(0, 1);
            pad(&mut p, 2 + param(3));
            run_stream(&s, 1, (13, 13), &[o.v, p.v]);
        }
        // more channels than the optimizer keeps on the stack
        4 => {
            let n = 9 + choice(2, "channels") * 8;
            s.books = vec![scalar(&[1, 1]), vq(&[1, 1], 16)];
            s.floors = vec![floor(&[], vec![], 4, 1, &[])];
            s.residues = vec![Residue { ty: pick(&[0, 2], "type"), begin: 0, end: 16, psize: 16, classes: 1, classbook: 0, cascade: vec![1], books: vec![vec![1]] }];
            s.mappings[0] = mapping(&[(n as u64 - 1, 0), (2, n as u64 - 2)], &vec![0; n], &[(0, 0, 0)]);
            for c in 0..n {
                let e = if c < 3 || c + 2 >= n { bits(1, "energy") } else { 0 };
                o.put(e, 1);
                if conc(e) == 1 {
                    o.put(bits(12, "posts"), 12);
                }
            }
            let l = o.v.len() + 1;
            pad(&mut o, l);
            run_stream(&s, n as u8, (6, 6), &[o.v]);
        }
        // many partitions
        5 => {
            let cw = pick(&[1, 2, 7], "classwords");
            s.books = vec![scalar(&[1; 2]), vq(&[1, 1], 4)];
            let mut k = 1;
            for _ in 0..cw {
                k *= 2;
            }
            s.books[0] = scalar(&vec![cw as u8; k]);
            s.books[0].dims = cw;
            s.floors = vec![floor(&[], vec![], 4, 1, &[])];
            s.residues = vec![Residue { ty: pick(&[1, 2], "type"), begin: 0, end: 1024, psize: 4, classes: 2, classbook: 0, cascade: vec![0, 4], books: vec![vec![], vec![1]] }];
            o.put(1, 1);
            o.put(bits(12, "posts"), 12);
            let n = 256 / cw as usize;
            let at = pick(&[0, 126, 130, 255], "position") / cw as usize;
            for i in 0..=n {
                o.put(if i == at || i == at + 1 && cw < 7 { bits(cw as u32, "classes") } else { 0 }, cw as u32);
            }
            let l = o.v.len() + 1;
            pad(&mut o, l);
            run_stream(&s, 1, (6, 11), &[o.v]);
        }
        // entries that are used very often, next to some that are used about as often as each other
        7 => {
            s.books = vec![scalar(&[1]), vq(&[1, 3, 3, 3, 3], 1)];
            s.residues[0] = Residue { ty: 0, begin: 0, end: 4096, psize: 4096, classes: 1, classbook: 0, cascade: vec![1], books: vec![vec![0]] };
            s.residues[0].books[0][0] = 1;
            s.floors = vec![floor(&[], vec![], 4, 1, &[])];
            let mut packets = vec![];
            for k in 0..param(2) {
                let mut o = BW::new();
                o.put(0, 1);
                o.put(1, 1);
                o.put(0, 12);
                o.put(0, 1);
                for i in 0..4096u64 {
                    if i % 4 != 0 {
                        o.put(0, 1);
                    } else {
                        o.put(1, 1);
                        o.put(if k == 0 && i < 12 { bits(2, "entry") } else { i / 4 % 4 }, 2);
                    }
                }
                packets.push(o.v);
            }
            run_stream(&s, 1, (13, 13), &packets);
        }
        // as many modes, mappings, floors, residues and submaps as there can be
        _ => {
            s.books = vec![scalar(&[1, 1]), vq(&[1, 1], 16), scalar(&[1, 2, 2])];
            let f = s.floors[0].clone();
            s.floors = vec![floor(&[], vec![], 4, 1, &[]); 64];
            s.floors[63] = f;
            s.residues = vec![s.residues[0].clone(); 64];
            s.residues[63] = Residue { ty: 0, begin: 0, end: 16, psize: 16, classes: 1, classbook: 2, cascade: vec![128], books: vec![vec![1]] };
            s.mappings = vec![mapping(&[], &[0], &[(0, 0, 0)]); 64];
            let mut subs = vec![(0, 0, 0); 16];
            subs[15] = (0, 63, 63);
            subs[8] = (0, 63, 0);
            s.mappings[63] = mapping(&[], &[15], &subs);
            s.mappings[62] = mapping(&[], &[8], &subs[..9]);
            let k = pick(&[64, 33], "modes");
            s.modes = (0..k).map(|i| mode((i % 3 == 0) as u64, if i < 2 { 0 } else { 63 - i % 2 })).collect();
            pad(&mut o, 5);
            run_stream(&s, 1, (6, 7), &[o.v]);
        }
    }
}

/// sorted codeword lengths of all full prefix codes of `n` codewords
fn profiles(n: usize, max: u8) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut todo: Vec<Vec<u8>> = vec![vec![0]];
    while let Some(p) = todo.pop() {
        if p.len() == n {
            if !out.contains(&p) {
                out.push(p);
            }
            continue;
        }
        for i in 0..p.len() {
            if p[i] < max && (i + 1 == p.len() || p[i + 1] != p[i]) {
                let mut q = p.clone();
                q[i] += 1;
                q.push(p[i] + 1);
                q.sort();
                todo.push(q);
            }
        }
    }
    out
}

/// codeword lengths for arbitrary usage counts
#[cfg(optivorbis_verif)]
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_len_counts() {
    let (n, max, w) = (param(1), param(2), param(3) as u32);
    let counts: Vec<u64> = (0..n).map(|_| bits(w, "count")).collect();
    // bigger codebooks only in one order
    if param(4) == 1 {
        assume(counts[n - 1] > 0);
        for i in 1..n {
            assume(counts[i] <= counts[i - 1]);
        }
    }
    let mut lens = counts.clone();
    optivorbis::verif_codeword_lengths(&mut lens, max as u8);
    let mut sum = 0u64;
    let mut used: Vec<u64> = vec![];
    let mut cost = 0u64;
    for (c, l) in counts.iter().zip(&lens) {
        let l = conc(*l);
        observe(l);
        check((*c == 0) == (l == 0), "exactly the used entries have a codeword");
        check(l <= max as u64, "codewords are not longer than allowed");
        if l > 0 {
            sum += 1 << (32 - l);
            cost += l * *c;
            let mut i = used.len();
            used.push(*c);
            while i > 0 && used[i - 1] < used[i] {
                used.swap(i - 1, i);
                i -= 1;
            }
        }
    }
    match used.len() {
        0 => (),
        1 => check(sum == 1 << 31, "a single used entry has a codeword of one bit"),
        k => {
            check(sum == 1 << 32, "the codewords form a full prefix code");
            for p in profiles(k, max as u8) {
                let mut other = 0u64;
                for (c, l) in used.iter().zip(&p) {
                    other += *l as u64 * *c;
                }
                check(cost <= other, "no other prefix code is cheaper");
            }
            cover("several used entries");
        }
    }
    cover("lengths");
}
