//! V01, V02: identification and comment headers.
use super::mk::*;
use super::sym::*;
use optivorbis::*;

fn opt_bytes(r: Result<Option<(std::borrow::Cow<[u8]>, Option<u16>)>, VorbisOptimizerError>) -> Option<Vec<u8>> {
    match r {
        Ok(Some((p, b))) => {
            check(b.is_none(), "headers have no block size");
            Some(p.into_owned())
        }
        Ok(None) => None,
        Err(_) => None,
    }
}

/// any packet as identification header
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_v01_ident() {
    let len = choice(param(0) + 1, "length");
    let p = sym_vec(len, "byte");
    let settings = VorbisOptimizerSettings::default();
    let legal = len >= 30
        && p[0] == 1
        && p[1] == b'v'
        && p[2] == b'o'
        && p[3] == b'r'
        && p[4] == b'b'
        && p[5] == b'i'
        && p[6] == b's'
        && p[7] == 0
        && p[8] == 0
        && p[9] == 0
        && p[10] == 0
        && p[11] != 0
        && (p[12] | p[13] | p[14] | p[15]) != 0
        && p[28] & 15 >= 6
        && p[28] >> 4 <= 13
        && p[28] & 15 <= p[28] >> 4;
    let mut o = match VorbisOptimizer::new(&settings, &p[..]) {
        Ok(o) => {
            check(legal, "only legal identification headers are accepted");
            o
        }
        Err(_) => {
            check(!legal, "legal identification headers are accepted");
            cover("refused");
            return;
        }
    };
    let whole = flip("after the other headers");
    if whole {
        // the channel count only matters for the setup header when it is read
        assume(p[11] == 2);
        check(matches!(o.analyze_packet(comment_packet(b"x", &[])), Ok(None)), "comment header accepted");
        check(matches!(o.analyze_packet(setup_packet(&min_setup(2), 2)), Ok(None)), "setup header accepted");
    }
    let q = opt_bytes(o.optimize_packet(&p[..]));
    match q {
        Some(q) => {
            check(q.len() == 30, "30 bytes");
            if q.len() == 30 {
                check(same(&q[..29], &p[..29]), "fields are kept");
                check(q[29] == 1, "framing bit set");
            }
            observe_bytes(&q);
            cover("copied");
        }
        None => check(false, "accepted identification headers are copied"),
    }
}

fn le(p: &[u8], at: usize) -> Option<usize> {
    if at + 4 > p.len() {
        return None;
    }
    Some(u32::from_le_bytes([p[at], p[at + 1], p[at + 2], p[at + 3]]) as usize)
}

/// does `v` end with "; " and one of the two tags
fn tagged(v: &[u8]) -> bool {
    for t in [OPTIVORBIS_VERSION_TAG, OPTIVORBIS_SHORT_VERSION_TAG] {
        let t = t.as_bytes();
        if v.len() >= t.len() + 2 {
            let k = v.len() - t.len() - 2;
            if same(&v[k..k + 2], b"; ") && same(&v[k + 2..], t) {
                return true;
            }
        }
    }
    false
}

fn actions() -> (usize, usize, VorbisOptimizerSettings) {
    let (va, ca) = (choice(5, "vendor action"), choice(2, "comment action"));
    let mut s = VorbisOptimizerSettings::default();
    s.vendor_string_action = [
        VorbisVendorStringAction::Copy,
        VorbisVendorStringAction::Replace,
        VorbisVendorStringAction::AppendTag,
        VorbisVendorStringAction::AppendShortTag,
        VorbisVendorStringAction::Empty,
    ][va];
    s.comment_fields_action = [VorbisCommentFieldsAction::Copy, VorbisCommentFieldsAction::Delete][ca];
    (va, ca, s)
}

/// reference: the contents of the output header for the header contents `p`
fn expected(p: &[u8], va: usize, ca: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut comments = vec![];
    let vl = match le(p, 0) {
        Some(n) if 4 + n <= p.len() => n,
        _ => return (vec![], comments),
    };
    let raw = &p[4..4 + vl];
    let mut vendor = raw.to_vec();
    match va {
        0 => (),
        1 => vendor = OPTIVORBIS_VERSION_TAG.as_bytes().to_vec(),
        4 => vendor = vec![],
        _ => {
            if !tagged(raw) {
                vendor.extend_from_slice(b"; ");
                vendor.extend_from_slice(if va == 2 { OPTIVORBIS_VERSION_TAG } else { OPTIVORBIS_SHORT_VERSION_TAG }.as_bytes());
            }
        }
    }
    let n = match le(p, 4 + vl) {
        Some(n) => n,
        None => return (vendor, comments),
    };
    if ca == 0 {
        let mut at = 8 + vl;
        for _ in 0..n {
            match le(p, at) {
                Some(l) if at + 4 + l <= p.len() => {
                    comments.push(p[at + 4..at + 4 + l].to_vec());
                    at += 4 + l;
                }
                _ => break,
            }
        }
    }
    (vendor, comments)
}

fn check_comment(packet: &[u8], body: Option<&[u8]>, va: usize, ca: usize, settings: &VorbisOptimizerSettings) {
    let id = ident_packet(1, 44100, 6, 6);
    let mut o = match VorbisOptimizer::new(settings, &id[..]) {
        Ok(o) => o,
        Err(_) => return check(false, "identification header accepted"),
    };
    match o.analyze_packet(packet) {
        Ok(b) => {
            check(body.is_some(), "only comment headers are accepted");
            check(b.is_none(), "comment headers have no block size");
        }
        Err(_) => {
            check(body.is_none(), "comment headers are accepted, even truncated ones");
            cover("refused");
            return;
        }
    }
    let body = match body {
        Some(b) => b,
        None => return,
    };
    check(matches!(o.analyze_packet(setup_packet(&min_setup(1), 1)), Ok(None)), "setup header accepted");
    check(opt_bytes(o.optimize_packet(&id[..])).is_some(), "identification header copied");
    let q = match opt_bytes(o.optimize_packet(packet)) {
        Some(q) => q,
        None => return check(false, "comment header is written"),
    };
    let (vendor, comments) = expected(body, va, ca);
    let refs: Vec<&[u8]> = comments.iter().map(|c| &c[..]).collect();
    let want = comment_packet(&vendor, &refs);
    observe_bytes(&q);
    check(q.len() == want.len(), "comment header length");
    if q.len() == want.len() {
        check(same(&q[..7], &want[..7]), "type and signature");
        check(same(&q[7..11 + vendor.len()], &want[7..11 + vendor.len()]), "vendor string");
        check(same(&q[11 + vendor.len()..q.len() - 1], &want[11 + vendor.len()..q.len() - 1]), "comments");
        check(q[q.len() - 1] == 1, "framing bit set");
    }
    if !comments.is_empty() {
        cover("with comments");
    }
}

/// any bytes as comment header (all lengths up to the bound, all contents)
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_v02_any() {
    let len = choice(param(0) + 1, "length");
    let (va, ca, settings) = actions();
    let p = sym_vec(len, "byte");
    let mut body: Option<&[u8]> = Some(&[]);
    if len >= 7 {
        let sig = p[0] == 3 && p[1] == b'v' && p[2] == b'o' && p[3] == b'r' && p[4] == b'b' && p[5] == b'i' && p[6] == b's';
        body = if sig { Some(&p[7..]) } else { None };
    }
    check_comment(&p, body, va, ca, &settings);
    cover("any bytes");
}

/// well-formed comment headers with symbolic contents, cut short anywhere or with trailing data
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_v02_structured() {
    let (va, ca, settings) = actions();
    let vl = choice(param(0) + 1, "vendor length");
    let n = choice(param(1) + 1, "comments");
    let vendor = sym_vec(vl, "vendor");
    let mut cs: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let l = choice(3, "comment length");
        cs.push(sym_vec(l, "comment"));
    }
    let refs: Vec<&[u8]> = cs.iter().map(|c| &c[..]).collect();
    let mut p = comment_packet(&vendor, &refs);
    p.push(bits(8, "trailing") as u8);
    let cut = choice(p.len() + 1, "packet length");
    p.truncate(cut);
    let body: &[u8] = if p.len() < 7 { &[] } else { &p[7..] };
    check_comment(&p, Some(body), va, ca, &settings);
    cover("structured");
}

/// vendor strings around the tags: a symbolic prefix, a separator and a tag that may be altered in
/// one place, a symbolic suffix
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_v02_tags() {
    let (va, ca, settings) = actions();
    let tag = [OPTIVORBIS_VERSION_TAG, OPTIVORBIS_SHORT_VERSION_TAG][choice(2, "tag")].as_bytes();
    let mut vendor = sym_vec(choice(param(0) + 1, "prefix length"), "prefix");
    let mut mid = b"; ".to_vec();
    mid.extend_from_slice(tag);
    let drop = choice(4, "drop");
    let mid = &mid[drop..];
    let at = choice(mid.len() + 1, "altered position");
    for (i, b) in mid.iter().enumerate() {
        vendor.push(if i == at { bits(8, "altered") as u8 } else { *b });
    }
    vendor.extend(sym_vec(choice(2, "suffix length"), "suffix"));
    let p = comment_packet(&vendor, &[b"a=b", b""]);
    check_comment(&p, Some(&p[7..]), va, ca, &settings);
    if tagged(&vendor) {
        cover("already tagged");
    } else {
        cover("not tagged");
    }
}
