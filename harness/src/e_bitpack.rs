//! B01, B02, B03: the bit packing crate.
use super::bits::*;
use super::sym::*;
use std::io::{Cursor, Read};
use vorbis_bitpack::*;

fn w(n: u32) -> BitpackedIntegerWidth {
    BitpackedIntegerWidth::new(n as u8).unwrap()
}
fn mask(n: u32) -> u64 {
    (1u64 << n) - 1
}
fn sext(v: u64, n: u32) -> i32 {
    if n == 0 {
        return 0;
    }
    let v = (v & mask(n)) as u32;
    let s = 32 - n;
    ((v << s) as i32) >> s
}

/// kind: 0 unsigned, 1 signed, 2 flag
fn write(b: &mut BitpackWriter<&mut Vec<u8>>, kind: usize, v: u64, n: u32) {
    let ok = match kind {
        0 => b.write_unsigned_integer(v as u32, w(n)).is_ok(),
        1 => b.write_signed_integer(v as u32 as i32, w(n)).is_ok(),
        _ => b.write_flag(v != 0).is_ok(),
    };
    check(ok, "write succeeds");
}
fn read<R: Read>(r: &mut BitpackReader<R>, kind: usize, n: u32) -> Option<u64> {
    match kind {
        0 => r.read_unsigned_integer(w(n)).ok().map(|v| v as u64),
        1 => r.read_signed_integer(w(n)).ok().map(|v| v as u32 as u64),
        _ => r.read_flag().ok().map(|v| v as u64),
    }
}
fn expect(kind: usize, v: u64, n: u32) -> u64 {
    match kind {
        0 => v & mask(n),
        1 => sext(v, n) as u32 as u64,
        _ => (v & 1 != 0) as u64,
    }
}

/// three consecutive writes of any kind, width and value, the first one bringing the writer to any
/// position inside a byte; then reading back
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_b01_roundtrip() {
    let mut rf = BW::new();
    let mut buf = Vec::new();
    let mut ops = Vec::new();
    // alignment in between
    let aligned = pick(&[None, Some(0), Some(1)], "align after");
    let mut done = 0;
    for i in 0..3 {
        let kind = choice(3, "kind");
        let n = if kind == 2 {
            1
        } else if i == 0 {
            choice(8, "width") as u32
        } else {
            choice(33, "width") as u32
        };
        let v = bits(if kind == 2 { 1 } else { 32 }, "value");
        if i == 0 && kind != 0 {
            // the position is what matters
            assume(false);
        }
        ops.push((kind, n, v));
    }
    {
        let mut b = BitpackWriter::new(&mut buf);
        for (k, n, v) in &ops {
            write(&mut b, *k, *v, *n);
            rf.put(*v, *n);
            if aligned == Some(done) {
                check(b.finalize().is_ok(), "finalize");
                rf.pos = (rf.pos + 7) & !7;
            }
            done += 1;
        }
        if flip("finalize") {
            check(b.finalize().is_ok(), "finalize");
            check(b.finalize().is_ok(), "finalize again");
        }
    }
    check(same(&buf, &rf.v), "bytes written are the packed bits");
    let mut r = BitpackReader::new(Cursor::new(&buf[..]));
    let (mut done, mut pos) = (0, 0);
    for (k, n, v) in &ops {
        pos += *n;
        let got = read(&mut r, *k, *n);
        check(got.is_some(), "read back succeeds");
        check(got == Some(expect(*k, *v, *n)), "read back equals written");
        if aligned == Some(done) {
            // skip the padding
            let pad = (8 - pos % 8) % 8;
            check(read(&mut r, 0, pad) == Some(0), "the padding is zero");
            pos += pad;
        }
        done += 1;
    }
    observe_bytes(&buf);
    cover("round trip");
}

/// reads of any kind and width over a buffer of any length and content
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_b02_read() {
    let len = choice(param(0) + 1, "length");
    let nops = param(1);
    let buf = sym_vec(len, "byte");
    let mut rf = BR::new(&buf);
    let mut cur = Cursor::new(&buf[..]);
    let mut r = BitpackReader::new(&mut cur);
    let mut eof = false;
    for i in 0..nops {
        let kind = if i == 0 { 0 } else { choice(3, "kind") };
        let n = if kind == 2 {
            1
        } else if i == 0 {
            choice(8, "width") as u32
        } else {
            choice(33, "width") as u32
        };
        let e = rf.get(n).map(|v| expect(kind, v, n));
        match kind {
            2 => match r.read_flag() {
                Ok(v) => check(e == Some(v as u64), "flag value"),
                Err(x) => {
                    check(e.is_none(), "no spurious end of data");
                    check(x.kind() == std::io::ErrorKind::UnexpectedEof, "end of data is reported as such");
                }
            },
            _ => {
                let g = if kind == 0 {
                    r.read_unsigned_integer(w(n))
                } else {
                    r.read_signed_integer(w(n)).map(|v| v as u32)
                };
                match g {
                    Ok(v) => {
                        check(e == Some(v as u64), "value read");
                        observe(v as u64);
                    }
                    Err(x) => {
                        check(e.is_none(), "no spurious end of data");
                        check(x.kind() == std::io::ErrorKind::UnexpectedEof, "end of data is reported as such");
                    }
                }
            }
        }
        if e.is_none() {
            eof = true;
            break;
        }
    }
    drop(r);
    if eof {
        cover("end of data");
    } else {
        check(cur.position() as usize == (rf.pos + 7) / 8, "no more bytes are consumed than needed");
        cover("all read");
    }
}

/// the IEEE-754 double that a Vorbis float word denotes: always exactly representable
fn vorbis_float(word: u32) -> u64 {
    let sign = (word as u64 >> 31) << 63;
    let e = ((word >> 21) & 0x3ff) as u64;
    let m = (word & 0x1f_ffff) as u64;
    if m == 0 {
        return sign;
    }
    let p = 63 - m.leading_zeros() as u64;
    sign | ((e + p + 1023 - 788) << 52) | ((m << (52 - p)) & ((1 << 52) - 1))
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_b03_float() {
    let e = choice(1024, "exponent") as u32;
    let word = (e << 21) | bits(21, "mantissa") as u32 | (bits(1, "sign") as u32) << 31;
    let want = vorbis_float(word);
    let f = match BitpackReader::new(Cursor::new(word.to_le_bytes())).read_float32() {
        Ok(f) => f,
        Err(_) => return check(false, "float read succeeds"),
    };
    check(f.to_bits() == want, "unpacked exactly");
    let mut out = Vec::new();
    {
        let mut wr = BitpackWriter::new(&mut out);
        // from the value itself, which the assertion above ties to the real code's
        check(wr.write_float32(f64::from_bits(want)).is_ok(), "write succeeds");
    }
    check(out.len() == 4, "32 bits are written");
    if out.len() == 4 {
        let w2 = u32::from_le_bytes([out[0], out[1], out[2], out[3]]);
        let got = vorbis_float(w2);
        check(got << 1 == want << 1, "packed word denotes the same number");
        check(got == want, "the sign is kept");
        observe(w2 as u64);
    }
    cover("float");
}
