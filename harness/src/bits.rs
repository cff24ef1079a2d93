//! Reference implementation of the Vorbis bit packing convention, written from the specification.

#[derive(Default, Clone)]
pub struct BW {
    pub v: Vec<u8>,
    pub pos: usize,
}

impl BW {
    pub fn new() -> Self {
        BW { v: Vec::with_capacity(64), pos: 0 }
    }
    /// appends the `w` low bits of `x`, least significant bit first
    pub fn put(&mut self, x: u64, w: u32) {
        let mut x = if w == 64 { x } else { x & ((1u64 << w) - 1) };
        let mut left = w;
        while left > 0 {
            let o = (self.pos & 7) as u32;
            if o == 0 {
                self.v.push(0);
            }
            let n = if left < 8 - o { left } else { 8 - o };
            let l = self.v.len() - 1;
            self.v[l] |= (((x & ((1u64 << n) - 1)) as u8 as u32) << o) as u8;
            x >>= n;
            left -= n;
            self.pos += n as usize;
        }
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.put(*x as u64, 8);
        }
    }
}

#[derive(Clone)]
pub struct BR<'a> {
    pub v: &'a [u8],
    pub pos: usize,
    pub end: usize,
}

impl<'a> BR<'a> {
    pub fn new(v: &'a [u8]) -> Self {
        BR { v, pos: 0, end: v.len() * 8 }
    }
    /// `None` at the end of the packet (nothing is consumed then)
    pub fn get(&mut self, w: u32) -> Option<u64> {
        if self.pos + w as usize > self.end {
            return None;
        }
        let mut r = 0u64;
        let mut got = 0;
        while got < w {
            let o = (self.pos & 7) as u32;
            let n = if w - got < 8 - o { w - got } else { 8 - o };
            let b = (self.v[self.pos >> 3] as u64 >> o) & ((1u64 << n) - 1);
            r |= b << got;
            got += n;
            self.pos += n as usize;
        }
        Some(r)
    }
}
