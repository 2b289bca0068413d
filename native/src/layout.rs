//! The on-disk layout of Mach-O records, written from the Mach-O file format
//! reference (loader.h, nlist.h, reloc.h).  A record is a list of fields.

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    /// width in bytes, value
    N(usize, u64),
    Name(String),
    /// relocation_info's second word: symbolnum:24 pcrel:1 length:2 extern:1 type:4
    Bits([u32; 5]),
}

impl F {
    pub fn width(&self) -> usize {
        match self {
            F::N(w, _) => *w,
            F::Name(_) => 16,
            F::Bits(_) => 4,
        }
    }
}

pub fn num(out: &mut Vec<u8>, big: bool, w: usize, v: u64) {
    for i in 0..w {
        let shift = if big { 8 * (w - 1 - i) } else { 8 * i };
        out.push((v >> shift) as u8);
    }
}

pub fn bytes(fields: &[F], big: bool) -> Vec<u8> {
    let mut out = vec![];
    for f in fields {
        match f {
            F::N(w, v) => num(&mut out, big, *w, *v),
            F::Name(s) => {
                let mut b = s.as_bytes().to_vec();
                b.resize(16, 0);
                out.extend(b);
            }
            F::Bits([sym, pcrel, len, ext, ty]) => {
                // bit fields are allocated from the least significant bit on
                // little endian producers and from the most significant one on
                // big endian producers
                let w = if big {
                    sym << 8 | pcrel << 7 | len << 5 | ext << 4 | ty
                } else {
                    sym | pcrel << 24 | len << 25 | ext << 27 | ty << 28
                };
                num(&mut out, big, 4, w as u64);
            }
        }
    }
    out
}

pub fn get(b: &[u8], at: usize, w: usize) -> Option<u64> {
    let mut v = 0u64;
    for i in (0..w).rev() {
        v = v << 8 | *b.get(at + i)? as u64;
    }
    Some(v)
}
