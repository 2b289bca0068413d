//! C10-C13: an object file against the object it was made from.  The parser
//! below follows the Mach-O reference; it shares no code with the writer.
use crate::layout::get;
use crate::rng::Rng;
use crate::{attempt, ensure, Res};
use at_obj::{macho, Object, Reloc, Symbol};

#[derive(Debug, Clone, PartialEq)]
pub struct Sect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub offset: u64,
    pub reloff: u64,
    pub nreloc: u64,
    pub flags: u64,
    /// first index of its relocations in `File::relocs` is not stored: they are
    /// read where the section says they are
    pub relocs: Vec<Rel>,
    pub bytes: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Rel {
    pub address: i32,
    pub symbolnum: u32,
    pub pcrel: bool,
    pub length: u32,
    pub ext: bool,
    pub ty: u32,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Sym {
    pub name: String,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}

#[derive(Debug, Clone)]
pub struct File {
    pub ncmds: u64,
    pub sizeofcmds: u64,
    pub seg: [u64; 9], // cmdsize vmaddr vmsize fileoff filesize maxprot initprot nsects flags
    pub segname: String,
    pub sects: Vec<Sect>,
    pub symtab: [u64; 5], // cmdsize symoff nsyms stroff strsize
    pub symtab_at: usize,
    pub syms: Vec<Sym>,
    pub len: usize,
}

fn fixed(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

pub fn parse(b: &[u8]) -> Result<File, String> {
    let g = |at: usize, w: usize| get(b, at, w).ok_or_else(|| format!("the file ({} bytes) ends before offset {:#x}", b.len(), at + w));
    let slice = |at: u64, n: u64, what: &str| -> Result<&[u8], String> {
        let end = at.checked_add(n).ok_or("offset overflow")?;
        if end > b.len() as u64 {
            return Err(format!("{} at {:#x}..{:#x} is outside the file of {:#x} bytes", what, at, end, b.len()));
        }
        Ok(&b[at as usize..end as usize])
    };
    for (at, want, what) in [(0, 0xfeedfacf, "magic"), (4, 0x01000007, "cpu type"), (8, 3, "cpu subtype"), (12, 1, "file type")] {
        if g(at, 4)? != want {
            return Err(format!("{} is {:#x}", what, g(at, 4)?));
        }
    }
    let (ncmds, sizeofcmds) = (g(16, 4)?, g(20, 4)?);
    let mut at = 32;
    let mut seg = None;
    let mut sects = vec![];
    let mut symtab = None;
    for _ in 0..ncmds {
        let (cmd, size) = (g(at, 4)?, g(at + 4, 4)?);
        match cmd {
            0x19 => {
                let n = g(at + 64, 4)?;
                seg = Some((
                    fixed(slice(at as u64 + 8, 16, "segment name")?),
                    [size, g(at + 24, 8)?, g(at + 32, 8)?, g(at + 40, 8)?, g(at + 48, 8)?, g(at + 56, 4)?, g(at + 60, 4)?, n, g(at + 68, 4)?],
                ));
                for i in 0..n as usize {
                    let s = at + 72 + 80 * i;
                    let (addr, size) = (g(s + 32, 8)?, g(s + 40, 8)?);
                    let (offset, reloff, nreloc, flags) = (g(s + 48, 4)?, g(s + 56, 4)?, g(s + 60, 4)?, g(s + 64, 4)?);
                    let bytes = if flags & 0xff == 1 { vec![] } else { slice(offset, size, "section data")?.to_vec() };
                    let mut relocs = vec![];
                    if nreloc > 0 {
                        slice(reloff, nreloc * 8, "relocation entries")?;
                    }
                    for j in 0..nreloc as usize {
                        let p = reloff as usize + 8 * j;
                        let (a, w) = (g(p, 4)? as u32, g(p + 4, 4)? as u32);
                        relocs.push(Rel { address: a as i32, symbolnum: w & 0xff_ffff, pcrel: w >> 24 & 1 == 1, length: w >> 25 & 3, ext: w >> 27 & 1 == 1, ty: w >> 28 });
                    }
                    sects.push(Sect { sectname: fixed(slice(s as u64, 16, "name")?), segname: fixed(slice(s as u64 + 16, 16, "name")?), addr, size, offset, reloff, nreloc, flags, relocs, bytes });
                }
            }
            2 => symtab = Some((at, [size, g(at + 8, 4)?, g(at + 12, 4)?, g(at + 16, 4)?, g(at + 20, 4)?])),
            _ => return Err(format!("load command {:#x} at {:#x}", cmd, at)),
        }
        if size < 8 {
            return Err("load command of size < 8".into());
        }
        at += size as usize;
    }
    let (segname, seg) = seg.ok_or("no segment command")?;
    let (symtab_at, symtab) = symtab.ok_or("no symtab command")?;
    let strtab = slice(symtab[3], symtab[4], "string table")?;
    slice(symtab[1], symtab[2] * 16, "symbol entries")?;
    let mut syms = vec![];
    for i in 0..symtab[2] as usize {
        let p = symtab[1] as usize + 16 * i;
        let strx = g(p, 4)? as usize;
        if strx >= strtab.len() {
            return Err(format!("symbol {} has its name at {:#x}, outside the string table of {:#x} bytes", i, strx, strtab.len()));
        }
        syms.push(Sym { name: fixed(&strtab[strx..]), ty: b[p + 4], sect: b[p + 5], desc: g(p + 6, 2)? as u16, value: g(p + 8, 8)? });
    }
    Ok(File { ncmds, sizeofcmds, seg, segname, sects, symtab, symtab_at, syms, len: b.len() })
}

pub struct Src {
    pub obj: Object,
    pub show: String,
}

/// mostly small numbers, now and then one around a power of two
fn count(r: &mut Rng, small: usize, rare: usize, top: u32) -> usize {
    if !r.chance(rare) {
        return r.below(small);
    }
    let p = 1usize << r.range(7, top as usize);
    p + r.below(5) - 2
}

fn sym_name(r: &mut Rng) -> String {
    // any ASCII character may stand in a name
    if r.chance(12) {
        let n = if r.chance(10) { count(r, 300, 6, 16) } else { r.below(5) };
        return (0..n).map(|_| if r.chance(3) { *r.pick(&[' ', 'A', 'B', 'a', '\t', '_']) } else { r.range(1, 127) as u8 as char }).collect();
    }
    const POOL: [&str; 16] = ["a", "b", "ab", "ba", "_main", "main", "_start", "start", "x1", "x", "_", "long_symbol_name_0123456789", "L0", "L00", "Ab", "MAIN"];
    if r.chance(2) {
        r.pick(&POOL).to_string()
    } else {
        let n = r.range(1, 6);
        (0..n).map(|_| *r.pick(&['a', 'b', 'x', '_', '.', '0'])).collect()
    }
}

pub fn object(r: &mut Rng) -> Src {
    let mut obj = Object::new();
    let mut show = String::new();
    let mut names: Vec<String> = vec![];
    let mut seen = std::collections::HashSet::new();
    let dense = r.chance(2);
    for k in 0..3 {
        // sections with contents, with symbols only, or not there at all
        let shape = if dense { r.range(1, 3) } else { r.below(4) };
        let size = if shape & 1 == 0 { 0 } else if k == 2 && r.chance(3) { let w = *r.pick(&[4, 4, 7]); r.val(w) as usize } else { 1 + count(r, 40, 40, 16) };
        let nsym = if shape & 2 == 0 && !r.chance(4) { 0 } else { count(r, 5, 150, 9) };
        let mut syms = vec![];
        for _ in 0..nsym {
            let mut name = sym_name(r);
            // duplicates now and then
            if !r.chance(10) {
                while seen.contains(&name) {
                    name = format!("{}{}", name, if names.len() > 20 { r.below(99999).to_string() } else { r.pick(&["y", "z", "_"]).to_string() });
                }
            }
            seen.insert(name.clone());
            names.push(name.clone());
            syms.push(match r.below(6) {
                0 => Symbol::Undef { name },
                1 => Symbol::Abs { name, val: r.val(8), ext: r.chance(2) },
                _ => Symbol::Ref { name, addr: if r.chance(8) { r.val(6) } else { r.below(size + 1) as u64 }, ext: r.chance(2) },
            });
        }
        let bytes: Vec<u8> = if k < 2 { (0..size).map(|_| r.next() as u8).collect() } else { vec![] };
        show += &format!("  {} size {:#x} symbols {:?}\n", [".text", ".data", ".bss"][k], size, syms);
        match k {
            0 => {
                obj.sections.text.bytes = bytes;
                obj.sections.text.symbols = syms;
            }
            1 => {
                obj.sections.data.bytes = bytes;
                obj.sections.data.symbols = syms;
            }
            _ => {
                obj.sections.bss.size = size as u64;
                obj.sections.bss.symbols = syms;
            }
        }
    }
    for k in 0..2 {
        let (len, present) = match k {
            0 => (obj.sections.text.bytes.len(), !obj.sections.text.bytes.is_empty() || !obj.sections.text.symbols.is_empty()),
            _ => (obj.sections.data.bytes.len(), !obj.sections.data.bytes.is_empty() || !obj.sections.data.symbols.is_empty()),
        };
        if names.is_empty() || !present || r.chance(3) {
            continue;
        }
        for _ in 0..count(r, 5, 60, if names.len() < 9 { 16 } else { 9 }) {
            let rel = Reloc { addr: if r.chance(6) { r.val(4) as i32 } else { r.below(len + 1) as i32 }, symbol: r.pick(&names).clone(), pcrel: r.chance(2), len: r.below(4) as u8 };
            show += &format!("  relocation in {}: addr {} symbol {:?} pcrel {} len {}\n", [".text", ".data"][k], rel.addr, rel.symbol, rel.pcrel, rel.len);
            if k == 0 {
                obj.sections.text.relocs.push(rel)
            } else {
                obj.sections.data.relocs.push(rel)
            }
        }
    }
    Src { obj, show }
}

/// a section of the object, independent of at-obj's own views
pub struct Part<'a> {
    pub k: usize,
    pub bytes: &'a [u8],
    pub size: u64,
    pub syms: &'a [Symbol],
    pub relocs: &'a [Reloc],
}

pub fn parts(o: &Object) -> Vec<Part<'_>> {
    let s = &o.sections;
    let all = vec![
        Part { k: 0, bytes: &s.text.bytes, size: s.text.bytes.len() as u64, syms: &s.text.symbols, relocs: &s.text.relocs },
        Part { k: 1, bytes: &s.data.bytes, size: s.data.bytes.len() as u64, syms: &s.data.symbols, relocs: &s.data.relocs },
        Part { k: 2, bytes: &[], size: s.bss.size, syms: &s.bss.symbols, relocs: &[] },
    ];
    all.into_iter().filter(|p| p.size > 0 || !p.syms.is_empty()).collect()
}

fn name_of(s: &Symbol) -> &str {
    match s {
        Symbol::Undef { name } | Symbol::Abs { name, .. } | Symbol::Ref { name, .. } => name,
    }
}

fn with<T>(r: &mut Rng, check: impl FnOnce(&Object, &[u8], File) -> Result<T, String>) -> Result<T, String> {
    let src = object(r);
    let show: String = src.show.chars().take(9000).collect();
    let ctx = |e: String| format!("object\n{}{}", show, e);
    let mut b = vec![];
    attempt("writing", || macho::write_into(&src.obj, &mut b)).map_err(&ctx)?;
    let f = parse(&b).map_err(|e| ctx(format!("written file: {}\n", e)))?;
    check(&src.obj, &b, f).map_err(|e| ctx(format!("{}\nfile {:02x?}", e, &b[..b.len().min(6000)])))
}

pub fn layout(o: &Object, f: &File, b: &[u8]) -> Res {
    let ps = parts(o);
    let n = ps.len() as u64;
    let cmds = 72 + 80 * n + 24;
    ensure!(f.ncmds == 2 && f.sizeofcmds == cmds, "{} load commands of {} bytes stated, expected 2 of {}", f.ncmds, f.sizeofcmds, cmds);
    ensure!(f.seg[0] == 72 + 80 * n && f.seg[7] == n && f.sects.len() as u64 == n, "segment size {} with {} sections, expected {} sections", f.seg[0], f.seg[7], n);
    ensure!(f.symtab[0] == 24 && f.symtab_at as u64 == 32 + 72 + 80 * n, "symtab command at {:#x}", f.symtab_at);
    let data0 = 32 + cmds;
    let total: u64 = ps.iter().map(|p| p.bytes.len() as u64).sum();
    let padded = (total + 7) / 8 * 8;
    ensure!(f.seg[3] == data0 && f.seg[4] == padded, "segment file range {:#x}+{:#x}, expected {:#x}+{:#x}", f.seg[3], f.seg[4], data0, padded);
    let vm: u64 = ps.iter().map(|p| p.size).sum();
    ensure!(f.seg[1] == 0 && f.seg[2] == vm, "segment memory range {:#x}+{:#x}, expected 0+{:#x}", f.seg[1], f.seg[2], vm);
    let mut at = data0;
    let mut rel = data0 + padded;
    let mut nsym = 0;
    let mut strs = 1;
    for (p, s) in ps.iter().zip(&f.sects) {
        if p.k < 2 {
            ensure!(s.offset == at, "section {} at file offset {:#x}, expected {:#x}", s.sectname, s.offset, at);
            ensure!(s.reloff == rel && s.nreloc == p.relocs.len() as u64 || s.nreloc == 0 && p.relocs.is_empty(), "section {} relocations {}@{:#x}, expected {}@{:#x}", s.sectname, s.nreloc, s.reloff, p.relocs.len(), rel);
        } else {
            ensure!(s.nreloc == 0, "bss has relocations");
        }
        at += p.bytes.len() as u64;
        rel += 8 * p.relocs.len() as u64;
        nsym += p.syms.len() as u64;
        strs += p.syms.iter().map(|x| name_of(x).len() as u64 + 1).sum::<u64>();
    }
    for x in at..data0 + padded {
        ensure!(b.get(x as usize) == Some(&0), "padding byte at {:#x}", x);
    }
    ensure!(f.symtab[1] == rel, "symbol entries at {:#x}, expected {:#x}", f.symtab[1], rel);
    ensure!(f.symtab[2] == nsym, "{} symbol entries, expected {}", f.symtab[2], nsym);
    ensure!(f.symtab[3] == rel + 16 * nsym && f.symtab[4] == strs, "string table {:#x}+{:#x}, expected {:#x}+{:#x}", f.symtab[3], f.symtab[4], rel + 16 * nsym, strs);
    ensure!(f.len as u64 == rel + 16 * nsym + strs, "file of {:#x} bytes, expected {:#x}", f.len, rel + 16 * nsym + strs);
    Ok(())
}

pub fn c10(r: &mut Rng) -> Res {
    with(r, |o, b, f| layout(o, &f, b))
}

pub fn sections(o: &Object, f: &File) -> Res {
    let ps = parts(o);
    ensure!(ps.len() == f.sects.len(), "{} sections, expected {}", f.sects.len(), ps.len());
    let mut addr = 0u64;
    for (p, s) in ps.iter().zip(&f.sects) {
        let (sn, gn, ty) = [("__text", "__TEXT", 0), ("__data", "__DATA", 0), ("__bss", "__DATA", 1)][p.k];
        ensure!(s.sectname == sn && s.segname == gn, "section {},{}, expected {},{}", s.segname, s.sectname, gn, sn);
        let code = if p.k == 0 { 0x8000_0400u64 } else { 0 };
        let rel = if p.relocs.is_empty() { 0 } else { 0x300 };
        ensure!(s.flags == code | rel | ty, "section {} type and attributes {:#x}, expected {:#x}", sn, s.flags, code | rel | ty);
        ensure!(s.size == p.size, "section {} of size {:#x}, expected {:#x}", sn, s.size, p.size);
        ensure!(s.addr == addr, "section {} at address {:#x}, expected {:#x}", sn, s.addr, addr);
        addr += p.size;
        if p.k < 2 {
            ensure!(s.bytes == p.bytes, "section {} has the bytes {:02x?}, expected {:02x?}", sn, s.bytes, p.bytes);
        } else {
            ensure!(s.offset == 0, "bss at file offset {:#x}", s.offset);
        }
    }
    Ok(())
}

pub fn c11(r: &mut Rng) -> Res {
    with(r, |o, _, f| sections(o, &f))
}

pub fn symbols(o: &Object, f: &File) -> Res {
    let mut want = vec![];
    let mut addr = 0u64;
    for (i, p) in parts(o).iter().enumerate() {
        for s in p.syms {
            want.push(match s {
                Symbol::Undef { name } => Sym { name: name.clone(), ty: 0x01, sect: 0, desc: 0, value: 0 },
                Symbol::Abs { name, val, ext } => Sym { name: name.clone(), ty: 0x02 | *ext as u8, sect: 0, desc: 0, value: *val },
                Symbol::Ref { name, addr: a, ext } => Sym { name: name.clone(), ty: 0x0e | *ext as u8, sect: i as u8 + 1, desc: 0, value: addr + a },
            });
        }
        addr += p.size;
    }
    ensure!(want.len() == f.syms.len(), "{} symbol entries, expected {}", f.syms.len(), want.len());
    for (i, (w, g)) in want.iter().zip(&f.syms).enumerate() {
        ensure!(w == g, "symbol entry {} is {:x?}, expected {:x?}", i, g, w);
    }
    Ok(())
}

pub fn c12(r: &mut Rng) -> Res {
    with(r, |o, _, f| symbols(o, &f))
}

pub fn relocs(o: &Object, f: &File) -> Res {
    let ps = parts(o);
    ensure!(ps.len() == f.sects.len(), "{} sections, expected {}", f.sects.len(), ps.len());
    for (p, s) in ps.iter().zip(&f.sects) {
        ensure!(p.relocs.len() == s.relocs.len(), "section {} has {} relocations, expected {}", s.sectname, s.relocs.len(), p.relocs.len());
        for (w, g) in p.relocs.iter().zip(&s.relocs) {
            let name = f.syms.get(g.symbolnum as usize).map(|x| x.name.as_str());
            ensure!(
                g.address == w.addr && g.pcrel == w.pcrel && g.length == w.len as u32 && g.ext && name == Some(&w.symbol[..]),
                "relocation {:?} of section {} refers to {:?}, expected addr {} symbol {:?} pcrel {} len {}", g, s.sectname, name, w.addr, w.symbol, w.pcrel, w.len
            );
        }
    }
    let mut next = None;
    for s in f.sects.iter().filter(|s| s.nreloc > 0) {
        ensure!(next.map_or(true, |n| n == s.reloff), "relocations of {} at {:#x}, expected to follow at {:#x?}", s.sectname, s.reloff, next);
        next = Some(s.reloff + 8 * s.nreloc);
    }
    Ok(())
}

pub fn c13(r: &mut Rng) -> Res {
    with(r, |o, _, f| relocs(o, &f))
}
