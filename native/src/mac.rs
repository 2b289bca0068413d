//! C04-C09: records of at-mac against the documented layout.
use crate::layout::{bytes, F};
use crate::rng::Rng;
use crate::{attempt, ensure, Res};
use at_mac::{
    header::*,
    load_command::{build_version::*, segment64::*, *},
    nlist::*,
    reloc::*,
    string_table::StringTable,
};
use std::io::Read;

pub const HOST_BIG: bool = cfg!(target_endian = "big");

macro_rules! codes {
    ($name:ident: $ty:ty { $($v:expr => $n:expr,)* }) => { pub const $name: &[($ty, u32)] = &[$(($v, $n)),*]; };
}
codes!(MAGICS: Magic {
    Magic::Magic64 => 0xfeedfacf, Magic::Cigam64 => 0xcffaedfe, Magic::Magic => 0xfeedface, Magic::Cigam => 0xcefaedfe,
    Magic::FatMagic => 0xcafebabe, Magic::FatCigam => 0xbebafeca,
});
codes!(FILETYPES: FileType {
    FileType::Object => 1, FileType::Execute => 2, FileType::FVMLib => 3, FileType::Core => 4, FileType::Preload => 5,
    FileType::Dylib => 6, FileType::Dylinker => 7, FileType::Bundle => 8, FileType::Dsym => 10,
});
codes!(FLAGS: Flag {
    Flag::NoUndefs => 0x1, Flag::IncrLink => 0x2, Flag::DyldLink => 0x4, Flag::BindAtLoad => 0x8, Flag::PreBound => 0x10,
    Flag::SplitSegs => 0x20, Flag::TwoLevel => 0x80, Flag::ForceFlat => 0x100, Flag::NoMultiDefs => 0x200,
    Flag::NoFixPreBinding => 0x400, Flag::PreBindable => 0x800, Flag::AllModsBound => 0x1000,
    Flag::SubsectionsViaSymbols => 0x2000, Flag::Canonical => 0x4000, Flag::Pie => 0x200000, Flag::HasTlvDescriptors => 0x800000,
});
codes!(SECTTYPES: SectionType {
    SectionType::Regular => 0, SectionType::Zerofill => 1, SectionType::CstringLiterals => 2, SectionType::FourByteLiterals => 3,
    SectionType::EightByteLiterals => 4, SectionType::LiteralPointers => 5, SectionType::Coalesced => 11,
});
codes!(SECTATTRS: SectionAttr {
    SectionAttr::PureInstructions => 0x80000000, SectionAttr::NoToc => 0x40000000, SectionAttr::StripStaticSyms => 0x20000000,
    SectionAttr::LiveSupport => 0x08000000, SectionAttr::Debug => 0x02000000, SectionAttr::SomeInstructions => 0x400,
    SectionAttr::ExtReloc => 0x200, SectionAttr::LocReloc => 0x100,
});
codes!(PLATFORMS: Platform {
    Platform::MacOS => 1, Platform::IOS => 2, Platform::TvOS => 3, Platform::WatchOS => 4, Platform::BridgeOS => 5,
    Platform::MacCatalyst => 6, Platform::IOSSimulator => 7, Platform::TvOSSimulator => 8, Platform::WatchOSSimulator => 9,
    Platform::Driverkit => 10,
});
codes!(TOOLS: Tool { Tool::Clang => 1, Tool::Swift => 2, Tool::LD => 3, });
codes!(NTYPES: NType { NType::Undf => 0, NType::Abs => 2, NType::Sect => 0xe, NType::Pbud => 0xc, NType::Indr => 0xa, });
codes!(STABS: DebugSymbol { DebugSymbol::Gsym => 0x20, });
codes!(RLENS: RelocLength { RelocLength::Byte => 0, RelocLength::Word => 1, RelocLength::Long => 2, RelocLength::Quad => 3, });
codes!(X86R: X86RelocType {
    X86RelocType::Vanilla => 0, X86RelocType::Pair => 1, X86RelocType::Sectdiff => 2, X86RelocType::PbLaPtr => 3,
    X86RelocType::LocalSectdiff => 4, X86RelocType::Tlv => 5,
});
codes!(X64R: X86_64RelocType {
    X86_64RelocType::Unsigned => 0, X86_64RelocType::Signed => 1, X86_64RelocType::Branch => 2, X86_64RelocType::GotLoad => 3,
    X86_64RelocType::Got => 4, X86_64RelocType::Subtractor => 5, X86_64RelocType::Signed1 => 6, X86_64RelocType::Signed2 => 7,
    X86_64RelocType::Signed4 => 8, X86_64RelocType::Tlv => 9,
});

#[derive(Clone, Debug)]
pub enum Rec {
    Header(Header64),
    Load(LoadCommand),
    Symtab(SymtabCommand),
    Dysymtab(DysymtabCommand),
    Segment(SegmentCommand64),
    Section(Section64),
    Build(BuildVersionCommand),
    Tool(BuildToolVersion),
    NList(NList64),
    Reloc(RelocationInfo),
}

/// The byte order type is not nameable from outside at-mac: a value of it is
/// what reading a header yields.
macro_rules! endian {
    ($big:expr) => {{
        let mut h = vec![];
        for (w, v) in [(4, 0xfeedfacf), (4, 0x01000007), (4, 3), (4, 1), (4, 0), (4, 0), (4, 0), (4, 0u64)] {
            crate::layout::num(&mut h, $big, w, v);
        }
        Header64::read_from(&mut &h[..]).1
    }};
}

impl Rec {
    pub fn write<W: std::io::Write>(&self, w: &mut W) {
        match self {
            Rec::Header(x) => x.write_into(w),
            Rec::Load(x) => x.write_into(w),
            Rec::Symtab(x) => x.write_into(w),
            Rec::Dysymtab(x) => x.write_into(w),
            Rec::Segment(x) => x.write_into(w),
            Rec::Section(x) => x.write_into(w),
            Rec::Build(x) => x.write_into(w),
            Rec::Tool(x) => x.write_into(w),
            Rec::NList(x) => x.write_into(w),
            Rec::Reloc(x) => x.write_into(w),
        }
    }
    /// reads a record of the same type as `self`
    pub fn read<R: Read>(&self, r: &mut R, big: bool) -> Rec {
        let e = endian!(big);
        match self {
            Rec::Header(_) => Rec::Header(Header64::read_from(r).0),
            Rec::Load(_) => Rec::Load(LoadCommand::read_from_in(r, e)),
            Rec::Symtab(_) => Rec::Symtab(SymtabCommand::read_from_in(r, e)),
            Rec::Dysymtab(_) => Rec::Dysymtab(DysymtabCommand::read_from_in(r, e)),
            Rec::Segment(_) => Rec::Segment(SegmentCommand64::read_from_in(r, e)),
            Rec::Section(_) => Rec::Section(Section64::read_from_in(r, e)),
            Rec::Build(_) => Rec::Build(BuildVersionCommand::read_from_in(r, e)),
            Rec::Tool(_) => Rec::Tool(BuildToolVersion::read_from_in(r, e)),
            Rec::NList(_) => Rec::NList(NList64::read_from_in(r, e)),
            Rec::Reloc(_) => Rec::Reloc(RelocationInfo::read_from_in(r, e)),
        }
    }
    /// equality, flags and attributes taken as sets
    pub fn same(&self, o: &Rec) -> bool {
        fn sect(a: &Section64, b: &Section64) -> bool {
            let strip = |s: &Section64| {
                let mut s = s.clone();
                s.flags.0 = SectionAttrs::new();
                s
            };
            set(&a.flags.0) == set(&b.flags.0) && strip(a) == strip(b)
        }
        match (self, o) {
            (Rec::Header(a), Rec::Header(b)) => {
                let strip = |s: &Header64| {
                    let mut s = s.clone();
                    s.flags = Flags::new();
                    s
                };
                set(&a.flags) == set(&b.flags) && strip(a) == strip(b)
            }
            (Rec::Load(LoadCommand::Segment64(a, s)), Rec::Load(LoadCommand::Segment64(b, t))) => {
                a == b && s.len() == t.len() && s.iter().zip(t).all(|(x, y)| sect(x, y))
            }
            (Rec::Load(a), Rec::Load(b)) => a == b,
            (Rec::Symtab(a), Rec::Symtab(b)) => a == b,
            (Rec::Dysymtab(a), Rec::Dysymtab(b)) => a == b,
            (Rec::Segment(a), Rec::Segment(b)) => a == b,
            (Rec::Section(a), Rec::Section(b)) => sect(a, b),
            (Rec::Build(a), Rec::Build(b)) => a == b,
            (Rec::Tool(a), Rec::Tool(b)) => a == b,
            (Rec::NList(a), Rec::NList(b)) => a == b,
            (Rec::Reloc(a), Rec::Reloc(b)) => a == b,
            _ => false,
        }
    }
}

/// members of a `{A, B}` debug set, sorted, without duplicates
fn set(d: &dyn std::fmt::Debug) -> Vec<String> {
    let s = format!("{:?}", d);
    let mut v: Vec<String> =
        s.trim_matches(|c| c == '{' || c == '}').split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
    v.sort();
    v.dedup();
    v
}

pub fn name(r: &mut Rng, max: usize) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => max,
        _ => r.range(0, max),
    };
    (0..n)
        .map(|_| match r.below(5) {
            0 => r.range(1, 127) as u8 as char,
            1 => '_',
            _ => r.range(b'a' as usize, b'z' as usize) as u8 as char,
        })
        .collect()
}

fn n4(r: &mut Rng) -> u32 {
    r.val(4) as u32
}

fn section(r: &mut Rng) -> (Section64, Vec<F>) {
    let (a, b) = (name(r, 16), name(r, 16));
    let (addr, size) = (r.val(8), r.val(8));
    let w: Vec<u32> = (0..4).map(|_| n4(r)).collect();
    let res: Vec<u32> = (0..3).map(|_| n4(r)).collect();
    let (ty, mut code) = *r.pick(SECTTYPES);
    let mut attrs = SectionAttrs::new();
    for _ in 0..r.below(5) {
        let (x, n) = *r.pick(SECTATTRS);
        attrs.push(x);
        code |= n;
    }
    let f = vec![
        F::Name(a.clone()), F::Name(b.clone()), F::N(8, addr), F::N(8, size), F::N(4, w[0] as u64), F::N(4, w[1] as u64),
        F::N(4, w[2] as u64), F::N(4, w[3] as u64), F::N(4, code as u64), F::N(4, res[0] as u64), F::N(4, res[1] as u64),
        F::N(4, res[2] as u64),
    ];
    (
        Section64 {
            sectname: a, segname: b, addr, size, offset: w[0], align: w[1], reloff: w[2], nreloc: w[3], flags: (attrs, ty),
            reserved1: res[0], reserved2: res[1], reserved3: res[2],
        },
        f,
    )
}

fn segment(r: &mut Rng, nsects: u32) -> (SegmentCommand64, Vec<F>) {
    let segname = name(r, 16);
    let v: Vec<u64> = (0..4).map(|_| r.val(8)).collect();
    let (mp, ip, fl) = (n4(r) as i32, n4(r) as i32, n4(r));
    let cmdsize = 72 + 80 * nsects;
    let f = vec![
        F::N(4, 0x19), F::N(4, cmdsize as u64), F::Name(segname.clone()), F::N(8, v[0]), F::N(8, v[1]), F::N(8, v[2]), F::N(8, v[3]),
        F::N(4, mp as u32 as u64), F::N(4, ip as u32 as u64), F::N(4, nsects as u64), F::N(4, fl as u64),
    ];
    (
        SegmentCommand64 {
            cmd: 0x19, cmdsize, segname, vmaddr: v[0], vmsize: v[1], fileoff: v[2], filesize: v[3], maxprot: mp, initprot: ip,
            nsects, flags: fl,
        },
        f,
    )
}

fn tool(r: &mut Rng) -> (BuildToolVersion, Vec<F>) {
    let (t, n) = *r.pick(TOOLS);
    let v = n4(r);
    (BuildToolVersion { tool: t, version: v }, vec![F::N(4, n as u64), F::N(4, v as u64)])
}

fn version(r: &mut Rng) -> (Version, u64) {
    let (a, b, c) = (r.val(2) as u16, r.val(1) as u8, r.val(1) as u8);
    (Version { major: a, minor: b, release: c }, (a as u64) << 16 | (b as u64) << 8 | c as u64)
}

fn build(r: &mut Rng, ntools: u32) -> (BuildVersionCommand, Vec<F>) {
    let (p, pn) = *r.pick(PLATFORMS);
    let ((m, mn), (s, sn)) = (version(r), version(r));
    let size = 24 + 8 * ntools;
    (
        BuildVersionCommand { cmd: 0x32, cmdsize: size, platform: p, minos: m, sdk: s, ntools },
        vec![F::N(4, 0x32), F::N(4, size as u64), F::N(4, pn as u64), F::N(4, mn), F::N(4, sn), F::N(4, ntools as u64)],
    )
}

fn symtab(r: &mut Rng) -> (SymtabCommand, Vec<F>) {
    let v: Vec<u32> = (0..4).map(|_| n4(r)).collect();
    let mut f = vec![F::N(4, 2), F::N(4, 24)];
    f.extend(v.iter().map(|x| F::N(4, *x as u64)));
    (SymtabCommand { cmd: 2, cmdsize: 24, symoff: v[0], nsyms: v[1], stroff: v[2], strsize: v[3] }, f)
}

fn dysymtab(r: &mut Rng) -> (DysymtabCommand, Vec<F>) {
    let v: Vec<u32> = (0..18).map(|_| n4(r)).collect();
    let mut f = vec![F::N(4, 0xb), F::N(4, 80)];
    f.extend(v.iter().map(|x| F::N(4, *x as u64)));
    (
        DysymtabCommand {
            cmd: 0xb, cmdsize: 80, ilocalsym: v[0], nlocalsym: v[1], iextdefsym: v[2], nextdefsym: v[3], iundefsym: v[4],
            nundefsym: v[5], tocoff: v[6], ntoc: v[7], modtaboff: v[8], nmodtab: v[9], extrefsymoff: v[10], nextrefsyms: v[11],
            indirectsymoff: v[12], nindirectsyms: v[13], extreloff: v[14], nextrel: v[15], locreloff: v[16], nlocrel: v[17],
        },
        f,
    )
}

/// mostly few, now and then many
fn few(r: &mut Rng) -> usize {
    match r.below(160) {
        0 => r.below(700),
        1 => r.below(40),
        2 if r.chance(20) => 65536 + r.below(3),
        _ => r.below(4),
    }
}

pub fn load(r: &mut Rng) -> (LoadCommand, Vec<F>) {
    match r.below(4) {
        0 => {
            let n = few(r);
            let (s, mut f) = segment(r, n as u32);
            let mut v = vec![];
            for _ in 0..n {
                let (x, g) = section(r);
                v.push(x);
                f.extend(g);
            }
            (LoadCommand::Segment64(s, v), f)
        }
        1 => {
            let n = few(r);
            let (s, mut f) = build(r, n as u32);
            let mut v = vec![];
            for _ in 0..n {
                let (x, g) = tool(r);
                v.push(x);
                f.extend(g);
            }
            (LoadCommand::BuildVersion(s, v), f)
        }
        2 => {
            let (s, f) = symtab(r);
            (LoadCommand::Symtab(s), f)
        }
        _ => {
            let (s, f) = dysymtab(r);
            (LoadCommand::Dysymtab(s), f)
        }
    }
}

fn nlist(r: &mut Rng) -> (NList64, Vec<F>) {
    let (strx, sect, desc, val) = (n4(r), r.val(1) as u8, r.val(2) as u16, r.val(8));
    let (t, tn) = if r.chance(6) {
        let (s, n) = *r.pick(STABS);
        (NTypeField::Stab(s), n)
    } else {
        let (p, e) = (r.chance(2), r.chance(2));
        let (t, n) = *r.pick(NTYPES);
        (NTypeField::Norm { n_pext: p, n_type: t, n_ext: e }, n | (p as u32) << 4 | e as u32)
    };
    (
        NList64 { n_strx: strx, n_type: t, n_sect: sect, n_desc: desc, n_value: val },
        vec![F::N(4, strx as u64), F::N(1, tn as u64), F::N(1, sect as u64), F::N(2, desc as u64), F::N(8, val)],
    )
}

fn reloc(r: &mut Rng) -> (RelocationInfo, Vec<F>) {
    let a = n4(r) as i32;
    let sym = n4(r) & 0xff_ffff;
    let (p, e, ty) = (r.chance(2), r.chance(2), r.below(16) as u8);
    let (l, ln) = *r.pick(RLENS);
    (
        RelocationInfo { r_address: a, r_symbolnum: sym, r_pcrel: p, r_length: l, r_extern: e, r_type: ty },
        vec![F::N(4, a as u32 as u64), F::Bits([sym, p as u32, ln, e as u32, ty as u32])],
    )
}

/// a header as written by a producer of byte order `big`, and the record the
/// reader must return
fn header(r: &mut Rng, big: bool) -> (Header64, Vec<F>) {
    let (m, mn) = if r.chance(2) { (0xfeedfacf, 0xcffaedfe) } else { (0xfeedface, 0xcefaedfe) };
    // what the reading host sees in its own order
    let seen = if big == HOST_BIG { m } else { mn };
    let magic = MAGICS.iter().find(|x| x.1 == seen).unwrap().0;
    let (cpu, cn) = if r.chance(2) { (CpuType::X86_64(CpuSubTypeX86_64::All), 0x01000007) } else { (CpuType::X86(CpuSubTypeX86::All), 7) };
    let (ft, fn_) = *r.pick(FILETYPES);
    let (a, b, c) = (n4(r), n4(r), n4(r));
    let mut flags = Flags::new();
    let mut code = 0;
    for _ in 0..r.below(5) {
        let (x, n) = *r.pick(FLAGS);
        flags.push(x);
        code |= n;
    }
    (
        Header64 { magic, cpu_type: cpu, file_type: ft, n_cmds: a, size_of_cmds: b, flags, reserved: c },
        vec![F::N(4, m as u64), F::N(4, cn), F::N(4, 3), F::N(4, fn_ as u64), F::N(4, a as u64), F::N(4, b as u64), F::N(4, code as u64), F::N(4, c as u64)],
    )
}

pub fn record(r: &mut Rng, big: bool) -> (Rec, Vec<F>) {
    match r.below(10) {
        0 => { let (x, f) = header(r, big); (Rec::Header(x), f) }
        1 => { let (x, f) = symtab(r); (Rec::Symtab(x), f) }
        2 => { let (x, f) = dysymtab(r); (Rec::Dysymtab(x), f) }
        3 => { let n = r.below(5) as u32; let (x, f) = segment(r, n); (Rec::Segment(x), f) }
        4 => { let (x, f) = section(r); (Rec::Section(x), f) }
        5 => { let n = r.below(5) as u32; let (x, f) = build(r, n); (Rec::Build(x), f) }
        6 => { let (x, f) = tool(r); (Rec::Tool(x), f) }
        7 => { let (x, f) = nlist(r); (Rec::NList(x), f) }
        8 => { let (x, f) = reloc(r); (Rec::Reloc(x), f) }
        _ => { let (x, f) = load(r); (Rec::Load(x), f) }
    }
}

/// records a writer may be given: also those read from a foreign file
fn writable(r: &mut Rng) -> (Rec, Vec<u8>) {
    let (mut x, mut f) = record(r, HOST_BIG);
    if let Rec::Header(h) = &mut x {
        let (m, n) = *r.pick(MAGICS);
        h.magic = m;
        f[0] = F::N(4, n as u64);
    }
    let b = bytes(&f, HOST_BIG);
    (x, b)
}

pub fn c04(r: &mut Rng) -> Res {
    let (x, want) = writable(r);
    let mut got = vec![];
    attempt("writing", || x.write(&mut got)).map_err(|e| format!("{}\nrecord {:?}", e, x))?;
    ensure!(got == want, "record {:?}\nwritten  {:02x?}\nexpected {:02x?}", x, got, want);
    let size = match &x {
        Rec::Header(_) => Header64::SIZE,
        Rec::Symtab(_) => SymtabCommand::SIZE,
        Rec::Dysymtab(_) => DysymtabCommand::SIZE,
        Rec::Segment(_) => SegmentCommand64::SIZE,
        Rec::Section(_) => Section64::SIZE,
        Rec::Build(_) => BuildVersionCommand::SIZE,
        Rec::Tool(_) => BuildToolVersion::SIZE,
        Rec::NList(_) => NList64::SIZE,
        Rec::Reloc(_) => RelocationInfo::SIZE,
        Rec::Load(l) => l.cmd_size(),
    };
    ensure!(size as usize == want.len(), "the stated size of {:?} is {}, it occupies {}", x, size, want.len());
    Ok(())
}

pub fn c05(r: &mut Rng) -> Res {
    let n = r.range(1, 4);
    let mut recs = vec![];
    let mut buf = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let (x, _) = record(r, HOST_BIG);
        attempt("writing", || x.write(&mut buf)).map_err(|e| format!("{}\nrecord {:?}", e, x))?;
        recs.push(x);
        ends.push(buf.len());
    }
    buf.extend([0xaa; 9]);
    let total = buf.len();
    let mut src = &buf[..];
    for (x, end) in recs.iter().zip(&ends) {
        let y = attempt("reading", || x.read(&mut src, HOST_BIG)).map_err(|e| format!("{}\nrecord {:?}\nbytes {:02x?}", e, x, &buf[..*end]))?;
        ensure!(x.same(&y), "wrote {:?}\nread  {:?}", x, y);
        ensure!(total - src.len() == *end, "reading {:?} consumed {} bytes, it occupies {}", x, total - src.len(), end);
        if let Rec::Load(l) = &y {
            let (mut b, mut c) = (vec![], vec![]);
            l.write_into(&mut b);
            x.write(&mut c);
            ensure!(b == c, "re-writing {:?} changed the bytes", l);
        }
    }
    Ok(())
}

pub fn c06(r: &mut Rng) -> Res {
    let big = !HOST_BIG ^ r.chance(4);
    let (x, f) = record(r, big);
    let mut b = bytes(&f, big);
    let len = b.len();
    b.extend([0x55; 5]);
    let mut src = &b[..];
    let y = attempt("reading", || x.read(&mut src, big)).map_err(|e| format!("{}\nrecord {:?}, big endian {}\nbytes {:02x?}", e, x, big, &b[..len]))?;
    ensure!(x.same(&y), "big endian {}, bytes {:02x?}\nmeans {:?}\nread  {:?}", big, &b[..len], x, y);
    ensure!(src.len() == 5, "reading {:?} consumed {} bytes, it occupies {}", x, b.len() - src.len(), len);
    if let Rec::Header(h) = &x {
        let (_, e) = Header64::read_from(&mut &b[..]);
        let want = if big { "Big" } else { "Little" };
        ensure!(format!("{:?}", e) == want, "header {:?} was stored {} endian, reported {:?}", h, want, e);
    }
    Ok(())
}

fn code(r: &mut Rng, known: &[u32]) -> u32 {
    match r.below(6) {
        0 | 1 => *r.pick(known),
        2 => r.pick(known).wrapping_add(r.range(0, 4) as u32).wrapping_sub(2),
        3 => 1 << r.below(32),
        4 => *r.pick(known) | 1 << r.below(32),
        _ => r.val(4) as u32,
    }
}

fn known<T: Copy>(t: &[(T, u32)]) -> Vec<u32> {
    t.iter().map(|x| x.1).collect()
}

/// decode(n) must be the variant documented for n, or a rejection
fn decoded<T: Copy + PartialEq + std::fmt::Debug>(what: &str, table: &[(T, u32)], n: u32, dec: impl Fn(u32) -> Option<T>, enc: impl Fn(T) -> u32) -> Res {
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dec(n))).unwrap_or(None);
    let want = table.iter().find(|x| x.1 == n).map(|x| x.0);
    ensure!(got == want, "{} code {:#x} decodes to {:?}, documented is {:?}", what, n, got, want);
    if let Some(v) = got {
        ensure!(enc(v) == n, "{} code {:#x} decodes to {:?}, which encodes to {:#x}", what, n, v, enc(v));
    }
    Ok(())
}

pub fn c07(r: &mut Rng) -> Res {
    match r.below(14) {
        0 => decoded("magic", MAGICS, code(r, &known(MAGICS)), |n| Some(Magic::from_u32(n)), |v| v.to_u32())?,
        1 => decoded("magic (checked)", MAGICS, code(r, &known(MAGICS)), Magic::from_u32_checked, |v| v.to_u32())?,
        2 => {
            let (a, b) = (code(r, &[7, 0x01000007, 12, 18]), if r.chance(2) { 3 } else { code(r, &[3]) });
            let got = std::panic::catch_unwind(|| CpuType::from_i32_i32(a as i32, b as i32)).ok();
            let want = match (a, b) {
                (7, 3) => Some(CpuType::X86(CpuSubTypeX86::All)),
                (0x01000007, 3) => Some(CpuType::X86_64(CpuSubTypeX86_64::All)),
                _ => None,
            };
            ensure!(got == want, "cpu type {:#x}, subtype {:#x} decodes to {:?}, documented is {:?}", a, b, got, want);
            if let Some(c) = got {
                ensure!(c.to_i32_i32() == (a as i32, b as i32), "{:?} encodes to {:?}", c, c.to_i32_i32());
            }
        }
        3 => decoded("file type", FILETYPES, code(r, &known(FILETYPES)), |n| Some(FileType::from_u32(n)), |v| v.to_u32())?,
        4 => decoded("flag", FLAGS, code(r, &known(FLAGS)), |n| Some(Flag::from_u32(n)), |v| v.to_u32())?,
        5 => {
            let n = bits(r, FLAGS);
            bitset("header flags", FLAGS, n, |n| { let f = Flags::from_u32(n); (set(&f), f.to_u32()) })?
        }
        6 => decoded("section type", SECTTYPES, code(r, &known(SECTTYPES)), |n| Some(SectionType::from_u32(n)), |v| v.to_u32())?,
        7 => decoded("section attribute", SECTATTRS, code(r, &known(SECTATTRS)), |n| Some(SectionAttr::from_u32(n)), |v| v.to_u32())?,
        8 => {
            let n = bits(r, SECTATTRS) & 0xffff_ff00;
            bitset("section attributes", SECTATTRS, n, |n| { let f = SectionAttrs::from_u32(n); (set(&f), f.to_u32()) })?
        }
        9 => decoded("platform", PLATFORMS, code(r, &known(PLATFORMS)), |n| Some(Platform::from_u32(n)), |v| v.to_u32())?,
        10 => {
            decoded("tool", TOOLS, code(r, &known(TOOLS)), |n| Some(Tool::from_u32(n)), |v| v.to_u32())?;
            let n = r.val(4) as u32;
            let v = Version::from_u32(n);
            ensure!((v.major as u32, v.minor as u32, v.release as u32) == (n >> 16, n >> 8 & 255, n & 255) && v.to_u32() == n,
                "version {:#x} decodes to {:?}, which encodes to {:#x}", n, v, v.to_u32());
        }
        11 => {
            for n in 0..=255u32 {
                decoded("symbol type", NTYPES, n, |n| Some(NType::from_u8(n as u8)), |v| v.to_u8() as u32)?;
                decoded("debug symbol", STABS, n, |n| Some(DebugSymbol::from_u8(n as u8)), |v| v.to_u8() as u32)?;
                decoded("x86 relocation type", X86R, n, |n| Some(X86RelocType::from_u8(n as u8)), |v| v.to_u8() as u32)?;
                decoded("x86_64 relocation type", X64R, n, |n| Some(X86_64RelocType::from_u8(n as u8)), |v| v.to_u8() as u32)?;
            }
            decoded("relocation length", RLENS, code(r, &known(RLENS)), |n| Some(RelocLength::from_u32(n)), |v| v.to_u32())?;
        }
        12 => {
            for n in 0..=255u8 {
                let got = std::panic::catch_unwind(|| NTypeField::from_u8(n)).ok();
                let want = if n & 0xe0 != 0 {
                    STABS.iter().find(|x| x.1 == n as u32).map(|x| NTypeField::Stab(x.0))
                } else {
                    NTYPES.iter().find(|x| x.1 == (n & 0xe) as u32).map(|x| NTypeField::Norm { n_pext: n & 0x10 != 0, n_type: x.0, n_ext: n & 1 != 0 })
                };
                ensure!(got == want, "symbol type byte {:#x} decodes to {:?}, documented is {:?}", n, got, want);
                if let Some(t) = got {
                    ensure!(t.to_u8() == n, "{:?} encodes to {:#x}", t, t.to_u8());
                }
            }
        }
        _ => {
            // a record with an unknown code is rejected, or keeps the code
            let (x, f) = if r.chance(2) { record(r, HOST_BIG) } else { let (x, f) = section(r); (Rec::Section(x), f) };
            let mut b = bytes(&f, HOST_BIG);
            let i = match &x {
                // the type and the attributes of a section
                Rec::Section(_) if r.chance(2) => 64 + r.below(4),
                _ => r.below(b.len()),
            };
            b[i] ^= 1 << r.below(8);
            if let Ok(y) = std::panic::catch_unwind(|| x.read(&mut &b[..], HOST_BIG)) {
                let mut c = vec![];
                if attempt("re-writing", || y.write(&mut c)).is_ok() {
                    // names lose what follows their terminator
                    let mut k = 0;
                    for f in &f {
                        let w = f.width();
                        let same = matches!(f, F::Name(_)) || k + w > c.len() || b[k..k + w] == c[k..k + w];
                        ensure!(same, "bytes {:02x?}\nread as {:?}\nwhich is written as {:02x?}", b, y, c);
                        k += w;
                    }
                }
            }
        }
    }
    Ok(())
}

fn bits<T: Copy>(r: &mut Rng, table: &[(T, u32)]) -> u32 {
    let mut n = 0;
    for _ in 0..r.below(6) {
        n |= r.pick(table).1;
    }
    match r.below(4) {
        0 => n | 1 << r.below(32),
        1 if r.chance(8) => r.next() as u32,
        _ => n,
    }
}

fn bitset<T: Copy + std::fmt::Debug>(what: &str, table: &[(T, u32)], n: u32, dec: impl Fn(u32) -> (Vec<String>, u32)) -> Res {
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dec(n))).ok();
    let all = table.iter().fold(0, |a, x| a | x.1);
    let want = if n & !all != 0 {
        None
    } else {
        let mut v: Vec<String> = table.iter().filter(|x| n & x.1 != 0).map(|x| format!("{:?}", x.0)).collect();
        v.sort();
        Some((v, n))
    };
    ensure!(got == want, "{} {:#x} decode (and encode back) to {:?}, documented is {:?}", what, n, got, want);
    Ok(())
}

/// C08: a load command whose number, size and count do not agree is rejected
pub fn c08(r: &mut Rng) -> Res {
    let big = r.chance(3) ^ HOST_BIG;
    // a load command, read directly or through LoadCommand
    let (x, f) = loop {
        let (x, f) = record(r, big);
        if matches!(x, Rec::Load(_) | Rec::Symtab(_) | Rec::Dysymtab(_) | Rec::Segment(_) | Rec::Build(_)) {
            break (x, f);
        }
    };
    let mut f = f;
    let fld = |f: &Vec<F>, i: usize| if let F::N(_, v) = f[i] { v as u32 } else { 0 };
    let cmd0 = fld(&f, 0);
    // index of the count field
    let count = match cmd0 { 0x19 => Some(9), 0x32 => Some(5), _ => None };
    for _ in 0..r.range(0, 2) {
        match r.below(3) {
            0 => f[0] = F::N(4, code(r, &[0x19, 2, 0xb, 0x32, 1]) as u64),
            1 => {
                let s = fld(&f, 1);
                f[1] = F::N(4, match r.below(5) { 0 => r.val(4), 1 => s as u64 ^ (1 << r.below(16)), 2 => s.wrapping_sub(8) as u64, 3 => s as u64 + 80, _ => s as u64 + 8 });
            }
            _ => if let Some(i) = count {
                let c = fld(&f, i);
                f[i] = F::N(4, match r.below(4) {
                    0 => (c + 1) as u64,
                    1 => c.saturating_sub(1) as u64,
                    // counts whose total wraps around 32 bits
                    2 => (if cmd0 == 0x19 { 0x1000_0000 } else { 0x2000_0000 }) + c as u64,
                    _ => r.below(6) as u64,
                });
            },
        }
    }
    let (cmd, size) = (fld(&f, 0), fld(&f, 1));
    let n = count.map(|i| fld(&f, i) as u64).unwrap_or(0);
    let b = bytes(&f, big);
    let mut src = b.clone();
    // plenty of plausible bytes behind it
    for _ in 0..4 {
        src.extend(bytes(&section(r).1, big));
    }
    let direct = !matches!(x, Rec::Load(_));
    let ok = |cmd: u32, size: u32| match cmd {
        0x19 => size as u64 == 72 + 80 * n,
        0x32 => size as u64 == 24 + 8 * n,
        2 => size == 24,
        0xb => size == 80,
        _ => false,
    };
    let got = std::panic::catch_unwind(|| x.read(&mut &src[..], big));
    if let Ok(y) = got {
        let (c, s, k, kk): (u32, u32, u64, u64) = match &y {
            Rec::Symtab(a) => (a.cmd, a.cmdsize, 0, 0),
            Rec::Dysymtab(a) => (a.cmd, a.cmdsize, 0, 0),
            Rec::Segment(a) => (a.cmd, a.cmdsize, a.nsects as u64, a.nsects as u64),
            Rec::Build(a) => (a.cmd, a.cmdsize, a.ntools as u64, a.ntools as u64),
            Rec::Load(LoadCommand::Symtab(a)) => (a.cmd, a.cmdsize, 0, 0),
            Rec::Load(LoadCommand::Dysymtab(a)) => (a.cmd, a.cmdsize, 0, 0),
            Rec::Load(LoadCommand::Segment64(a, v)) => (a.cmd, a.cmdsize, a.nsects as u64, v.len() as u64),
            Rec::Load(LoadCommand::BuildVersion(a, v)) => (a.cmd, a.cmdsize, a.ntools as u64, v.len() as u64),
            _ => return Err("a record of another type was returned".into()),
        };
        ensure!(k == kk, "{:?} states {} parts, has {}", y, k, kk);
        ensure!(c == cmd && s == size, "bytes {:02x?}\nread as {:?}", b, y);
        let kind_ok = match &y {
            Rec::Symtab(_) | Rec::Load(LoadCommand::Symtab(_)) => c == 2 && s == 24,
            Rec::Dysymtab(_) | Rec::Load(LoadCommand::Dysymtab(_)) => c == 0xb && s == 80,
            Rec::Segment(_) | Rec::Load(LoadCommand::Segment64(..)) => c == 0x19 && s as u64 == 72 + 80 * k,
            _ => c == 0x32 && s as u64 == 24 + 8 * k,
        };
        ensure!(kind_ok, "an inconsistent load command is accepted\nbytes {:02x?}\nread as {:?}", b, y);
        if let Rec::Load(l) = &y {
            ensure!(l.cmd() == c && l.cmd_size() == s, "cmd() {:#x} / cmd_size() {} of {:?}", l.cmd(), l.cmd_size(), l);
        }
        if cmd == cmd0 {
            ensure!(ok(cmd, size), "an inconsistent load command is accepted\nbytes {:02x?}\nread as {:?}", b, y);
        }
    } else if direct && cmd == cmd0 && ok(cmd, size) {
        return Err(format!("a consistent load command is rejected: {:?}\nbytes {:02x?}", x, b));
    }
    Ok(())
}

pub fn c09(r: &mut Rng) -> Res {
    let n = if r.chance(60) { few(r).min(300) } else { r.below(12) };
    let names: Vec<String> = (0..n)
        .map(|_| match r.below(8) {
            0 => String::new(),
            1 => name(r, 300),
            _ => name(r, 8),
        })
        .collect();
    attempt("string table", || {
        let mut t = StringTable::with_null();
        let mut at = vec![];
        let mut len = 1;
        for s in &names {
            ensure!(t.len() == len, "length {} after {:?}, expected {}", t.len(), &names[..at.len()], len);
            at.push(t.len());
            t.push_with_null(s);
            len += s.len() + 1;
            for (i, a) in at.iter().enumerate() {
                ensure!(t.get(*a) == names[i], "{:?}: index {} is {:?}, expected {:?}", names, a, t.get(*a), names[i]);
            }
            ensure!(t.get(0) == "", "index 0 is {:?}", t.get(0));
        }
        ensure!(t.len() == len, "length {} after {:?}, expected {}", t.len(), names, len);
        let it: Vec<&str> = t.iter().take(names.len()).collect();
        ensure!(it == names, "iteration starts {:?}, stored {:?}", it, names);
        let mut raw = vec![0];
        for s in &names {
            raw.extend(s.bytes());
            raw.push(0);
        }
        ensure!(t.as_ref() == &raw[..], "bytes {:02x?}, expected {:02x?}", t.as_ref(), raw);
        let u = StringTable::from(raw.clone());
        for (i, a) in at.iter().enumerate() {
            ensure!(u.get(*a) == names[i], "from {:02x?}: index {} is {:?}", raw, a, u.get(*a));
        }
        ensure!(u.iter().take(names.len()).collect::<Vec<_>>() == names, "from {:02x?}: iteration", raw);
        Ok(())
    })?
}
