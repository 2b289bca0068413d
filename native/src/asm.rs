//! C14-C18, C20: assembler output against what the source says.
//!
//! Sources are generated together with their meaning, from the property
//! statements; sources whose meaning the statements leave open (a register
//! name used as a label, several colons, ...) are not generated.
use crate::decode::{decode, Op, Operand};
use crate::obj::{parse, File};
use crate::rng::Rng;
use crate::{ensure, Res};

#[derive(Debug)]
pub enum Out {
    Bytes(Vec<u8>),
    /// how the process ended, and what it printed
    Rejected(String, String),
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn drain(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        let n = unsafe { read(fd, b.as_mut_ptr(), b.len()) };
        if n <= 0 {
            return v;
        }
        v.extend(&b[..n as usize]);
    }
}

/// Runs `f` in a child process: the assembler ends the process when it rejects
/// its input.
pub fn isolated(f: impl FnOnce() -> Vec<u8>) -> Out {
    unsafe {
        let (mut o, mut e) = ([0i32; 2], [0i32; 2]);
        assert!(pipe(o.as_mut_ptr()) == 0 && pipe(e.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(o[0]);
            close(e[0]);
            dup2(e[1], 2);
            close(e[1]);
            alarm(10);
            let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(b) => {
                    let mut i = 0;
                    while i < b.len() {
                        let n = write(o[1], b[i..].as_ptr(), b.len() - i);
                        if n <= 0 {
                            _exit(90);
                        }
                        i += n as usize;
                    }
                    // tells a completed run from an `exit(0)`
                    _exit(77)
                }
                Err(_) => 101,
            };
            _exit(code);
        }
        close(o[1]);
        close(e[1]);
        let out = drain(o[0]);
        let err = drain(e[0]);
        close(o[0]);
        close(e[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let err = String::from_utf8_lossy(&err).to_string();
        if st & 0x7f != 0 {
            return Out::Rejected(format!("signal {}", st & 0x7f), err);
        }
        match st >> 8 & 0xff {
            77 => Out::Bytes(out),
            c => Out::Rejected(format!("status {}", c), err),
        }
    }
}

pub fn assemble(src: &[u8]) -> Out {
    isolated(|| {
        let mut out = vec![];
        at_asm::Assembler::new().read_from(&mut &src[..]).write_into(&mut out);
        out
    })
}

/// what one instruction line means
#[derive(Clone, Debug, PartialEq)]
pub enum Inst {
    MovImm(u8, u8, u64),
    MovReg(u8, u8, u8),
    /// size, register, symbol
    MovSym(u8, u8, String),
    PushReg(u8),
    PushImm(u32),
    Ret,
    Syscall,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Nothing,
    Section(usize),
    Global(String),
    Label(String),
    Data(Option<String>, Vec<u8>),
    Inst(Inst),
    /// must be rejected; `true`: the message names the line
    Bad(bool),
}

pub const R64: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
pub const R32: [&str; 16] = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d"];
pub const R16: [&str; 16] = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w"];
pub const R8: [&str; 16] = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b"];

pub fn reg_name(size: u8, n: u8) -> &'static str {
    match size {
        8 => R64[n as usize],
        4 => R32[n as usize],
        2 => R16[n as usize],
        _ => R8[n as usize],
    }
}

fn literal(r: &mut Rng, v: u64) -> String {
    match r.below(6) {
        0 | 1 => format!("{}", v),
        2 => format!("0x{:X}", v),
        3 => format!("0x{:0w$x}", v, w = if r.chance(8) { r.range(18, 80) } else { r.range(1, 18) }),
        4 => format!("{:0w$}", v, w = if r.chance(8) { r.range(22, 80) } else { r.range(1, 22) }),
        _ => format!("0x{:x}", v),
    }
}

/// an expression text and its value modulo 2^64
fn expr(r: &mut Rng, want: u64) -> String {
    match r.below(3) {
        0 => {
            let b = r.val(8);
            let a = want.wrapping_sub(b);
            format!("{}{}+{}{}", literal(r, a), sp(r), sp(r), literal(r, b))
        }
        1 => {
            let b = r.val(8);
            let a = want.wrapping_add(b);
            format!("{}{}-{}{}", literal(r, a), sp(r), sp(r), literal(r, b))
        }
        _ => literal(r, want),
    }
}

fn sp(r: &mut Rng) -> &'static str {
    if r.chance(60) {
        return *r.pick(&["\u{c}", "\u{b}", "\u{3000}", "\u{a0}", " \r", "\u{2028}"]);
    }
    *r.pick(&[" ", " ", " ", "  ", "\t", " \t "])
}

fn osp(r: &mut Rng) -> &'static str {
    if r.chance(60) {
        return *r.pick(&["\u{c}", "\u{3000}", "\u{a0}", "\r"]);
    }
    *r.pick(&["", "", " ", " ", "  ", "\t"])
}

/// words that mean nothing wherever they stand
const NOISE: [&str; 32] = [
    "align=16", "align", "=", "#", "//", "'", "readonly", "code", "byte", "qword", "ptr", "[rax]", "(1)", "1b", "0b1", "0o7", "1h", "10d", "1u", "1L", "$1", "%rax",
    "1_000", "1.0", "1e3", "0x1p3", "'a'", "１", "#1", "\\", "0xfh", "*",
];

/// a literal with a character that has no place in it
fn spoiled(r: &mut Rng) -> String {
    let w = 1 << r.below(4);
    let v = r.val(w);
    let t = if r.chance(2) { format!("{}", v) } else { format!("0x{:x}", v) };
    let c = *r.pick(&['_', '.', '\'', '`', '$', '#', '@', '!', '%', '&', '*', '~', '^', '/', '?', '|', '<', '=', 'g', 'h', 'k', 'l', 'o', 'u', 'G', 'H', 'L', 'O', 'U', 'Z', 'i', '１', '٣', 'é', '-', '(', ')']);
    let at = r.below(t.len() + 1);
    // a letter digit where the number is decimal
    let c = if !t.starts_with("0x") && at > 1 && r.chance(3) { *r.pick(&['b', 'd', 'f', 'e', 'x', 'X']) } else { c };
    format!("{}{}{}", &t[..at], c, &t[at..])
}

fn comment(r: &mut Rng) -> String {
    let n = r.below(12);
    let s: String = (0..n).map(|_| *r.pick(&[';', ';', ' ', ' ', '"', '\'', ':', ',', 'a', '0', 'x', '\t', '\\', '/', '#', 'é', '=', '+'])).collect();
    format!(";{}", s)
}

fn bad_literal(r: &mut Rng) -> String {
    match r.below(16) {
        9 | 10 | 11 => spoiled(r),
        12 => format!("0b{:b}", r.val(1)),
        13 => format!("0o{:o}", r.val(1)),
        14 => {
            let t = r.pick(&NOISE).to_string();
            if t == "//" || t == "#" { "1#".into() } else { t }
        }
        0 => "0x".into(),
        1 => format!("{}z", r.val(2)),
        2 => format!("0x{:x}g", r.val(2)),
        3 => format!("0x0x{:x}", r.val(1)),
        4 => "18446744073709551616".into(),
        5 => "0x10000000000000000".into(),
        6 => format!("{}_0", r.val(2)),
        7 => format!("0X{:x}", r.val(2)),
        _ => format!("-{}", r.val(2)),
    }
}

/// a number that does not fit w bytes (w < 8)
fn too_big(r: &mut Rng, w: usize) -> u64 {
    let lim = 1u64 << (8 * w);
    let v = match r.below(6) {
        0 => lim,
        1 => lim + r.val(w),
        // negative numbers as 64 bit words: their low bytes look like numbers that fit
        2 => (r.val(w) | !(lim - 1)).max(lim),
        3 => u64::MAX - r.val(1),
        4 => r.val(w).wrapping_add(lim << r.below(64 - 8 * w)),
        _ => r.next(),
    };
    if v < lim { v + lim } else { v }
}

pub struct Gen {
    pub labels: Vec<String>,
}

impl Gen {
    fn word(&self, r: &mut Rng) -> String {
        const POOL: [&str; 45] = [
            ".L1", ".Ltmp0", "ltmp0", "L$1", "..@x", ".x", "_L", "l_x", "__", ".1",
            "_start", "_main", "main", "a", "b", "ab", "msg", "msg2", "x", "L1", "L11", "globals", "sectional", "dbx", "movs", ".loc", "ret1", "_",
            "Main", "_START", "START", "start", "A", "texts", "raxx", "r16", "eaxe", "db1", "a,b", "a-b", "L1'", "$", "@x", "x0", "_0",
        ];
        if r.chance(2) {
            r.pick(&POOL).to_string()
        } else {
            let n = r.range(1, 5);
            let s: String = (0..n).map(|_| *r.pick(&['a', 'q', 'z', '_', '.', 'K', '7'])).collect();
            let pre = *r.pick(&["_", "q", "L", ".", ".L", "_L", "L_"]);
            // names that share a long beginning or end
            match r.below(80) {
                0 => format!("{}{}{}", pre, "long_name_".repeat(r.near()), s),
                1 => format!("{}{}{}", pre, s, "_long_name".repeat(r.near().min(40))),
                _ => format!("{}{}", pre, s),
            }
        }
    }
    fn fresh(&mut self, r: &mut Rng) -> String {
        loop {
            let w = self.word(r);
            if !self.labels.contains(&w) {
                self.labels.push(w.clone());
                return w;
            }
        }
    }
}

pub fn text_inst(r: &mut Rng, i: &Inst) -> String {
    let sep = |r: &mut Rng| format!("{},{}", osp(r), osp(r));
    match i {
        Inst::MovImm(s, d, v) => format!("mov{}{}{}{}", [" ", " ", "  "][r.below(3)], reg_name(*s, *d), sep(r), expr(r, *v)),
        Inst::MovReg(s, d, t) => format!("mov {}{}{}", reg_name(*s, *d), sep(r), reg_name(*s, *t)),
        Inst::MovSym(s, d, n) => format!("mov {}{}{}", reg_name(*s, *d), sep(r), n),
        Inst::PushReg(d) => format!("push{}{}", sp(r), reg_name(8, *d)),
        Inst::PushImm(v) => format!("push{}{}", sp(r), literal(r, *v as u64)),
        Inst::Ret => "ret".into(),
        Inst::Syscall => "syscall".into(),
    }
}

fn inst(r: &mut Rng, syms: &[String]) -> Inst {
    let (d, s) = (r.below(16) as u8, r.below(16) as u8);
    match r.below(12) {
        0 | 1 => {
            let size = *r.pick(&[8u8, 4, 2]);
            Inst::MovImm(size, d, r.val(size as usize))
        }
        2 | 3 => Inst::MovReg(*r.pick(&[8u8, 4, 2]), d, s),
        4..=6 if !syms.is_empty() => Inst::MovSym(*r.pick(&[8u8, 4]), d, r.pick(syms).clone()),
        7 => Inst::PushReg(d),
        8 | 9 => Inst::PushImm(if r.chance(2) { r.val(1) as u32 } else { r.val(4) as u32 }),
        10 => Inst::Ret,
        _ => Inst::Syscall,
    }
}

/// a data directive: text of its items and the bytes they stand for
fn items(r: &mut Rng, w: usize) -> (String, Vec<u8>) {
    let mut t = String::new();
    let mut b = vec![];
    let n = if r.chance(150) { r.near().max(1) } else { r.range(1, 4) };
    for i in 0..n {
        if i > 0 {
            t += &format!("{},{}", if t.ends_with('"') { osp(r) } else { "" }, osp(r));
        }
        if r.chance(3) {
            let len = if r.chance(6) { 0 } else if r.chance(60) { r.near() } else { r.range(1, 17) };
            let s: String = (0..len).map(|_| *r.pick(&['a', 'Z', ' ', ',', '0', 'x', ':', '\'', '\\', 'é', '\t', '-', '語'])).collect();
            t += &format!("\"{}\"", s);
            let k = s.len();
            b.extend(s.bytes());
            b.resize(b.len() + (w - k % w) % w, 0);
        } else {
            let v = r.val(w);
            t += &literal(r, v);
            crate::layout::num(&mut b, false, w, v);
        }
    }
    (t, b)
}

fn directive(w: usize) -> &'static str {
    match w {
        1 => "db",
        2 => "dw",
        4 => "dd",
        _ => "dq",
    }
}

/// lines that have to be rejected whatever surrounds them
fn bad(r: &mut Rng, kind: &str, g: &Gen) -> (String, bool) {
    let w = g.word(r);
    let (d, e) = (r.below(16) as u8, r.below(16) as u8);
    match kind {
        "literal" => match r.below(5) {
            0 => (format!("mov {}, {}", R64[d as usize], bad_literal(r)), false),
            1 => {
                let size = *r.pick(&[4u8, 2]);
                let over = too_big(r, size as usize);
                (format!("mov {}, {}", reg_name(size, d), expr(r, over)), false)
            }
            2 => (format!("mov {}, {} {} {}", R64[d as usize], r.val(2), r.pick(&["+", "-"]), bad_literal(r)), false),
            3 => (format!("mov {}, {} {}", R64[d as usize], expr(r, 9), r.pick(&["1", "+", "+ 1 + 2", "rax", "- 3 4", "x", ", 1", "* 2"])), false),
            _ => {
                let w = *r.pick(&[1usize, 2, 4, 8]);
                let v = if w == 8 { bad_literal(r) } else { let v = too_big(r, w); literal(r, v) };
                (format!("{} {}", directive(w), v), false)
            }
        },
        "data" => {
            let w = *r.pick(&[1usize, 2, 4, 8]);
            let lead = if r.chance(2) { String::new() } else { format!("{} ", g.word(r)) };
            let (mut t, _) = items(r, w);
            t = match r.below(4) {
                0 => format!("{}, {}", t, bad_literal(r)),
                1 => format!("{}, \"abc", t),
                2 => format!("\"{}", r.pick(&["", "a", "abc, 1", "a;b\""])),
                _ if w < 8 => { let v = too_big(r, w); format!("{}, {}", t, literal(r, v)) }
                _ => format!("{}, {}", t, "0x1ffffffffffffffff"),
            };
            (format!("{}{} {}", lead, directive(w), t), false)
        }
        "inst" => {
            let (a, b) = *r.pick(&[(8u8, 4u8), (8, 2), (4, 8), (4, 2), (2, 8), (2, 4), (8, 1), (4, 1), (2, 1)]);
            (
                match r.below(20) {
                    // a name there is, and something with it
                    18 | 19 if !g.labels.is_empty() => {
                        let l = r.pick(&g.labels).clone();
                        let t = match r.below(3) {
                            0 => format!("{}{}", r.pick(&["offset ", "qword ", "rel ", "$", "&", "*", "-", "dword ptr ", "=", "flat:", "byte ", "@", "\\", "1 + ", "~", "1 ", "rax ", "!"]), l),
                            1 => format!("{}{}", l, r.pick(&[" + 1", " + 0", "+4", " - 1", "@GOT", " x", ", 1", ",", "]", " 0", "(%rip)", "[0]", "+", "'", " rax"])),
                            _ => format!("{}{}{}", r.pick(&["[", "(", "{", "\"", "'", "<", "["]), l, r.pick(&["]", ")", "}", "\"", "'", ">", " + rax]"])),
                        };
                        if g.labels.contains(&t) { return ("mov rax".into(), false); }
                        let w = *r.pick(&[8u8, 8, 4]);
                        format!("mov {}, {}", reg_name(w, d), t)
                    }
                    // a good instruction, and one character after it
                    16 | 17 => {
                        let i = inst(r, &[]);
                        let i = if matches!(i, Inst::Ret | Inst::Syscall) { Inst::PushReg(d) } else { i };
                        format!("{}{}{}", text_inst(r, &i), r.pick(&["", "", " "]), r.pick(&[",", ".", "-", "/", "!", "]", ")", "'", "+", "*", "#", "_", "x", "$", "=", "[", "(", "?", "|", "\\"]))
                    }
                    14 | 15 => { let w = *r.pick(&[4u8, 2]); let v = too_big(r, w as usize); format!("mov {}, {}", reg_name(w, d), expr(r, v)) }
                    0 | 1 => format!("mov {}, {}", reg_name(a, d), reg_name(b, e)),
                    2 => format!("mov {}, {}", R8[d as usize], r.pick(&["1", "al", "x"])),
                    3 => format!("mov {}, {}", r.pick(&["5", "foo", "RAX", "rax rbx", ""]), R64[d as usize]),
                    4 => format!("mov {}", R64[d as usize]),
                    5 => format!("push {}", reg_name(*r.pick(&[4u8, 2, 1]), d)),
                    6 if r.chance(2) => { let v = too_big(r, 4); format!("push {}", literal(r, v)) }
                    6 => format!("push {}", r.pick(&["4294967296", "0x100000000", "-1", "0x", "x", "\"a\"", "1x"])),
                    7 => format!("push {} {}", R64[d as usize], r.pick(&["rax", "1", ", rbx", "x"])),
                    8 => format!("push {} {}", r.below(300), r.pick(&["1", "+ 1", "x"])),
                    9 => "push".into(),
                    10 if r.chance(2) => format!("{} {}", r.pick(&["ret", "syscall"]), { let w = *r.pick(&[1usize, 2, 4]); let v = r.val(w); if r.chance(6) { R64[d as usize].to_string() } else { literal(r, v) } }),
                    10 => format!("{} {}", r.pick(&["ret", "syscall"]), if r.chance(2) { *r.pick(&NOISE) } else { *r.pick(&["1", "rax", "x", ", "]) }),
                    11 => format!("mov {}, undefined_symbol_{}", reg_name(a, d), w.replace('.', "_")),
                    12 => format!("mov {}, {} {}", reg_name(a, d), reg_name(a, e), r.pick(&["1", "rax", ", rax", "+ 1"])),
                    _ => format!("mov {}, {}", R16[d as usize], "_start"),
                },
                false,
            )
        }
        // a byte that is no UTF-8
        _ if r.chance(12) => (format!("{}{}", r.pick(&["\u{feff}", "\u{200b}", "\0", "\u{1a}", "\u{1b}", "\u{2060}", "\u{7f}"]), r.pick(&["ret", "section .data", "mov rax, 1", "push 1", "global a", "db 1", ""])), true),
        _ if r.chance(12) => (r.pick(&["\u{f8ff}", "ret\u{f8ff}", "mov rax, 1\u{f8ff}", "section .text\u{f8ff}", "section .data \u{f8ff}", "push\u{f8ff} 1", "global a \u{f8ff}", "a\u{f8ff} ret"]).to_string(), false),
        _ => (
            match r.below(9) {
                0 => format!("section {}", r.pick(&[".rodata", "text", ".texts", ".TEXT", "data", ".tex", ".text,", ".data.", ".", "__text", "bss", ".const", ".text:", ".Bss"])),
                1 => "section".into(),
                2 => format!("section{}{}{}{}", sp(r), r.pick(&[".text", ".data", ".bss"]), sp(r), if r.chance(2) { *r.pick(&NOISE) } else { *r.pick(&[".text", "x", "1", ","]) }),
                3 => "global".into(),
                4 => format!("global{}{}{}{}", sp(r), w, sp(r), if r.chance(2) { *r.pick(&NOISE) } else { *r.pick(&["x", "_start", ",", "1"]) }),
                5 => format!("{}: {}", w, r.pick(&["ret", "mov rax, 1", "x", "db 1", "x:"])),
                6 => format!("{}", r.pick(&["nop", "foo", "movq", "retn", "pushq", "sections", "globl", "SYSCALL"])),
                7 => format!("{} {}", r.pick(&["movl", "pushq", "call", "Mov", "int", "add", "Section", "extern", "segment", ".section", "public", "globl", ".globl", "sect", "GLOBAL", "export", "local", "align", "times 2", "%define", "resb", "bits", "org"]), r.pick(&["rax, 1", "rax", "x", ".text"])),
                _ => format!("{} {}", w, r.pick(&["ret", "1", "dbb 1", "DB 1"])),
            },
            true,
        ),
    }
}

pub struct Prog {
    pub lines: Vec<(String, Line)>,
    pub text: Vec<u8>,
}

/// what kinds of lines a program has (weights), and which kind of bad line
pub struct Mix {
    pub inst: usize,
    pub data: usize,
    pub label: usize,
    pub section: usize,
    pub global: usize,
    pub blank: usize,
    pub bad: Option<&'static str>,
    /// one program in so many has a bad line
    pub bad_one_in: usize,
}

pub fn program(r: &mut Rng, m: &Mix) -> Prog {
    let mut g = Gen { labels: vec![] };
    let want = if r.chance(100) { r.near() } else { r.range(0, 14) };
    let nbad = if m.bad.is_some() && r.chance(m.bad_one_in) { 1 } else { 0 };
    let mut meaning: Vec<(Option<String>, Line)> = vec![];
    let mut cur = 0;
    let total = m.inst + m.data + m.label + m.section + m.global + m.blank;
    for _ in 0..want {
        let k = r.below(total);
        let mut a = m.inst;
        let l = if k < a {
            // bss holds no code: switch away instead
            if cur == 2 { cur = r.below(2); (None, Line::Section(cur)) } else { (None, Line::Inst(Inst::Ret)) }
        } else if k < { a += m.data; a } {
            if cur == 2 { cur = r.below(2); (None, Line::Section(cur)) } else {
                let w = *r.pick(&[1usize, 2, 4, 8]);
                let (t, b) = items(r, w);
                let lab = if r.chance(2) { Some(g.fresh(r)) } else { None };
                let lead = lab.as_ref().map(|l| format!("{}{}", l, sp(r))).unwrap_or_default();
                (Some(format!("{}{}{}{}", lead, directive(w), sp(r), t)), Line::Data(lab, b))
            }
        } else if k < { a += m.label; a } {
            let n = if !g.labels.is_empty() && r.chance(12) { r.pick(&g.labels).clone() } else { g.fresh(r) };
            (Some(format!("{}:", n)), Line::Label(n))
        } else if k < { a += m.section; a } {
            cur = r.below(3);
            (None, Line::Section(cur))
        } else if k < { a += m.global; a } {
            (None, Line::Global(String::new()))
        } else {
            (Some(String::new()), Line::Nothing)
        };
        meaning.push(l);
        // far away from the beginning of its section
        if m.data > 0 && cur != 2 && r.chance(1500) {
            let n = (1usize << r.range(8, 21)) + r.below(5) - 2;
            meaning.push((Some(format!("db \"{}\"", "ab".repeat(n / 2))), Line::Data(None, "ab".repeat(n / 2).into_bytes())));
        }
    }
    // far away from the beginning of the file
    if r.chance(100) {
        let n = if r.chance(8) { (1 << 16) + r.below(5) - 2 } else { r.near() };
        meaning.splice(0..0, (0..n).map(|_| (Some(String::new()), Line::Nothing)));
    }
    let syms = g.labels.clone();
    let mut lines: Vec<(String, Line)> = meaning
        .into_iter()
        .map(|(t, l)| match l {
            Line::Inst(_) => {
                let i = inst(r, &syms);
                (text_inst(r, &i), Line::Inst(i))
            }
            Line::Section(k) => (format!("section{}{}", sp(r), [".text", ".data", ".bss"][k]), Line::Section(k)),
            Line::Global(_) => {
                let n = if syms.is_empty() || r.chance(4) { g.word(r) } else { r.pick(&syms).clone() };
                // names that merely resemble a label
                let n = match r.below(8) { 0 => format!("{}x", n), 1 if n.len() > 1 => n[..n.len() - 1].to_string(), 2 => n.to_uppercase(), _ => n };
                (format!("global{}{}", sp(r), n), Line::Global(n))
            }
            l => (t.unwrap(), l),
        })
        .collect();
    for _ in 0..nbad {
        let (t, named) = bad(r, m.bad.unwrap(), &g);
        let at = r.below(lines.len() + 1);
        lines.insert(at, (t, Line::Bad(named)));
        // line numbers whose low bits are all 0
        if r.chance(40) {
            let unit = 256 * if r.chance(20) { 256 } else { r.range(1, 3) };
            let fill = (unit - (at + 1) % unit) % unit;
            lines.splice(0..0, (0..fill).map(|_| (String::new(), Line::Nothing)));
        }
    }
    let mut text = String::new();
    let crlf = r.chance(12);
    for (i, (t, _)) in lines.iter().enumerate() {
        if t.is_empty() && lines.len() > 1000 {
            text += "\n";
            continue;
        }
        let before = *r.pick(&["", "", "    ", "\t", " "]);
        let note = comment(r);
        let after = *r.pick(&["", "", "", "  ", " ; comment", ";", "; mov rax, 1", " ;; \"x", "\t; a: b", &note]);
        text += &format!("{}{}{}", before, t, after);
        if i + 1 < lines.len() || !r.chance(4) {
            text += if crlf { "\r\n" } else { "\n" };
        }
    }
    let mut text = text.into_bytes();
    if let Some(at) = text.windows(3).position(|w| w == "\u{f8ff}".as_bytes()) {
        text.splice(at..at + 3, [*r.pick(&[0xffu8, 0x80, 0xc0, 0xe2])]);
    }
    Prog { lines, text }
}

/// the meaning of a program: per section the pieces that make up its contents,
/// and its labels
#[derive(Debug, Clone)]
pub enum Piece {
    Raw(Vec<u8>),
    Inst(Inst),
}

#[derive(Default, Debug)]
pub struct Want {
    /// pieces and labels in order of appearance
    pub sect: [Vec<Item>; 3],
    pub globals: Vec<String>,
}

#[derive(Debug, Clone)]
pub enum Item {
    Label(String),
    Piece(Piece),
}

pub fn meaning(p: &Prog) -> Want {
    let mut w = Want::default();
    let mut cur = 0;
    for (_, l) in &p.lines {
        match l {
            Line::Nothing | Line::Bad(_) => {}
            Line::Section(k) => cur = *k,
            Line::Global(n) => w.globals.push(n.clone()),
            Line::Label(n) => w.sect[cur].push(Item::Label(n.clone())),
            Line::Data(n, b) => {
                if let Some(n) = n {
                    w.sect[cur].push(Item::Label(n.clone()));
                }
                w.sect[cur].push(Item::Piece(Piece::Raw(b.clone())));
            }
            Line::Inst(i) => w.sect[cur].push(Item::Piece(Piece::Inst(i.clone()))),
        }
    }
    w
}

/// the instruction's operation, immediate of a symbolic operand left open
fn performs(i: &Inst, op: Op) -> bool {
    match (i, op) {
        (Inst::MovImm(s, d, v), Op::MovImm { size, dst: Operand::Reg(x), imm }) if *s == size => *d == x && *v == imm,
        // writing a 32-bit register clears the upper half
        (Inst::MovImm(8, d, v), Op::MovImm { size: 4, dst: Operand::Reg(x), imm }) => *d == x && *v == imm,
        (Inst::MovReg(s, d, t), Op::MovReg { size, dst: Operand::Reg(x), src: Operand::Reg(y) }) => *s == size && *d == x && *t == y,
        (Inst::MovSym(s, d, _), Op::MovImm { size, dst: Operand::Reg(x), .. }) => *s == size && *d == x,
        (Inst::PushReg(d), Op::PushReg { size: 8, reg }) => *d == reg,
        (Inst::PushImm(v), Op::PushImm { size: 8, imm }) => *v == imm as u32,
        (Inst::Ret, Op::Ret) | (Inst::Syscall, Op::Syscall) => true,
        _ => false,
    }
}

#[derive(PartialEq, Clone, Copy)]
pub enum Focus {
    /// contents, labels and relocations
    Places,
    /// external bits
    Globals,
}

fn compare(w: &Want, f: &File, focus: Focus) -> Res {
    let names = [".text", ".data", ".bss"];
    let mach = ["__text", "__data", "__bss"];
    for s in &f.sects {
        ensure!(mach.contains(&&s.sectname[..]), "section {}", s.sectname);
    }
    // labels in the order of the symbol table: section by section
    let mut labels: Vec<(String, usize, u64)> = vec![];
    for k in 0..3 {
        let idx = f.sects.iter().position(|s| s.sectname == mach[k]);
        let empty = crate::obj::Sect { sectname: String::new(), segname: String::new(), addr: 0, size: 0, offset: 0, reloff: 0, nreloc: 0, flags: 0, relocs: vec![], bytes: vec![] };
        let s = idx.map(|i| &f.sects[i]).unwrap_or(&empty);
        let mut at = 0usize;
        let mut rel = s.relocs.iter();
        for item in &w.sect[k] {
            match item {
                Item::Label(n) => labels.push((n.clone(), idx.map_or(0, |i| i + 1), s.addr + at as u64)),
                Item::Piece(Piece::Raw(b)) => {
                    let got = s.bytes.get(at..at + b.len());
                    // zeros in bss need not be stored
                    let zeros = k == 2 && b.iter().all(|b| *b == 0);
                    ensure!(focus != Focus::Places || zeros || got == Some(&b[..]), "{} at {:#x}: {:02x?}, expected {:02x?}; contents {:02x?}", names[k], at, got, b, s.bytes);
                    at += b.len();
                }
                Item::Piece(Piece::Inst(i)) => {
                    let d = decode(s.bytes.get(at..).unwrap_or(&[]));
                    let Some(d) = d else { return Err(format!("{} at {:#x}: no instruction, expected {:?}; contents {:02x?}", names[k], at, i, s.bytes)) };
                    ensure!(focus != Focus::Places || performs(i, d.op), "{} at {:#x}: {:?}, expected {:?}; contents {:02x?}", names[k], at, d.op, i, s.bytes);
                    if let (Inst::MovSym(size, _, n), Focus::Places) = (i, focus) {
                        let Some(x) = rel.next() else { return Err(format!("{} at {:#x}: no relocation for {:?}", names[k], at, i)) };
                        let to = f.syms.get(x.symbolnum as usize).map(|s| s.name.clone());
                        ensure!(
                            x.address as i64 == (at + d.imm_at) as i64 && 1usize << x.length == d.imm_len && 1usize << x.length == *size as usize && !x.pcrel && to.as_deref() == Some(&n[..]),
                            "{} at {:#x}: {:?} has relocation {:?} to {:?}, expected address {:#x}, {} bytes, to {:?}", names[k], at, i, x, to, at + d.imm_at, d.imm_len, n
                        );
                    }
                    at += d.len;
                }
            }
        }
        if focus == Focus::Places {
            ensure!(rel.next().is_none(), "{} has a relocation too many: {:?}", names[k], s.relocs);
            ensure!(s.size as usize == at && (k == 2 || s.bytes.len() == at), "{} has {:#x} bytes, expected {:#x}: {:02x?}", names[k], s.size, at, s.bytes);
        }
    }
    ensure!(f.syms.len() == labels.len(), "{} symbols {:?}, expected {} labels {:?}", f.syms.len(), f.syms, labels.len(), labels);
    for (s, (n, k, v)) in f.syms.iter().zip(&labels) {
        match focus {
            Focus::Places => ensure!(&s.name == n && s.ty & 0x0e == 0x0e && s.sect as usize == *k && s.value == *v && s.desc == 0,
                "symbol {:?}, expected {:?} in section {} at {:#x}", s, n, k, v),
            Focus::Globals => {
                let ext = w.globals.contains(n);
                ensure!(s.ty & !1 == 0x0e && (s.ty & 1 == 1) == ext, "symbol {:?}, label {:?} is external: {}", s, n, ext);
            }
        }
    }
    Ok(())
}

pub fn show(p: &Prog) -> String {
    format!("source\n---\n{}\n---\n{:?}\n", String::from_utf8_lossy(&p.text), String::from_utf8_lossy(&p.text))
}

fn run(p: &Prog, focus: Focus) -> Res {
    let out = assemble(&p.text);
    let ctx = |e: String| format!("{}{}", show(p), e);
    if let Some(i) = p.lines.iter().position(|l| matches!(l.1, Line::Bad(_))) {
        match out {
            Out::Bytes(b) => {
                let f = parse(&b);
                return Err(ctx(format!("line {} ({:?}) has to be rejected, but the source is accepted: {:02x?}", i + 1, p.lines[i].0, f.map(|f| f.sects))));
            }
            Out::Rejected(how, msg) => {
                ensure!(how != "status 0", "{}", ctx(format!("line {} ({:?}) has to be rejected, but the exit status is 0", i + 1, p.lines[i].0)));
                if let Line::Bad(true) = p.lines[i].1 {
                    let named = msg.split(|c: char| !c.is_ascii_digit()).any(|x| x == (i + 1).to_string());
                    ensure!(named, "{}", ctx(format!("line {} ({:?}) is rejected ({}), but the message does not name the line: {:?}", i + 1, p.lines[i].0, how, msg)));
                }
            }
        }
        return Ok(());
    }
    match out {
        Out::Rejected(how, msg) => Err(ctx(format!("rejected ({}): {}", how, msg))),
        Out::Bytes(b) => {
            let f = parse(&b).map_err(|e| ctx(format!("output: {}", e)))?;
            compare(&meaning(p), &f, focus).map_err(ctx)
        }
    }
}

pub fn c14(r: &mut Rng) -> Res {
    let p = program(r, &Mix { inst: 5, data: 3, label: 4, section: 4, global: 1, blank: 1, bad: None, bad_one_in: 1 });
    if r.chance(6) {
        return in_bss(r, p);
    }
    run(&p, Focus::Places)
}

/// contents in bss are rejected or, if they are zeros, may be accepted
fn in_bss(r: &mut Rng, mut p: Prog) -> Res {
    let w = *r.pick(&[1usize, 2, 4, 8]);
    let n = r.below(4);
    let (t, l) = match r.below(6) {
        0 => ("ret".to_string(), Line::Inst(Inst::Ret)),
        1 => (format!("{} \"\"", directive(w)), Line::Data(None, vec![])),
        2 => (format!("{} 5", directive(w)), Line::Data(None, { let mut b = vec![0; w]; b[0] = 5; b })),
        3 => (format!("bss_x {} 0{}", directive(w), ", 0".repeat(n)), Line::Data(Some("bss_x".into()), vec![0; w * (n + 1)])),
        _ => (format!("{} 0{}", directive(w), ", 0".repeat(n)), Line::Data(None, vec![0; w * (n + 1)])),
    };
    for (t, l) in [("section .bss".into(), Line::Section(2)), ("bss_a:".into(), Line::Label("bss_a".into())), (t, l), ("bss_z:".into(), Line::Label("bss_z".into()))] {
        if p.text.last().map_or(false, |c| *c != b'\n') {
            p.text.push(b'\n');
        }
        p.text.extend(format!("{}\n", t).bytes());
        p.lines.push((t, l));
    }
    match assemble(&p.text) {
        Out::Rejected(how, _) => { ensure!(how != "status 0", "{}contents in bss are rejected, but the exit status is 0", show(&p)); Ok(()) }
        Out::Bytes(_) => run(&p, Focus::Places),
    }
}

pub fn c15(r: &mut Rng) -> Res {
    let p = program(r, &Mix { inst: 2, data: 2, label: 6, section: 3, global: 6, blank: 1, bad: None, bad_one_in: 1 });
    run(&p, Focus::Globals)?;
    // a global declaration changes nothing else: without them, the same file
    // but for the external bits
    let mut q = Prog { lines: vec![], text: vec![] };
    for (t, l) in &p.lines {
        if !matches!(l, Line::Global(_)) {
            q.lines.push((t.clone(), l.clone()));
            q.text.extend(t.bytes());
            q.text.push(b'\n');
        }
    }
    if let (Out::Bytes(a), Out::Bytes(b)) = (assemble(&p.text), assemble(&q.text)) {
        let (Ok(f), Ok(g)) = (parse(&a), parse(&b)) else { return Err(format!("{}output is no object file", show(&p))) };
        let mut a = a;
        for i in 0..f.syms.len() {
            if g.syms.get(i).map_or(false, |s| s.ty & 1 == 0) {
                a[f.symtab[1] as usize + 16 * i + 4] &= !1;
            }
        }
        ensure!(a == b, "{}the global declarations change more than external bits\nwith    {:02x?}\nwithout {:02x?}", show(&p), a, b);
        ensure!(g.syms.iter().all(|s| s.ty & 1 == 0), "{}without the global declarations a symbol is external: {:?}", show(&p), g.syms);
    }
    Ok(())
}

/// one-line programs keep what is decided close to one property
fn single(text: String, l: Line) -> Prog {
    let mut t = text.clone().into_bytes();
    t.push(b'\n');
    Prog { lines: vec![(text, l)], text: t }
}

pub fn c16(r: &mut Rng) -> Res {
    if r.chance(3) {
        let (t, n) = bad(r, "literal", &Gen { labels: vec![] });
        return run(&single(t, Line::Bad(n)), Focus::Places);
    }
    // several lines in one go
    let mut p = Prog { lines: vec![], text: vec![] };
    for _ in 0..12 {
        let (t, l) = if r.chance(3) {
            let w = *r.pick(&[1usize, 2, 4, 8]);
            let v = r.val(w);
            let mut b = vec![];
            crate::layout::num(&mut b, false, w, v);
            (format!("{} {}", directive(w), if r.chance(9) { format!("+{}", v) } else { literal(r, v) }), Line::Data(None, b))
        } else {
            let size = *r.pick(&[8u8, 8, 4, 2]);
            let i = if r.chance(5) { Inst::PushImm(r.val(4) as u32) } else { Inst::MovImm(size, r.below(16) as u8, r.val(size as usize)) };
            (text_inst(r, &i), Line::Inst(i))
        };
        p.text.extend(t.bytes());
        p.text.push(b'\n');
        p.lines.push((t, l));
    }
    run(&p, Focus::Places)
}

pub fn c17(r: &mut Rng) -> Res {
    let bad_kind = Mix { inst: 0, data: 1, label: 0, section: 0, global: 0, blank: 0, bad: Some("data"), bad_one_in: 3 };
    let p = program(r, &bad_kind);
    run(&p, Focus::Places)
}

pub fn c18(r: &mut Rng) -> Res {
    let p = program(r, &Mix { inst: 6, data: 0, label: 1, section: 0, global: 0, blank: 0, bad: Some("inst"), bad_one_in: 2 });
    run(&p, Focus::Places)
}

pub fn c20(r: &mut Rng) -> Res {
    let p = program(r, &Mix { inst: 3, data: 2, label: 3, section: 3, global: 3, blank: 3, bad: Some("line"), bad_one_in: 2 });
    if r.chance(12) && !p.lines.iter().any(|l| matches!(l.1, Line::Bad(_))) {
        return in_bss(r, p);
    }
    run(&p, if r.chance(2) { Focus::Places } else { Focus::Globals })
}
