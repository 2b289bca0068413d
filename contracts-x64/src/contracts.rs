//! One contract per public operation of `at-x64`.
//!
//! A contract draws the operation's arguments from a source of nondeterminism
//! (all values of the argument types satisfying the stated precondition), calls
//! the *compiled* function of /repo, and returns whether the postcondition
//! holds.  Under Kani the source is `kani::any`, so the contract is decided for
//! every argument at once; natively the source replays a counterexample.

use crate::decode::{decode, trunc, Addr, Decoded, Op, Operand};
use at_x64::instruction::{Instruction, Lea, Mov, Pop, Push, Ret, Syscall};
use at_x64::mem::Mem64;
use at_x64::reg::{Reg16, Reg32, Reg64, Reg8};
use at_x64::BytesAtMost;

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    /// a value below `n`
    fn below(&mut self, n: u8) -> u8;
}

#[cfg(kani)]
macro_rules! note { ($($t:tt)*) => {{}}; }
#[cfg(not(kani))]
macro_rules! note { ($($t:tt)*) => { if crate::verbose() { println!($($t)*) } }; }

/// Register number in the processor's numbering.
pub fn num64(r: Reg64) -> u8 {
    match r {
        Reg64::RAX => 0,
        Reg64::RCX => 1,
        Reg64::RDX => 2,
        Reg64::RBX => 3,
        Reg64::RSP => 4,
        Reg64::RBP => 5,
        Reg64::RSI => 6,
        Reg64::RDI => 7,
        Reg64::R8 => 8,
        Reg64::R9 => 9,
        Reg64::R10 => 10,
        Reg64::R11 => 11,
        Reg64::R12 => 12,
        Reg64::R13 => 13,
        Reg64::R14 => 14,
        Reg64::R15 => 15,
    }
}

pub const ALL64: [Reg64; 16] = [
    Reg64::RAX, Reg64::RCX, Reg64::RDX, Reg64::RBX, Reg64::RSP, Reg64::RBP, Reg64::RSI, Reg64::RDI,
    Reg64::R8, Reg64::R9, Reg64::R10, Reg64::R11, Reg64::R12, Reg64::R13, Reg64::R14, Reg64::R15,
];
pub const ALL32: [Reg32; 16] = [
    Reg32::EAX, Reg32::ECX, Reg32::EDX, Reg32::EBX, Reg32::ESP, Reg32::EBP, Reg32::ESI, Reg32::EDI,
    Reg32::R8D, Reg32::R9D, Reg32::R10D, Reg32::R11D, Reg32::R12D, Reg32::R13D, Reg32::R14D, Reg32::R15D,
];
pub const ALL16: [Reg16; 16] = [
    Reg16::AX, Reg16::CX, Reg16::DX, Reg16::BX, Reg16::SP, Reg16::BP, Reg16::SI, Reg16::DI,
    Reg16::R8W, Reg16::R9W, Reg16::R10W, Reg16::R11W, Reg16::R12W, Reg16::R13W, Reg16::R14W, Reg16::R15W,
];
pub const ALL8: [Reg8; 16] = [
    Reg8::AL, Reg8::CL, Reg8::DL, Reg8::BL, Reg8::SPL, Reg8::BPL, Reg8::SIL, Reg8::DIL,
    Reg8::R8B, Reg8::R9B, Reg8::R10B, Reg8::R11B, Reg8::R12B, Reg8::R13B, Reg8::R14B, Reg8::R15B,
];

fn r64<S: Src>(s: &mut S) -> Reg64 {
    ALL64[s.below(16) as usize]
}
fn r32<S: Src>(s: &mut S) -> (Reg32, u8) {
    let i = s.below(16);
    (ALL32[i as usize], i)
}
fn r16<S: Src>(s: &mut S) -> (Reg16, u8) {
    let i = s.below(16);
    (ALL16[i as usize], i)
}

/// The whole byte string must be exactly one instruction, of at most 15 bytes.
fn one(b: &BytesAtMost<15>) -> Option<Decoded> {
    let bytes: &[u8] = b.as_ref();
    note!("  bytes    {:02x?}", bytes);
    if bytes.len() != b.len() || b.is_empty() {
        return None;
    }
    let d = decode(bytes);
    note!("  decoded  {:?}", d);
    match d {
        Some(d) if d.len == bytes.len() => Some(d),
        _ => None,
    }
}

fn is(b: &BytesAtMost<15>, want: Op) -> bool {
    note!("  expected {:?}", want);
    match one(b) {
        Some(d) => norm(d.op) == norm(want),
        None => false,
    }
}

/// A 32-bit register write clears the upper half of the register.
fn norm(op: Op) -> Op {
    match op {
        Op::MovImm { size: 4, dst: Operand::Reg(r), imm } => {
            Op::MovImm { size: 8, dst: Operand::Reg(r), imm: trunc(imm, 4) }
        }
        other => other,
    }
}

/// Address meant by an operand: the displacement is a 32-bit two's complement number.
pub fn meant(m: &Mem64) -> Addr {
    let mut a = Addr { coef: [0; 16], rip: false, disp: 0 };
    match *m {
        Mem64::RegOffset(r, d) => {
            a.coef[num64(r) as usize] += 1;
            a.disp = d as i32;
        }
        Mem64::RipOffset(d) => {
            a.rip = true;
            a.disp = d as i32;
        }
        Mem64::Sib { base, disp, index, scale } => {
            if let Some(b) = base {
                a.coef[num64(b) as usize] += 1;
            }
            // RSP in the index field means "no index" (documented on Mem64::Sib)
            if index != Reg64::RSP {
                a.coef[num64(index) as usize] += 1 << scale;
            }
            a.disp = disp as i32;
        }
    }
    a
}

fn mem_reg<S: Src>(s: &mut S) -> Mem64 {
    Mem64::reg_offset(r64(s), s.u32())
}
fn mem_sib<S: Src>(s: &mut S) -> Mem64 {
    let base = s.below(17);
    let base = if base == 16 { None } else { Some(ALL64[base as usize]) };
    let disp = s.u32();
    let index = r64(s);
    let scale = s.below(4);
    Mem64::sib(base, disp, index, scale)
}

macro_rules! contracts {
    ($( $(#[$m:meta])* $name:ident [$($prop:literal),*] |$s:ident| $body:block )*) => {
        $( $(#[$m])* pub fn $name<S: Src>($s: &mut S) -> bool $body )*

        #[cfg(kani)]
        mod harness {
            $( #[kani::proof] #[kani::unwind(20)] fn $name() {
                let mut s = crate::KaniSrc;
                let ok = super::$name(&mut s);
                assert!(ok, concat!("postcondition of ", stringify!($name)));
                kani::cover!(ok, "reachable");
            } )*
        }

        #[cfg(not(kani))]
        pub fn table<S: Src>() -> Vec<(&'static str, &'static [&'static str], fn(&mut S) -> bool)> {
            vec![ $( (stringify!($name), &[$($prop),*][..], $name::<S> as fn(&mut S) -> bool) ),* ]
        }
    };
}

contracts! {
    // ---- C01: register and immediate forms ------------------------------
    mov_reg64_reg64 ["C01"] |s| {
        let (d, r) = (r64(s), r64(s));
        note!("mov {}, {}", d, r);
        is(&Mov::new(d, r).bytecode(), Op::MovReg { size: 8, dst: Operand::Reg(num64(d)), src: Operand::Reg(num64(r)) })
    }
    mov_reg32_reg32 ["C01"] |s| {
        let ((d, dn), (r, rn)) = (r32(s), r32(s));
        note!("mov {}, {}", d, r);
        is(&Mov::new(d, r).bytecode(), Op::MovReg { size: 4, dst: Operand::Reg(dn), src: Operand::Reg(rn) })
    }
    mov_reg16_reg16 ["C01"] |s| {
        let ((d, dn), (r, rn)) = (r16(s), r16(s));
        note!("mov {}, {}", d, r);
        is(&Mov::new(d, r).bytecode(), Op::MovReg { size: 2, dst: Operand::Reg(dn), src: Operand::Reg(rn) })
    }
    mov_reg64_imm64 ["C01"] |s| {
        let (d, i) = (r64(s), s.u64());
        note!("mov {}, {:#x}", d, i);
        is(&Mov::new(d, i).bytecode(), Op::MovImm { size: 8, dst: Operand::Reg(num64(d)), imm: i })
    }
    mov_reg32_imm32 ["C01"] |s| {
        let ((d, n), i) = (r32(s), s.u32());
        note!("mov {}, {:#x}", d, i);
        is(&Mov::new(d, i).bytecode(), Op::MovImm { size: 4, dst: Operand::Reg(n), imm: i as u64 })
    }
    mov_reg16_imm16 ["C01"] |s| {
        let ((d, n), i) = (r16(s), s.u16());
        note!("mov {}, {:#x}", d, i);
        is(&Mov::new(d, i).bytecode(), Op::MovImm { size: 2, dst: Operand::Reg(n), imm: i as u64 })
    }
    push_reg64 ["C01"] |s| {
        let r = r64(s);
        note!("push {}", r);
        is(&Push::new(r).bytecode(), Op::PushReg { size: 8, reg: num64(r) })
    }
    push_reg16 ["C01"] |s| {
        let (r, n) = r16(s);
        note!("push {}", r);
        is(&Push::new(r).bytecode(), Op::PushReg { size: 2, reg: n })
    }
    push_imm8 ["C01"] |s| {
        let i = s.u8();
        note!("push imm8 {:#x}", i);
        is(&Push::new(i).bytecode(), Op::PushImm { size: 8, imm: i as i8 as i64 as u64 })
    }
    push_imm16 ["C01"] |s| {
        let i = s.u16();
        note!("push imm16 {:#x}", i);
        is(&Push::new(i).bytecode(), Op::PushImm { size: 2, imm: i as u64 })
    }
    push_imm32 ["C01"] |s| {
        let i = s.u32();
        note!("push imm32 {:#x}", i);
        is(&Push::new(i).bytecode(), Op::PushImm { size: 8, imm: i as i32 as i64 as u64 })
    }
    pop_reg64 ["C01"] |s| {
        let r = r64(s);
        note!("pop {}", r);
        is(&Pop::new(r).bytecode(), Op::PopReg { size: 8, reg: num64(r) })
    }
    pop_reg16 ["C01"] |s| {
        let (r, n) = r16(s);
        note!("pop {}", r);
        is(&Pop::new(r).bytecode(), Op::PopReg { size: 2, reg: n })
    }
    ret ["C01"] |_s| {
        note!("ret");
        is(&Ret::new().bytecode(), Op::Ret)
    }
    syscall ["C01"] |_s| {
        note!("syscall");
        is(&Syscall::new().bytecode(), Op::Syscall)
    }

    // ---- C02: memory operands --------------------------------------------
    store_reg_offset ["C02"] |s| {
        let (m, r) = (mem_reg(s), r64(s));
        note!("mov {:?}, {}", m, r);
        is(&Mov::new(m, r).bytecode(), Op::MovReg { size: 8, dst: Operand::Mem(meant(&m)), src: Operand::Reg(num64(r)) })
    }
    store_reg_indirect ["C02"] |s| {
        let (b, r) = (r64(s), r64(s));
        let m = Mem64::reg(b);
        note!("mov [{}], {}", b, r);
        let mut a = Addr { coef: [0; 16], rip: false, disp: 0 };
        a.coef[num64(b) as usize] = 1;
        is(&Mov::new(m, r).bytecode(), Op::MovReg { size: 8, dst: Operand::Mem(a), src: Operand::Reg(num64(r)) })
    }
    store_rip_offset ["C02"] |s| {
        let (m, r) = (Mem64::rip_offset(s.u32()), r64(s));
        note!("mov {:?}, {}", m, r);
        is(&Mov::new(m, r).bytecode(), Op::MovReg { size: 8, dst: Operand::Mem(meant(&m)), src: Operand::Reg(num64(r)) })
    }
    store_sib ["C02"] |s| {
        let (m, r) = (mem_sib(s), r64(s));
        note!("mov {:?}, {}", m, r);
        is(&Mov::new(m, r).bytecode(), Op::MovReg { size: 8, dst: Operand::Mem(meant(&m)), src: Operand::Reg(num64(r)) })
    }
    lea_reg_offset ["C02"] |s| {
        let (r, m) = (r64(s), mem_reg(s));
        note!("lea {}, {:?}", r, m);
        is(&Lea::new(r, m).bytecode(), Op::Lea { size: 8, dst: num64(r), addr: meant(&m) })
    }
    lea_rip_offset ["C02"] |s| {
        let (r, m) = (r64(s), Mem64::rip_offset(s.u32()));
        note!("lea {}, {:?}", r, m);
        is(&Lea::new(r, m).bytecode(), Op::Lea { size: 8, dst: num64(r), addr: meant(&m) })
    }
    lea_sib ["C02"] |s| {
        let (r, m) = (r64(s), mem_sib(s));
        note!("lea {}, {:?}", r, m);
        is(&Lea::new(r, m).bytecode(), Op::Lea { size: 8, dst: num64(r), addr: meant(&m) })
    }

    // ---- C03: where the immediate is ---------------------------------------
    offset_imm64 ["C03"] |s| {
        let (d, i, j) = (r64(s), s.u64(), s.u64());
        note!("mov {}, {:#x}; patched to {:#x}", d, i, j);
        let m = Mov::new(d, i);
        patched(m.bytecode(), m.offset_to_imm_bytes(), &j.to_le_bytes(),
            Op::MovImm { size: 8, dst: Operand::Reg(num64(d)), imm: j })
    }
    offset_imm32 ["C03"] |s| {
        let ((d, n), i, j) = (r32(s), s.u32(), s.u32());
        note!("mov {}, {:#x}; patched to {:#x}", d, i, j);
        let m = Mov::new(d, i);
        patched(m.bytecode(), m.offset_to_imm_bytes(), &j.to_le_bytes(),
            Op::MovImm { size: 4, dst: Operand::Reg(n), imm: j as u64 })
    }

    // ---- C19: registers and their narrower views -----------------------------
    narrow_views ["C19"] |s| {
        let i = s.below(16) as usize;
        note!("{} {} {}", ALL64[i], ALL32[i], ALL16[i]);
        ALL32[i].to_reg64() == ALL64[i] && ALL16[i].to_reg32() == ALL32[i]
    }
    register_codes ["C19"] |s| {
        let i = s.below(16);
        let (q, d, w) = (ALL64[i as usize], ALL32[i as usize], ALL16[i as usize]);
        note!("{} {} {}", q, d, w);
        let n = |code: u8, ext: bool| code < 8 && code + 8 * ext as u8 == i;
        n(q.register_code(), q.is_extended())
            && n(d.register_code(), d.is_extended())
            && n(w.register_code(), w.is_extended())
            && q.reg_bits() == i & 7 && q.rm_bits() == i & 7 && q.mode_bits() == 3
            && q.rex_b_bit() == (i >= 8) && q.rex_r_bit() == (i >= 8)
    }
}

/// Overwriting the announced bytes changes the immediate to exactly that
/// value and nothing else: same operation, same destination.
fn patched(b: BytesAtMost<15>, off: u8, with: &[u8], want: Op) -> bool {
    let mut b = b;
    let off = off as usize;
    note!("  offset   {}", off);
    if off + with.len() > b.len() {
        return false;
    }
    let before = one(&b);
    b.as_mut()[off..off + with.len()].copy_from_slice(with);
    note!("  expected {:?}", want);
    match (before, one(&b)) {
        (Some(x), Some(y)) => y.op == want && x.imm_at == off && x.imm_len == with.len(),
        _ => false,
    }
}
