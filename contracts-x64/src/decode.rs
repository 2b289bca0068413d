//! Specification side: what a processor does with a byte string.
//!
//! Written from the Intel SDM (vol. 2, chapter 2 "Instruction format", and the
//! opcode pages of MOV, LEA, PUSH, POP, RET, SYSCALL) for 64-bit mode.  It
//! shares no code with the encoder under verification.  It accepts every
//! encoding of the operations, not just the one the encoder happens to pick.

/// An address, as a function of the register file: `sum(coef[r] * r) + rip? + disp`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Addr {
    pub coef: [u8; 16],
    pub rip: bool,
    /// sign-extended displacement
    pub disp: i32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Operand {
    Reg(u8),
    Mem(Addr),
}

/// What the processor does.  `size` is the operand size in bytes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// copy `size` bytes
    MovReg { size: u8, dst: Operand, src: Operand },
    /// write the value `imm` (already extended to `size` bytes)
    MovImm { size: u8, dst: Operand, imm: u64 },
    Lea { size: u8, dst: u8, addr: Addr },
    /// push a register, `size` bytes
    PushReg { size: u8, reg: u8 },
    /// push an immediate, already sign-extended to `size` bytes
    PushImm { size: u8, imm: u64 },
    PopReg { size: u8, reg: u8 },
    Ret,
    Syscall,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Decoded {
    pub op: Op,
    /// number of bytes the instruction occupies
    pub len: usize,
    /// where the immediate is, and how wide it is (0, 0) if there is none
    pub imm_at: usize,
    pub imm_len: usize,
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
    bad: bool,
}

impl<'a> Cur<'a> {
    fn u8(&mut self) -> u8 {
        if self.i < self.b.len() {
            let v = self.b[self.i];
            self.i += 1;
            v
        } else {
            self.bad = true;
            0
        }
    }
    fn u16(&mut self) -> u16 {
        let a = self.u8() as u16;
        let b = self.u8() as u16;
        a | b << 8
    }
    fn u32(&mut self) -> u32 {
        let a = self.u16() as u32;
        let b = self.u16() as u32;
        a | b << 16
    }
    fn u64(&mut self) -> u64 {
        let a = self.u32() as u64;
        let b = self.u32() as u64;
        a | b << 32
    }
}

/// ModRM (+SIB, +disp): returns (reg field incl. REX.R, r/m operand)
fn mod_rm(c: &mut Cur, rex: u8) -> (u8, Operand) {
    let m = c.u8();
    let md = m >> 6;
    let reg = (m >> 3 & 7) | (rex >> 2 & 1) << 3;
    let rm = m & 7;
    let rex_b = (rex & 1) << 3;
    let rex_x = (rex >> 1 & 1) << 3;
    if md == 3 {
        return (reg, Operand::Reg(rm | rex_b));
    }
    let mut a = Addr { coef: [0; 16], rip: false, disp: 0 };
    let mut disp32_only = false;
    if rm == 4 {
        let s = c.u8();
        let scale = 1u8 << (s >> 6);
        let index = (s >> 3 & 7) | rex_x;
        let base = s & 7;
        if index != 4 {
            a.coef[index as usize] += scale;
        }
        if base == 5 && md == 0 {
            disp32_only = true;
        } else {
            a.coef[(base | rex_b) as usize] += 1;
        }
    } else if rm == 5 && md == 0 {
        a.rip = true;
        disp32_only = true;
    } else {
        a.coef[(rm | rex_b) as usize] += 1;
    }
    if disp32_only || md == 2 {
        a.disp = c.u32() as i32;
    } else if md == 1 {
        a.disp = c.u8() as i8 as i32;
    }
    (reg, Operand::Mem(a))
}

fn sext(v: u64, from: u8, to: u8) -> u64 {
    // sign-extend `from` bytes to `to` bytes
    let v = match from {
        1 => v as u8 as i8 as i64 as u64,
        2 => v as u16 as i16 as i64 as u64,
        4 => v as u32 as i32 as i64 as u64,
        _ => v,
    };
    trunc(v, to)
}

pub fn trunc(v: u64, to: u8) -> u64 {
    match to {
        1 => v & 0xff,
        2 => v & 0xffff,
        4 => v & 0xffff_ffff,
        _ => v,
    }
}

/// Decode one instruction from the front of `b`.
pub fn decode(b: &[u8]) -> Option<Decoded> {
    let mut c = Cur { b, i: 0, bad: false };
    let mut opsize16 = false;
    let mut op = c.u8();
    if op == 0x66 {
        opsize16 = true;
        op = c.u8();
    }
    let mut rex = 0u8;
    if op & 0xf0 == 0x40 {
        rex = op;
        op = c.u8();
    }
    let w = rex & 8 != 0;
    let size: u8 = if w {
        8
    } else if opsize16 {
        2
    } else {
        4
    };
    // push/pop default to 64 bits
    let stack_size: u8 = if opsize16 && !w { 2 } else { 8 };
    let oreg = (op & 7) | (rex & 1) << 3;
    let mut imm_at = 0;
    let mut imm_len = 0;
    let what = match op {
        0x89 | 0x8b => {
            let (reg, rm) = mod_rm(&mut c, rex);
            if op == 0x89 {
                Op::MovReg { size, dst: rm, src: Operand::Reg(reg) }
            } else {
                Op::MovReg { size, dst: Operand::Reg(reg), src: rm }
            }
        }
        0x8d => {
            let (reg, rm) = mod_rm(&mut c, rex);
            match rm {
                Operand::Mem(addr) => Op::Lea { size, dst: reg, addr },
                Operand::Reg(_) => return None,
            }
        }
        0xb8..=0xbf => {
            imm_at = c.i;
            let imm = if size == 8 {
                imm_len = 8;
                c.u64()
            } else if size == 2 {
                imm_len = 2;
                c.u16() as u64
            } else {
                imm_len = 4;
                c.u32() as u64
            };
            Op::MovImm { size, dst: Operand::Reg(oreg), imm }
        }
        0xc7 => {
            let (reg, rm) = mod_rm(&mut c, rex & !4);
            if reg != 0 {
                return None;
            }
            imm_at = c.i;
            let imm = if size == 2 {
                imm_len = 2;
                c.u16() as u64
            } else {
                imm_len = 4;
                sext(c.u32() as u64, 4, size)
            };
            Op::MovImm { size, dst: rm, imm }
        }
        0x50..=0x57 => Op::PushReg { size: stack_size, reg: oreg },
        0x58..=0x5f => Op::PopReg { size: stack_size, reg: oreg },
        0x6a => {
            imm_at = c.i;
            imm_len = 1;
            Op::PushImm { size: stack_size, imm: sext(c.u8() as u64, 1, stack_size) }
        }
        0x68 => {
            imm_at = c.i;
            if stack_size == 2 {
                imm_len = 2;
                Op::PushImm { size: 2, imm: c.u16() as u64 }
            } else {
                imm_len = 4;
                Op::PushImm { size: 8, imm: sext(c.u32() as u64, 4, 8) }
            }
        }
        0xc3 => {
            if opsize16 {
                return None;
            }
            Op::Ret
        }
        0x0f => {
            if c.u8() != 0x05 || opsize16 {
                return None;
            }
            Op::Syscall
        }
        _ => return None,
    };
    if c.bad {
        return None;
    }
    Some(Decoded { op: what, len: c.i, imm_at, imm_len })
}
