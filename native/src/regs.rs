//! C19: register names.
use crate::asm::{assemble, Out, R16, R32, R64, R8};
use crate::decode::{decode, Op, Operand};
use crate::obj::parse;
use crate::rng::Rng;
use crate::{ensure, Res};
use at_x64::reg;

macro_rules! all {
    ($t:ident: $($v:ident)*) => { [$(reg::$t::$v),*] };
}

pub fn c19(r: &mut Rng) -> Res {
    // the processor's numbering
    let q = all!(Reg64: RAX RCX RDX RBX RSP RBP RSI RDI R8 R9 R10 R11 R12 R13 R14 R15);
    let d = all!(Reg32: EAX ECX EDX EBX ESP EBP ESI EDI R8D R9D R10D R11D R12D R13D R14D R15D);
    let w = all!(Reg16: AX CX DX BX SP BP SI DI R8W R9W R10W R11W R12W R13W R14W R15W);
    let b = all!(Reg8: AL CL DL BL SPL BPL SIL DIL R8B R9B R10B R11B R12B R13B R14B R15B);
    for i in 0..16 {
        for (got, name) in [
            (q[i].to_string(), R64[i]), (d[i].to_string(), R32[i]), (w[i].to_string(), R16[i]), (b[i].to_string(), R8[i]),
            (reg::Reg::Reg64(q[i]).to_string(), R64[i]), (reg::Reg::Reg32(d[i]).to_string(), R32[i]),
            (reg::Reg::Reg16(w[i]).to_string(), R16[i]), (reg::Reg::Reg8(b[i]).to_string(), R8[i]),
        ] {
            ensure!(got == name, "register {} is printed as {}", name, got);
        }
        ensure!(d[i].to_reg64() == q[i], "{:?} is the low half of {:?}", d[i], d[i].to_reg64());
        ensure!(w[i].to_reg32() == d[i], "{:?} is the low half of {:?}", w[i], w[i].to_reg32());
        let codes = [(q[i].register_code(), q[i].is_extended()), (d[i].register_code(), d[i].is_extended()), (w[i].register_code(), w[i].is_extended())];
        ensure!(codes.iter().all(|c| *c == (i as u8 & 7, i >= 8)), "register number {} has the codes {:?}", i, codes);
    }
    if r.chance(16) {
        // every name, as destination, in one source
        let mut src = String::new();
        let mut want = vec![];
        let start = r.below(16);
        for i in 0..16usize {
            let n = (start + i * 5) % 16;
            for (size, name) in [(8u8, R64[n]), (4, R32[n]), (2, R16[n])] {
                src += &format!("mov {}, 1\n", name);
                want.push((name, size, n as u8));
            }
        }
        match assemble(src.as_bytes()) {
            Out::Rejected(h, m) => return Err(format!("a register name is rejected ({}): {}", h, m)),
            Out::Bytes(o) => {
                let f = parse(&o)?;
                let text = &f.sects[0].bytes;
                let mut at = 0;
                for (name, size, n) in want {
                    let x = decode(&text[at..]).ok_or("no instruction")?;
                    match x.op {
                        Op::MovImm { size: s, dst: Operand::Reg(k), imm: 1 } if s == size && k == n => {}
                        op => return Err(format!("mov {}, 1 assembles to {:?}", name, op)),
                    }
                    at += x.len;
                }
            }
        }
    }
    // no other text is a register name
    for _ in 0..40 {
        let base = [R64, R32, R16, R8][r.below(4)][r.below(16)];
        let t: String = match r.below(12) {
            0 => base.to_uppercase(),
            1 => format!("{}{}", base, r.pick(&["x", "d", "w", "b", "0", "l", "1"])),
            2 => base[..base.len() - 1].to_string(),
            3 => base[1..].to_string(),
            4 => format!("{}{}", r.pick(&["e", "r", "%", "x"]), base),
            5 => r.pick(&["r16", "r07", "r8dd", "eip", "rip", "r00", "xax", "ah", "spx", "r1", "r0", "r7", "r-8", "mm0", "cs"]).to_string(),
            6 => base.to_string(),
            k => {
                // one character replaced, put in, or two exchanged
                let mut t: Vec<u8> = base.bytes().collect();
                let c = if r.chance(2) { *r.pick(b"o0l1iOdwbxe_") } else { *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") };
                let at = r.below(t.len());
                match k {
                    7 | 8 | 9 => t[at] = c,
                    10 => t.insert(at, c),
                    _ => { let q = r.below(t.len()); t.swap(at, q) }
                }
                String::from_utf8(t).unwrap()
            }
        };
        if R64.contains(&&t[..]) || R32.contains(&&t[..]) || R16.contains(&&t[..]) {
            continue;
        }
        for src in [format!("mov {}, 1\n", t), format!("push {}\n", t)] {
            if src.starts_with("push") && t.bytes().all(|c| c.is_ascii_digit()) {
                continue;
            }
            if let Out::Bytes(_) = assemble(src.as_bytes()) {
                return Err(format!("{:?} is taken for a register in {:?}", t, src));
            }
        }
    }
    Ok(())
}
