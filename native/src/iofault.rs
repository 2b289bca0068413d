//! C21: sinks that split, interrupt or fail writes; sources that split, end
//! early or fail.
use crate::asm::{assemble, isolated, program, show, Mix, Out};
use crate::mac::{record, HOST_BIG};
use crate::layout::bytes;
use crate::rng::Rng;
use crate::{attempt, ensure, Res};
use std::io::{Error, ErrorKind, Read, Write};

#[derive(Debug, Clone, Copy)]
enum Fault {
    None,
    /// after so many bytes, an error
    Error(usize),
    /// after so many bytes, `Ok(0)`
    Zero(usize),
    /// after so many bytes one error, and no further one
    ErrorOnce(usize),
    /// after so many bytes one `Ok(0)`, and no further one
    ZeroOnce(usize),
}

struct Sink {
    got: Vec<u8>,
    rng: Rng,
    fault: Fault,
    max: usize,
    interrupted: bool,
    failed: bool,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        if b.is_empty() {
            return Ok(0);
        }
        if !self.interrupted && self.rng.chance(4) {
            self.interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let room = match self.fault {
            Fault::None => usize::MAX,
            Fault::ErrorOnce(_) | Fault::ZeroOnce(_) if self.failed => usize::MAX,
            Fault::Error(n) | Fault::Zero(n) | Fault::ErrorOnce(n) | Fault::ZeroOnce(n) => n.saturating_sub(self.got.len()),
        };
        if room == 0 {
            self.failed = true;
            return match self.fault {
                Fault::Zero(_) | Fault::ZeroOnce(_) => Ok(0),
                _ => Err(ErrorKind::Other.into()),
            };
        }
        let n = self.rng.range(1, self.max).min(b.len()).min(room);
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

struct Source<'a> {
    b: &'a [u8],
    rng: Rng,
    max: usize,
    /// an error instead of the end of the data
    fail: bool,
    /// one error with so many bytes left, and no further one
    once: Option<usize>,
    interrupted: bool,
}

impl Read for Source<'_> {
    fn read(&mut self, o: &mut [u8]) -> Result<usize, Error> {
        if o.is_empty() {
            return Ok(0);
        }
        if !self.interrupted && self.rng.chance(4) {
            self.interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        if self.b.is_empty() && self.fail {
            return Err(ErrorKind::Other.into());
        }
        if self.once == Some(self.b.len()) {
            self.once = None;
            return Err(ErrorKind::Other.into());
        }
        let n = self.rng.range(1, self.max).min(o.len()).min(self.b.len() - self.once.filter(|&k| k < self.b.len()).unwrap_or(0));
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

fn writes(r: &mut Rng, what: &str, want: &[u8], f: impl Fn(&mut Sink)) -> Res {
    let fault = match r.below(5) {
        0 => Fault::None,
        1 => Fault::Error(r.below(want.len().max(1))),
        2 => Fault::ErrorOnce(r.below(want.len().max(1))),
        3 => Fault::ZeroOnce(r.below(want.len().max(1))),
        _ => Fault::Zero(r.below(want.len().max(1))),
    };
    let mut s = Sink { got: vec![], rng: Rng::new(r.next()), fault, max: r.range(1, 9), interrupted: false, failed: false };
    let max = s.max;
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut s))).is_ok();
    match fault {
        Fault::None => {
            ensure!(ok, "{}: writing to a sink that takes up to {} bytes at a time fails", what, max);
            ensure!(s.got == want, "{}: a sink that takes up to {} bytes at a time got {:02x?}, expected {:02x?}", what, max, s.got, want);
        }
        _ => ensure!(!ok || s.got == want, "{}: the write to a sink with the fault {:?} completed, yet the sink got {:02x?} and not {:02x?}", what, fault, s.got, want),
    }
    Ok(())
}

pub fn c21(r: &mut Rng) -> Res {
    match r.below(10) {
        0..=2 => {
            let (x, f) = record(r, HOST_BIG);
            let want = bytes(&f, HOST_BIG);
            writes(r, &format!("{:?}", x), &want, |s| x.write(s))
        }
        3..=5 => {
            let big = HOST_BIG ^ r.chance(2);
            let (x, f) = record(r, big);
            let b = bytes(&f, big);
            let cut = if r.chance(2) { b.len() } else { r.below(b.len()) };
            let once = if r.chance(3) { Some(r.range(1, b.len())) } else { None };
            let cut = if once.is_some() { b.len() } else { cut };
            let mut s = Source { b: &b[..cut], rng: Rng::new(r.next()), max: r.range(1, 9), fail: r.chance(2), once, interrupted: false };
            let max = s.max;
            let y = attempt("reading", || x.read(&mut s, big));
            if let Some(k) = once {
                if let Ok(y) = y {
                    return Err(format!("the source failed once, {} bytes before the end of {:?}, yet {:?} was read", k, x, y));
                }
            } else if cut == b.len() {
                let y = y.map_err(|e| format!("{:?} from a source that gives up to {} bytes at a time: {}", x, max, e))?;
                ensure!(x.same(&y), "a source that gives up to {} bytes at a time: {:?} is read as {:?}", max, x, y);
            } else if let Ok(y) = y {
                return Err(format!("the source ended after {} of the {} bytes of {:?}, yet {:?} was read", cut, b.len(), x, y));
            }
            Ok(())
        }
        6 | 7 => {
            let o = crate::obj::object(r);
            let mut want = vec![];
            attempt("writing", || at_obj::macho::write_into(&o.obj, &mut want)).map_err(|e| format!("object\n{}{}", o.show, e))?;
            writes(r, &format!("object\n{}", o.show), &want, |s| at_obj::macho::write_into(&o.obj, s))
        }
        _ => {
            let p = program(r, &Mix { inst: 4, data: 3, label: 2, section: 2, global: 1, blank: 1, bad: None, bad_one_in: 1 });
            let Out::Bytes(want) = assemble(&p.text) else { return Ok(()) };
            let (seed, max, fail) = (r.next(), r.range(1, 9), r.chance(3));
            let once = if fail && r.chance(2) { Some(r.below(p.text.len() + 1)) } else { None };
            let cut = if fail && once.is_none() { r.below(p.text.len() + 1) } else { p.text.len() };
            let got = isolated(|| {
                let mut s = Source { b: &p.text[..cut], rng: Rng::new(seed), max, fail: fail && once.is_none(), once, interrupted: false };
                let mut out = vec![];
                at_asm::Assembler::new().read_from(&mut s).write_into(&mut out);
                out
            });
            match got {
                Out::Bytes(b) if fail => Err(format!("{}the source fails after {} bytes, yet it was assembled: {:02x?}", show(&p), once.map_or(cut, |k| p.text.len() - k), b)),
                Out::Rejected(h, _) if fail => { ensure!(h != "status 0", "{}the source fails after {} bytes, yet the exit status is 0", show(&p), once.map_or(cut, |k| p.text.len() - k)); Ok(()) }
                Out::Bytes(b) => { ensure!(b == want, "{}a source that gives up to {} bytes at a time is assembled to {:02x?}, expected {:02x?}", show(&p), max, b, want); Ok(()) }
                Out::Rejected(h, m) => Err(format!("{}a source that gives up to {} bytes at a time is rejected ({}): {}", show(&p), max, h, m)),
            }
        }
    }
}
