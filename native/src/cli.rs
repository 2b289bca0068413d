//! C22, C23: the command line program, in a scratch directory of its own.
use crate::asm::{program, Line, Mix};
use crate::rng::Rng;
use crate::{ensure, Res};
use std::{fs, path::PathBuf, process::Command};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn c22(r: &mut Rng) -> Res {
    let bin = std::env::var("AT_ASM_BIN").expect("AT_ASM_BIN");
    let dir = PathBuf::from(std::env::var("ORACLE_SCRATCH").unwrap_or("/tmp".into())).join(format!("oracle-c22-{}-{:x}", std::process::id(), r.next()));
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let dir = Scratch(dir);
    let kind = *r.pick(&["line", "inst", "data", "literal"]);
    let mut p = program(r, &Mix { inst: 4, data: 2, label: 2, section: 2, global: 1, blank: 1, bad: Some(kind), bad_one_in: 1 });
    match r.below(8) {
        // input that is no text
        0 => {
            let at = r.below(p.text.len() + 1);
            p.text.splice(at..at, [0xff, 0xfe, b'\n']);
        }
        // a good source but for a symbol nobody defines
        1 => {
            p.lines.retain(|l| !matches!(l.1, Line::Bad(_)));
            p.text = p.lines.iter().map(|l| format!("{}\n", l.0)).collect::<String>().into_bytes();
            p.text.extend(b"section .text\nmov rax, nobody_defines_this\n");
        }
        // code in .bss
        2 => p.text = b"section .bss\nx:\n  ret\n".to_vec(),
        _ => {}
    }
    let input = dir.0.join("in.s");
    let old: Vec<u8> = (0..r.below(200)).map(|_| r.next() as u8).collect();
    let (out, args): (PathBuf, Vec<PathBuf>) = match r.below(6) {
        4 => (dir.0.join("in.o"), vec!["in.s".into()]),
        5 => (dir.0.join("in.s"), vec!["./in.s".into(), "-o".into(), "in.s".into()]),
        0 => (dir.0.join("in.o"), vec![input.clone()]),
        1 => (dir.0.join("out.o"), vec!["-o".into(), dir.0.join("out.o"), input.clone()]),
        2 => (dir.0.join("out.o"), vec![input.clone(), "-o".into(), dir.0.join("out.o")]),
        _ => (input.clone(), vec![input.clone(), "-o".into(), input.clone()]),
    };
    let missing = r.chance(8) && out != input;
    if !missing {
        fs::write(&input, &p.text).map_err(|e| e.to_string())?;
    }
    let exists = out != input && !r.chance(4);
    if exists {
        fs::write(&out, &old).map_err(|e| e.to_string())?;
    }
    let o = Command::new(&bin).env("RUST_BACKTRACE", "0").args(&args).current_dir(&dir.0).output().map_err(|e| format!("{}: {}", bin, e))?;
    let ctx = format!("at-asm {:?}\nsource\n---\n{}\n---\nstatus {:?}\n", args, String::from_utf8_lossy(&p.text), o.status);
    ensure!(!o.status.success(), "{}the input cannot be assembled, yet the exit status is 0", ctx);
    if !missing {
        ensure!(fs::read(&input).ok().as_ref() == Some(&p.text), "{}the input file was changed", ctx);
    }
    if exists {
        ensure!(fs::read(&out).ok() == Some(old), "{}the existing output file was changed", ctx);
    }
    Ok(())
}

fn listing(d: &std::path::Path, out: &mut Vec<(PathBuf, Vec<u8>)>) {
    for e in fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            listing(&e.path(), out)
        } else {
            out.push((e.path(), fs::read(e.path()).unwrap_or_default()))
        }
    }
    out.sort();
}

/// C23: what a successful run writes, and where.
pub fn c23(r: &mut Rng) -> Res {
    let bin = std::env::var("AT_ASM_BIN").expect("AT_ASM_BIN");
    let dir = PathBuf::from(std::env::var("ORACLE_SCRATCH").unwrap_or("/tmp".into())).join(format!("oracle-c23-{}-{:x}", std::process::id(), r.next()));
    fs::create_dir_all(dir.join("sub.d")).map_err(|e| e.to_string())?;
    let dir = Scratch(dir);
    let p = program(r, &Mix { inst: 4, data: 2, label: 2, section: 2, global: 1, blank: 1, bad: None, bad_one_in: 1 });
    let want = match crate::asm::assemble(&p.text) {
        crate::asm::Out::Bytes(b) => b,
        _ => return Ok(()),
    };
    // input name, output name if none is given
    let (name, default) = *r.pick(&[("in.s", "in.o"), ("in", "in.o"), ("a.b.asm", "a.b.o"), ("sub.d/in", "sub.d/in.o"), ("sub.d/x.s", "sub.d/x.o"), (".hidden", ".hidden.o"), ("in.o", "in.o"), ("-x.s", "-x.o"),
        ("a b.s", "a b.o"), ("é.s", "é.o"), ("in.", "in.o"), ("./in.s", "./in.o"), ("sub.d/../in.s", "sub.d/../in.o"), ("x.tar.gz.s", "x.tar.gz.o"), ("IN.S", "IN.o"), ("sub.d/.s", "sub.d/.s.o"), ("in.O", "in.o"), ("o", "o.o"), ("long_name_long_name_long_name_long_name_long_name_long_name_long_name.assembly", "long_name_long_name_long_name_long_name_long_name_long_name_long_name.o"),
    ]);
    let given = *r.pick(&["out.o", "out", "sub.d/out.bin", "in.s", "-p", "x.o.o", "./out.o", "-", "--", "-O", "-o", "out o", "sub.d/../out.o", "é", ".o", "in.o", "-oo", "--output"]);
    let input = dir.0.join(name);
    let (named, mut args): (bool, Vec<String>) = match r.below(4) {
        0 | 1 => (false, vec![name.into()]),
        2 => (true, vec!["-o".into(), given.into(), name.into()]), // "-o -o" names a file of that name
        _ => (true, vec![name.into(), "-o".into(), given.into()]),
    };
    if r.chance(6) {
        // the same names, from the root
        for a in args.iter_mut() {
            if a == name || a == given && !a.starts_with('-') {
                *a = dir.0.join(&a).display().to_string();
            }
        }
    }
    let out = dir.0.join(if named { given } else { default }.replace("sub.d/../", ""));
    if r.chance(3) {
        fs::write(&out, (0..{ let n = if r.chance(9) { 200_000 } else { 3000 }; r.below(n) }).map(|_| r.next() as u8).collect::<Vec<u8>>()).map_err(|e| e.to_string())?;
    }
    for f in ["in.o", "out.o", "a.out", "other", "in.s"] {
        if r.chance(3) {
            fs::write(dir.0.join(f), vec![b'#'; r.below(300)]).map_err(|e| e.to_string())?;
        }
    }
    fs::write(&input, &p.text).map_err(|e| e.to_string())?;
    let wrong = r.chance(6);
    if wrong {
        // no input, two inputs, -o without a path
        match r.below(4) {
            3 if named => { let o = r.pick(&[" -o", "-o ", "-O", "--o", "-oo", "−o", "/o", "-o=", "--output", "\u{a0}-o"]).to_string(); for a in args.iter_mut() { if a == "-o" { *a = o.clone() } } }
            0 => args = if r.chance(2) { vec![] } else { vec!["-o".into(), "other".into()] },
            1 if r.chance(3) => args.extend(["other".into(), "x.s".into()]),
            1 => {
                let k = r.below(args.len() + 1);
                let extra = r.pick(&["other", "other", "--", "-", "", " ", "-o ", " -o", "-O", "x.s", "-O2", "/dev/null"]).to_string();
                if k > 0 && args[k - 1] == "-o" {
                    args.push(extra)
                } else {
                    args.insert(k, extra)
                }
            }
            _ => {
                args = vec![name.into(), "-o".into()];
            }
        }
    }
    let mut before = vec![];
    listing(&dir.0, &mut before);
    let o = Command::new(&bin).env("RUST_BACKTRACE", "0").args(&args).current_dir(&dir.0).output().map_err(|e| format!("{}: {}", bin, e))?;
    let mut after = vec![];
    listing(&dir.0, &mut after);
    let ctx = format!("at-asm {:?}\nsource\n---\n{}\n---\nstatus {:?}\n", args, String::from_utf8_lossy(&p.text), o.status);
    if wrong {
        ensure!(!o.status.success(), "{}the command line is not understood, yet the exit status is 0", ctx);
        ensure!(before == after, "{}files were changed although the command line is not understood", ctx);
        return Ok(());
    }
    ensure!(o.status.success(), "{}the run failed: {}", ctx, String::from_utf8_lossy(&o.stderr));
    before.retain(|f| f.0 != out);
    before.push((out.clone(), want));
    before.sort();
    for f in &before {
        match after.iter().find(|x| x.0 == f.0) {
            None => ensure!(false, "{}{} is missing", ctx, f.0.display()),
            Some(x) => ensure!(x.1 == f.1, "{}{} has {} bytes {:02x?}, expected {} bytes {:02x?}", ctx, f.0.display(), x.1.len(), &x.1[..x.1.len().min(64)], f.1.len(), &f.1[..f.1.len().min(64)]),
        }
    }
    for x in &after {
        ensure!(before.iter().any(|f| f.0 == x.0), "{}{} was created", ctx, x.0.display());
    }
    Ok(())
}
