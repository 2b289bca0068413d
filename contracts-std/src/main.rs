//! The text functions of std against their contracts in extract/prelude/vxs.rs and
//! vx.rs, for every string of up to N characters over an alphabet (bounded).
use std::io::{BufRead, BufReader};

const ALPHA: [char; 12] = [' ', '\t', '\n', '"', ':', ',', 'a', '+', '0', 'f', 'é', '\u{3000}'];

fn ws(c: char) -> bool { c.is_whitespace() }
fn first_pos(s: &[char], p: impl Fn(char) -> bool) -> usize { (0..s.len()).find(|&i| p(s[i])).unwrap_or(s.len()) }
fn skip_while(s: &[char], p: impl Fn(char) -> bool) -> &[char] { &s[first_pos(s, |c| !p(c))..] }
fn drop_while(s: &[char], p: impl Fn(char) -> bool) -> &[char] {
    let mut n = s.len();
    while n > 0 && p(s[n - 1]) { n -= 1; }
    &s[..n]
}
fn words(s: &[char]) -> Vec<Vec<char>> {
    let mut out = vec![];
    let mut t = skip_while(s, ws);
    while !t.is_empty() {
        let k = first_pos(t, ws);
        out.push(t[..k].to_vec());
        t = skip_while(&t[k..], ws);
    }
    out
}
fn is_at(s: &[char], p: &[char], i: usize) -> bool { i + p.len() <= s.len() && (0..p.len()).all(|k| s[i + k] == p[k]) }
fn find(s: &[char], p: &[char]) -> Option<usize> { (0..=s.len()).find(|&i| is_at(s, p, i)) }
fn text(s: &[char]) -> String {
    let mut t = String::new();
    for c in s { t.push(*c); }
    t
}
fn digit(c: char, radix: u32) -> Option<u128> {
    let d = match c { '0'..='9' => c as u32 - 48, 'a'..='z' => c as u32 - 87, 'A'..='Z' => c as u32 - 55, _ => return None };
    if d < radix { Some(d as u128) } else { None }
}
fn number(s: &[char], radix: u32) -> Option<u128> {
    let t = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s };
    if t.is_empty() { return None; }
    let mut n = 0u128;
    for c in t { n = n.saturating_mul(radix as u128).saturating_add(digit(*c, radix)?); }
    Some(n)
}
fn radices(c: &[char], s: &str) {
    for radix in [2, 8, 10, 16, 36] {
        let n = number(c, radix);
        macro_rules! same { ($($t:ty),*) => { $(
            assert_eq!(<$t>::from_str_radix(s, radix).ok().map(|x| x as u128), n.filter(|n| *n <= <$t>::MAX as u128), "{:?} {}", s, radix);
        )* } }
        same!(u8, u16, u32, u64);
    }
    assert_eq!(s.parse::<u64>().ok().map(|x| x as u128), number(c, 10).filter(|n| *n <= u64::MAX as u128));
    assert_eq!(s.parse::<u32>().ok().map(|x| x as u128), number(c, 10).filter(|n| *n <= u32::MAX as u128));
}
fn one(c: &[char]) {
    let s = &text(c)[..];
    assert_eq!(s.chars().collect::<Vec<_>>(), c);
    assert_eq!(s.trim(), text(drop_while(skip_while(c, ws), ws)));
    assert_eq!(s.trim_start(), text(skip_while(c, ws)));
    assert_eq!(s.trim_end(), text(drop_while(c, ws)));
    let w: Vec<Vec<char>> = s.split_whitespace().map(|w| w.chars().collect()).collect();
    assert_eq!(w, words(c));
    assert_eq!(s.split_whitespace().count(), w.len());
    let mut it = s.split_whitespace();
    for x in &w { assert_eq!(it.next(), Some(&text(x)[..])); }
    assert_eq!(it.next(), None);
    assert_eq!(it.next(), None);
    for x in ALPHA {
        let k = first_pos(c, |y| y == x);
        let want = if k < c.len() { Some((text(&c[..k]), text(&c[k + 1..]))) } else { None };
        let got = s.split_once(x).map(|(a, b)| (a.to_string(), b.to_string()));
        assert_eq!(got, want);
        assert_eq!(s.trim_start_matches(x), text(skip_while(c, |y| y == x)));
        assert_eq!(s.trim_end_matches(x), text(drop_while(c, |y| y == x)));
        assert_eq!(s.strip_prefix(x), if !c.is_empty() && c[0] == x { Some(&s[x.len_utf8()..]) } else { None });
        assert_eq!(s.strip_suffix(x), if !c.is_empty() && c[c.len() - 1] == x { Some(&s[..s.len() - x.len_utf8()]) } else { None });
        assert_eq!(s.starts_with(x), !c.is_empty() && c[0] == x);
        assert_eq!(s.ends_with(x), !c.is_empty() && c[c.len() - 1] == x);
        assert_eq!(s.contains(x), k < c.len());
        assert_eq!(s.split(x).next().unwrap(), text(&c[..k]));
        assert_eq!(s.find(x), if k < c.len() { Some(text(&c[..k]).len()) } else { None });
    }
    let k = first_pos(c, ws);
    let want = if k < c.len() { Some((text(&c[..k]), text(&c[k + 1..]))) } else { None };
    assert_eq!(s.split_once(|c: char| c.is_whitespace()).map(|(a, b)| (a.to_string(), b.to_string())), want);
    let d = |y: char| y.is_ascii_digit() || y == '"';
    assert_eq!(s.trim_start_matches(d), text(skip_while(c, d)));
    assert_eq!(s.trim_end_matches(d), text(drop_while(c, d)));
    for p in ["a", "  ", ", ", "\"", "0f", "a:", "é\u{3000}", ",a"] {
        let q: Vec<char> = p.chars().collect();
        let k = find(c, &q);
        let want = k.map(|k| (text(&c[..k]), text(&c[k + q.len()..])));
        assert_eq!(s.split_once(p).map(|(a, b)| (a.to_string(), b.to_string())), want);
        assert_eq!(s.contains(p), k.is_some());
        assert_eq!(s.starts_with(p), is_at(c, &q, 0));
        assert_eq!(s.ends_with(p), c.len() >= q.len() && is_at(c, &q, c.len() - q.len()));
        assert_eq!(s.strip_prefix(p), if is_at(c, &q, 0) { Some(&s[p.len()..]) } else { None });
    }
    let mut at = 0;
    for n in 0..=c.len() {
        let (a, b) = s.split_at(at);
        assert!(a == text(&c[..n]) && b == text(&c[n..]));
        if n < c.len() { at += c[n].len_utf8(); }
    }
    assert_eq!(s.is_ascii(), c.iter().all(|x| *x as u32 <= 127));
    assert_eq!(s.is_empty(), c.is_empty());
    assert_eq!(String::from_utf8(s.bytes().collect()).unwrap(), s);
    assert_eq!(std::str::from_utf8(s.as_bytes()).unwrap(), s);
    if s.is_ascii() {
        assert_eq!(s.len(), c.len());
        assert!(s.bytes().zip(c).all(|(b, c)| b as u32 == *c as u32));
    }
    radices(c, s);
    lines(s.as_bytes(), true);
}
/// `read_line`: up to and with the newline, appended; an error when it is not UTF-8
fn lines(b: &[u8], valid: bool) {
    for cap in [1, 2, 64] {
        let mut r = BufReader::with_capacity(cap, b);
        let mut todo = b;
        loop {
            let n = todo.iter().position(|x| *x == 10).map(|k| k + 1).unwrap_or(todo.len());
            let mut buf = String::from("x");
            match r.read_line(&mut buf) {
                Ok(k) => {
                    assert_eq!(k, n);
                    assert_eq!(buf, format!("x{}", std::str::from_utf8(&todo[..n]).unwrap()));
                }
                Err(_) => { assert!(!valid && std::str::from_utf8(&todo[..n]).is_err()); break; }
            }
            todo = &todo[n..];
            if n == 0 { break; }
        }
    }
}
fn all<T: Copy>(alpha: &[T], n: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
    f(cur);
    if cur.len() == n { return; }
    for x in alpha {
        cur.push(*x);
        all(alpha, n, cur, f);
        cur.pop();
    }
}
fn main() {
    let n: usize = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(4);
    let mut cases = 0u64;
    all(&ALPHA, n, &mut vec![], &mut |c| { one(c); cases += 1; });
    let digits = ['+', '-', '0', '1', '9', 'a', 'F', 'g', 'Z', '_', '٣'];
    all(&digits, n + 1, &mut vec![], &mut |c| { radices(c, &text(c)); cases += 1; });
    for top in [u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128] {
        for x in [top - 1, top, top + 1, top * 10, top * 16 + 15] {
            for s in [format!("{}", x), format!("+{}", x), format!("{:x}", x), format!("{:X}", x), format!("000{}", x), format!("{:b}", x)] {
                radices(&s.chars().collect::<Vec<_>>(), &s);
                cases += 1;
            }
        }
    }
    let bytes = [b'a', b'\n', b'\r', 0, 0x80, 0xc3, 0xa9, 0xff];
    all(&bytes, n + 1, &mut vec![], &mut |b| {
        lines(b, false);
        if b.iter().all(|x| *x <= 127) {
            let s = String::from_utf8(b.to_vec()).unwrap();
            assert!(s.is_ascii() && s.as_bytes() == b);
        } else if let Ok(s) = String::from_utf8(b.to_vec()) { assert_eq!(s.as_bytes(), b); }
        assert_eq!(std::str::from_utf8(b).is_ok(), String::from_utf8(b.to_vec()).is_ok());
        cases += 1;
    });
    for c in '\0'..=char::MAX {
        if c as u32 <= 127 { assert_eq!(ws(c), c == ' ' || (9..=13).contains(&(c as u32))); }
        cases += 1;
    }
    println!("{} cases", cases);
}
