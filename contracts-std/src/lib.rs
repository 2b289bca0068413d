//! The contracts that extract/prelude/vx.rs and vxs.rs assume about std and
//! byteorder, stated over the real functions.  Fixed-width functions are decided
//! for every argument; functions over slices and vectors for every content up to
//! the length given with the harness (bounded).
#[cfg(kani)]
mod harness {
    use byteorder::{BigEndian, LittleEndian, ReadBytesExt, WriteBytesExt};
    use std::convert::TryFrom;
    use std::io::{Read, Write};

    /// the encoding `enc(big, n, k)` of the prelude
    fn enc(big: bool, n: u64, k: usize, i: usize) -> u8 {
        let place = if big { k - 1 - i } else { i };
        (n >> (8 * place)) as u8
    }
    fn is_enc(b: &[u8], big: bool, n: u64, k: usize) -> bool {
        let mut i = 0;
        if b.len() != k { return false; }
        while i < k { if b[i] != enc(big, n, k, i) { return false; } i += 1; }
        true
    }

    macro_rules! bytes { ($name:ident, $t:ty, $u:ty, $k:expr) => {
        #[kani::proof] #[kani::unwind(10)]
        fn $name() {
            let x: $t = kani::any();
            let n = x as $u as u64;
            assert!(is_enc(&x.to_le_bytes(), false, n, $k));
            assert!(is_enc(&x.to_be_bytes(), true, n, $k));
            assert!(is_enc(&x.to_ne_bytes(), false, n, $k));
            let b: [u8; $k] = kani::any();
            assert!(is_enc(&b, false, <$t>::from_le_bytes(b) as $u as u64, $k));
            assert!(is_enc(&b, true, <$t>::from_be_bytes(b) as $u as u64, $k));
            kani::cover!(true, "reachable");
        }
    } }
    bytes!(std_bytes_u8, u8, u8, 1);
    bytes!(std_bytes_u16, u16, u16, 2);
    bytes!(std_bytes_u32, u32, u32, 4);
    bytes!(std_bytes_i32, i32, u32, 4);
    bytes!(std_bytes_u64, u64, u64, 8);

    macro_rules! wrap { ($name:ident, $mul:ident, $t:ty, $u:ty) => {
        #[kani::proof]
        fn $name() {
            let a: $t = kani::any();
            let b: $t = kani::any();
            let m = 1i128 << <$t>::BITS;
            let low = |n: i128| -> i128 {
                let r = n & (m - 1);
                if <$t>::MIN == 0 || r < m / 2 { r } else { r - m }
            };
            assert!(a.wrapping_add(b) as i128 == low(a as i128 + b as i128));
            assert!(a.wrapping_sub(b) as i128 == low(a as i128 - b as i128));
            assert!(a.wrapping_neg() as i128 == low(-(a as i128)));
            kani::cover!(true, "reachable");
        }
        #[kani::proof]
        fn $mul() {
            let a: $t = kani::any();
            let b: $t = kani::any();
            kani::assume(<$t>::MIN == 0 || (b as i128 <= 7 && b as i128 >= -8)); // bounded for the signed ones
            // the low bits of a product do not depend on the operands' higher bits or signs
            assert!(a.wrapping_mul(b) == ((a as $u).wrapping_mul(b as $u)) as $t);
            kani::cover!(true, "reachable");
        }
    } }
    wrap!(std_wrap_u8, std_wrap_mul_u8, u8, u128);
    wrap!(std_wrap_u16, std_wrap_mul_u16, u16, u128);
    wrap!(std_wrap_u32, std_wrap_mul_u32, u32, u128);
    wrap!(std_wrap_i32, std_wrap_mul_i32, i32, u32);
    wrap!(std_wrap_u64, std_wrap_mul_u64, u64, u128);
    wrap!(std_wrap_i64, std_wrap_mul_i64, i64, u64);

    /// r is the smallest multiple of m that is not below a, and q = r / m
    macro_rules! round { ($name:ident, $t:ty, $bits:expr) => {
        #[kani::proof]
        fn $name() {
            let a: $t = kani::any();
            let m: $t = kani::any();
            kani::assume(m > 0 && (m as u128) < (1u128 << $bits) && (a as u128) < (1u128 << $bits));
            let q = a.div_ceil(m);
            assert!(q as u128 * m as u128 >= a as u128 && (q as u128 * m as u128) < a as u128 + m as u128);
            if a as u128 + (m as u128 - 1) <= <$t>::MAX as u128 {
                let r = a.next_multiple_of(m);
                assert!(r == q * m);
            }
            kani::cover!(true, "reachable");
        }
    } }
    round!(std_round_u32, u32, 10);   // bounded: operands below 2^10
    round!(std_round_u64, u64, 10);
    round!(std_round_usize, usize, 10);

    #[kani::proof]
    fn std_try_from() {
        let t: u64 = kani::any();
        assert!(u32::try_from(t).ok() == if t <= u32::MAX as u64 { Some(t as u32) } else { None });
        assert!(u16::try_from(t).ok() == if t <= u16::MAX as u64 { Some(t as u16) } else { None });
        assert!(u8::try_from(t).ok() == if t <= u8::MAX as u64 { Some(t as u8) } else { None });
        kani::cover!(true, "reachable");
    }

    /// written after whatever the sink held (here one byte)
    macro_rules! put { ($name:ident, $w:ident, $r:ident, $t:ty, $u:ty, $k:expr) => {
        #[kani::proof] #[kani::unwind(12)]
        fn $name() {
            let first: u8 = kani::any();
            let x: $t = kani::any();
            let mut v = vec![first];
            assert!(v.$w::<LittleEndian>(x).is_ok());
            assert!(v[0] == first && is_enc(&v[1..], false, x as $u as u64, $k));
            let mut v = vec![first];
            assert!(v.$w::<BigEndian>(x).is_ok());
            assert!(v[0] == first && is_enc(&v[1..], true, x as $u as u64, $k));
            let b: [u8; $k + 1] = kani::any();
            let mut s = &b[..];
            match s.$r::<BigEndian>() { Ok(n) => assert!(is_enc(&b[..$k], true, n as $u as u64, $k)), Err(_) => assert!(false) }
            assert!(s.len() == 1 && s[0] == b[$k]);
            let mut s = &b[..];
            match s.$r::<LittleEndian>() { Ok(n) => assert!(is_enc(&b[..$k], false, n as $u as u64, $k)), Err(_) => assert!(false) }
            assert!(s.len() == 1 && s[0] == b[$k]);
            kani::cover!(true, "reachable");
        }
    } }
    put!(std_put_u16, write_u16, read_u16, u16, u16, 2);
    put!(std_put_u32, write_u32, read_u32, u32, u32, 4);
    put!(std_put_i32, write_i32, read_i32, i32, u32, 4);
    put!(std_put_u64, write_u64, read_u64, u64, u64, 8);

    #[kani::proof] #[kani::unwind(12)]
    fn std_put_u8() {
        let first: u8 = kani::any();
        let x: u8 = kani::any();
        let mut v = vec![first];
        assert!(v.write_u8(x).is_ok());
        assert!(v.len() == 2 && v[0] == first && v[1] == x);
        let b: [u8; 2] = kani::any();
        let mut s = &b[..];
        match s.read_u8() { Ok(n) => assert!(n == b[0]), Err(_) => assert!(false) }
        assert!(s.len() == 1 && s[0] == b[1]);
        kani::cover!(true, "reachable");
    }
    /// a front of an array: `(&mut buf[..]).write_u32`
    #[kani::proof] #[kani::unwind(12)]
    fn std_front_u32() {
        let x: u32 = kani::any();
        let old: [u8; 6] = kani::any();
        let mut b = old;
        assert!((&mut b[..]).write_u32::<LittleEndian>(x).is_ok());
        assert!(is_enc(&b[..4], false, x as u64, 4) && b[4] == old[4] && b[5] == old[5]);
        let mut c = [0u8; 3];
        assert!((&mut c[..]).write_u32::<LittleEndian>(x).is_err());
        kani::cover!(true, "reachable");
    }
    /// sources too short: an error (bounded: up to 8 bytes asked for)
    #[kani::proof] #[kani::unwind(12)]
    fn std_read_exact() {
        let b: [u8; 8] = kani::any();
        let have: usize = kani::any();
        let want: usize = kani::any();
        kani::assume(have <= 8 && want <= 8);
        let mut out = [0u8; 8];
        let mut s = &b[..have];
        match s.read_exact(&mut out[..want]) {
            Ok(()) => {
                assert!(want <= have && s.len() == have - want);
                let mut i = 0;
                while i < want { assert!(out[i] == b[i]); i += 1; }
            }
            Err(_) => assert!(want > have),
        }
        kani::cover!(true, "reachable");
    }
    #[kani::proof] #[kani::unwind(12)]
    fn std_chain() {
        let front: [u8; 4] = kani::any();
        let b: [u8; 4] = kani::any();
        let mut s = &b[..];
        let mut c = (&front[..]).chain(&mut s);
        let mut out = [0u8; 6];
        assert!(c.read_exact(&mut out).is_ok());
        assert!(out[..4] == front && out[4..] == b[..2]);
        assert!(s.len() == 2 && s[0] == b[2]);
        kani::cover!(true, "reachable");
    }
    /// bounded: up to 4 bytes appended to up to 4
    #[kani::proof] #[kani::unwind(10)]
    fn std_vec_bytes() {
        let a: [u8; 4] = kani::any();
        let b: [u8; 4] = kani::any();
        let (n, k): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 4 && k <= 4);
        let mut v = a[..n].to_vec();
        if kani::any() { v.extend_from_slice(&b[..k]) } else { assert!(v.write_all(&b[..k]).is_ok()) }
        assert!(v.len() == n + k);
        let i: usize = kani::any();
        kani::assume(i < n + k);
        assert!(v[i] == if i < n { a[i] } else { b[i - n] });
        kani::cover!(true, "reachable");
    }
    #[kani::proof] #[kani::unwind(10)]
    fn std_vec_resize() {
        let a: [u8; 4] = kani::any();
        let (n, k): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 4 && k <= 6);
        let x: u8 = kani::any();
        let mut v = a[..n].to_vec();
        v.resize(k, x);
        assert!(v.len() == k);
        let i: usize = kani::any();
        kani::assume(i < k);
        assert!(v[i] == if i < n { a[i] } else { x });
        kani::cover!(true, "reachable");
    }
    #[kani::proof] #[kani::unwind(10)]
    fn std_copy_range() {
        let old: [u8; 6] = kani::any();
        let src: [u8; 6] = kani::any();
        let (a, e): (usize, usize) = (kani::any(), kani::any());
        kani::assume(a <= e && e <= 6);
        let mut b = old;
        b[a..e].copy_from_slice(&src[..e - a]);
        let i: usize = kani::any();
        kani::assume(i < 6);
        assert!(b[i] == if i < a || i >= e { old[i] } else { src[i - a] });
        kani::cover!(true, "reachable");
    }
    /// first_pos and split_at_all over slices of up to 4 bytes
    #[kani::proof] #[kani::unwind(10)]
    fn std_split_position() {
        let b: [u8; 4] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 4);
        let s = &b[..n];
        let mut k = 0;
        while k < n && s[k] != 0 { k += 1; }
        assert!(s.iter().position(|x| *x == 0) == if k < n { Some(k) } else { None });
        assert!(s.split(|x| *x == 0).next().unwrap().len() == k);
        assert!(s.split(|x| *x == 0).next().unwrap() == &s[..k]);
        let mut zeros = 0;
        let mut i = 0;
        while i < n { if s[i] == 0 { zeros += 1; } i += 1; }
        assert!(s.split(|x| *x == 0).count() == zeros + 1);
        kani::cover!(true, "reachable");
    }
    #[kani::proof] #[kani::unwind(10)]
    fn std_starts_ends() {
        let b: [u8; 4] = kani::any();
        let p: [u8; 2] = kani::any();
        let (n, k): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 4 && k <= 2);
        let (mut pre, mut suf) = (k <= n, k <= n);
        let mut i = 0;
        while i < k { if k <= n { if b[i] != p[i] { pre = false; } if b[n - k + i] != p[i] { suf = false; } } i += 1; }
        assert!(b[..n].starts_with(&p[..k]) == pre);
        assert!(b[..n].ends_with(&p[..k]) == suf);
        kani::cover!(true, "reachable");
    }
    /// std documents White_Space; among ASCII: tab to carriage return, and space
    #[kani::proof]
    fn std_char_ascii() {
        let c: char = kani::any();
        assert!(c.is_ascii() == (c as u32 <= 127));
        assert!(c.is_ascii_digit() == ('0' <= c && c <= '9'));
        kani::assume(c as u32 <= 127);
        assert!(c.is_whitespace() == (c == ' ' || (9 <= c as u32 && c as u32 <= 13)));
        kani::cover!(true, "reachable");
    }
}
