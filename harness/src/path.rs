use crate::util::*;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{GenericKeyPath, KeyPath};

const HARD: u32 = 0x8000_0000;
fn parts<P: KeyPath>(p: &P) -> [u32; 5] {
    [p.purpose(), p.coin(), p.account(), p.change(), p.address()]
}
/// What one component of a path text denotes: Ok(Some(value)), Ok(None) where nothing is promised, Err(empty?)
fn component(t: &[u8]) -> Result<Option<u32>, bool> {
    let hard = t.len() > 0 && t[t.len() - 1] == b'\'';
    let d = if hard { &t[..t.len() - 1] } else { t };
    if d.is_empty() { return Err(true) }
    if d[0] == b'+' { return Ok(None) }
    let mut v = 0u64;
    let mut ok = true;
    for c in d {
        ok &= (*c >= b'0') & (*c <= b'9');
        let w = v.wrapping_mul(10).wrapping_add((c.wrapping_sub(b'0') & 15) as u64);
        v = if d.len() > 18 { select(v > 1 << 40, v, w) } else { w };
    }
    if !ok || v > 0xffff_ffff { return Err(false) }
    let v = v as u32;
    if v >= HARD { return if hard { Err(false) } else { Ok(None) } }
    Ok(Some(if hard { v + HARD } else { v }))
}
fn blank(c: u8) -> bool { (c == b' ') | ((c >= 9) & (c <= 13)) }
fn trim(mut t: &[u8]) -> &[u8] {
    while !t.is_empty() && blank(t[0]) { t = &t[1..] }
    while !t.is_empty() && blank(t[t.len() - 1]) { t = &t[..t.len() - 1] }
    t
}
fn split(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for &c in t {
        if c == b'/' { v.push(vec![]) } else { v.last_mut().unwrap().push(c) }
    }
    v
}
/// Parse a text and compare with what it denotes.
fn judge(t: &str) {
    let ps = split(t.as_bytes());
    let r = GenericKeyPath::from(t);
    let ok = r.is_ok();
    if ps.len() != 6 { check(!ok, "a path with other than five components is refused"); cover("count"); return }
    if trim(&ps[0]) != b"m" { check(!ok, "a path that does not start with m is refused"); cover("marker"); return }
    let mut want = [None; 5];
    for i in 0..5 {
        match component(trim(&ps[i + 1])) {
            Err(_) => { check(!ok, "a malformed component is refused"); cover("malformed"); return }
            Ok(v) => want[i] = v,
        }
    }
    match r {
        Ok(p) => {
            let got = parts(&p);
            let mut all = true;
            for i in 0..5 {
                match want[i] { Some(v) => check(v == got[i], "component value"), None => all = false }
            }
            if all { cover("value") } else { cover("unspecified") }
        }
        // numbers of 2^31 and above without a mark and signed numbers are not promised either way
        Err(_) => check(want.iter().any(|w| w.is_none()), "a well-formed path is accepted"),
    }
}
fn insert(win: &[u8], at: usize, rem: usize) -> String {
    let base = b"m/44'/60'/7'/0/19";
    let mut t = base[..at].to_vec();
    t.extend_from_slice(win);
    t.extend_from_slice(&base[(at + rem).min(base.len())..]);
    unsafe { String::from_utf8_unchecked(t) }
}

entries! {
// arbitrary text in place of a stretch of a path
fn c10_window() {
    let n = if LONG { 4 } else { 3 };
    let win = text("win", pick(n + 1), 99);
    let at = [0usize, 1, 2, 5, 6, 10, 13, 15, 17][pick(9)];
    let rem = pick(4);
    judge(&insert(win.as_bytes(), at, rem));
}
// text with characters beyond ASCII anywhere
fn c10_wide() {
    let n = 1 + pick(3);
    let win = text("win", n, pick(n));
    let at = [0usize, 1, 2, 5, 10, 15, 17][pick(7)];
    let t = insert(win.as_bytes(), at, [0, 2][pick(2)]);
    // Unicode blanks are trimmed as well; the other characters never make a valid path
    let r = GenericKeyPath::from(&t);
    match r {
        Ok(p) => {
            let s = p.to_string();
            match GenericKeyPath::from(&s) {
                Ok(q) => check(parts(&p) == parts(&q), "printed path parses to the same numbers"),
                Err(_) => fail("printed path parses"),
            }
            cover("accepted")
        }
        Err(_) => cover("refused"),
    }
}
// short texts in full
fn c10_short() {
    let n = pick(if LONG { 6 } else { 5 });
    let t = text("t", n, 99);
    check(GenericKeyPath::from(&t).is_err(), "a text too short for five components is refused");
    cover("short");
}
// numbers of up to ten digits in each component, plain and hardened
fn c10_number() {
    let at = pick(5);
    let hard = pick(2) == 1;
    let (pre, n) = [("", 1usize), ("", 2), ("", 3), ("214748364", 1), ("429496729", 1), ("00000000000", 1), ("99999999", 1), ("4294967295", 1), ("21474836", 2), ("42949672", 2), ("", 5), ("1000000", 3)][pick(if LONG { 12 } else { 8 })];
    let (t, v) = numeral(at, hard, pre.as_bytes(), n);
    match GenericKeyPath::from(&t) {
        Ok(p) => {
            let g = parts(&p);
            match v {
                Some(v) if v < HARD => {
                    check(g[at] == v | (hard as u32) << 31, "value of a decimal component");
                    cover("number");
                }
                // plain numbers of 2^31 and above are not promised either way
                v => check(!hard && v.is_some(), "a number that does not fit is refused"),
            }
            let mut o = true;
            for i in 0..5 { if i != at { o &= g[i] == OTHER[i].1 } }
            check(o, "other components are unaffected");
        }
        Err(_) => {
            check(match v { Some(v) => v >= HARD, None => true }, "a number below 2^31 is accepted");
            cover("too large")
        }
    }
}
// very long texts: zeros before a number, blanks around it, components without end
fn c10_long() {
    let at = pick(5);
    let l = pick(3);
    let n = [40usize, 300, 70000][l];
    let many = |c: &str| c.repeat(n);
    let d = byte("digit");
    let mut o: Vec<String> = OTHER.iter().map(|o| o.0.to_string()).collect();
    let t = match pick(5) {
        0 => { o[at] = many("0") + "1\u{1}'"; o.join("/") }
        1 => { o[at] = many(" ") + "1\u{1}" + &many(" "); o.join("/") }
        2 => { o[at] = "1".to_string() + &many("0") + "\u{1}"; o.join("/") }
        3 => o.join("/") + "/\u{1}" + &many("/0"),
        _ => o.join("/") + &"/0".repeat([256, 65536, 512][l]) + "\u{1}",
    };
    let t = ("m/".to_string() + &t).into_bytes().iter().map(|c| if *c == 1 { d } else { *c }).collect();
    assume((d >= b'0') & (d <= b'9'));
    judge(&unsafe { String::from_utf8_unchecked(t) });
    cover("long");
}
// printing: canonical text comes back unchanged
fn c10_print() {
    let at = if LONG { pick(5) } else { pick(2) * 3 };
    let hard = pick(2) == 1;
    let (pre, n) = [("", 1usize), ("", 2), ("", 3), ("21474836", 2), ("1", 3), ("1000000", 2), ("99999999", 1), ("", 4), ("", 5), ("12", 4)][pick(if LONG { 10 } else { 7 })];
    let (t, v) = numeral(at, hard, pre.as_bytes(), n);
    match v { Some(v) => assume(v < HARD), None => return }
    if pre.is_empty() && n > 1 { assume(t.as_bytes()[OTHER[..at].iter().fold(2, |a, o| a + o.0.len() + 1)] != b'0') }
    match GenericKeyPath::from(&t) {
        Ok(p) => check(same(p.to_string().as_bytes(), t.as_bytes()), "a canonical path prints as it was written"),
        Err(_) => fail("a canonical path is accepted"),
    }
    cover("printed");
}
fn c11_bitcoin() {
    let (a, c, x) = (u32v("account"), u32v("change"), u32v("address"));
    let test = pick(2) == 1;
    let kind = pick(3);
    let r = match kind {
        0 => bitcoin::KeyPath::bip44(test, a, c, x),
        1 => bitcoin::KeyPath::bip49(test, a, c, x),
        _ => bitcoin::KeyPath::bip84(test, a, c, x),
    };
    constructed(r.map(|p| parts(&p)), HARD + [44, 49, 84][kind], HARD + test as u32, a, c, x);
}
fn c11_cardano() {
    let (a, c, x) = (u32v("account"), u32v("change"), u32v("address"));
    constructed(cardano::KeyPath::new(a, c, x).map(|p| parts(&p)), HARD + 44, HARD + 1815, a, c, x);
}
fn c11_ethereum() {
    let a = u32v("account");
    // one account per m/44'/60'/account'/0/0; MetaMask style counts addresses of account 0
    let p = ethereum::KeyPath::new(a).map(|p| parts(&p));
    constructed(p, HARD + 44, HARD + 60, a, 0, 0);
    match ethereum::KeyPath::new_metamask(a) {
        Ok(p) => {
            check(a < HARD, "index out of range is refused");
            check(parts(&p) == [HARD + 44, HARD + 60, HARD, 0, a], "metamask path");
            cover("metamask");
        }
        Err(_) => check(a >= HARD, "index in range is accepted"),
    }
}
}
const OTHER: [(&str, u32); 5] = [("44'", HARD + 44), ("60'", HARD + 60), ("2147483647", 0x7fff_ffff), ("2147483647'", 0xffff_ffff), ("10", 10)];
/// A path whose component `at` has the digits `pre` followed by `n` arbitrary ones; its value, None above u32.
fn numeral(at: usize, hard: bool, pre: &[u8], n: usize) -> (String, Option<u32>) {
    let mut d: Vec<u8> = pre.to_vec();
    for x in vec("digit", n) {
        assume(x >= b'0');
        assume(x <= b'9');
        d.push(x);
    }
    let (mut w, mut v) = (0u32, 0u64);
    for x in d.iter() {
        w = w.wrapping_mul(10).wrapping_add((*x as u32).wrapping_sub(48));
        v = v * 10 + (*x as u64 - 48);
    }
    let v = if d.len() < 10 || v <= 0xffff_ffff { Some(w) } else { None };
    let mut t = b"m".to_vec();
    for i in 0..5 {
        t.push(b'/');
        if i == at {
            t.extend_from_slice(&d);
            if hard { t.push(b'\'') }
        } else {
            t.extend_from_slice(OTHER[i].0.as_bytes());
        }
    }
    (unsafe { String::from_utf8_unchecked(t) }, v)
}
fn constructed<E: std::fmt::Display>(r: Result<[u32; 5], E>, purpose: u32, coin: u32, a: u32, c: u32, x: u32) {
    let fits = (a < HARD) & (c < 2) & (x < HARD);
    match r {
        Ok(p) => {
            check(fits, "an out-of-range argument is refused");
            let d = (p[0] ^ purpose) | (p[1] ^ coin) | (p[2] ^ a.wrapping_add(HARD)) | (p[3] ^ c) | (p[4] ^ x);
            check(d == 0, "path built from the arguments");
            cover("built");
        }
        Err(e) => {
            check(!fits, "arguments in range are accepted");
            let t = e.to_string();
            let (bad, v) = match &t.as_bytes()[..10] {
                b"Invalid ac" => (a >= HARD, a),
                b"Invalid ch" => (c > 1, c),
                b"Invalid ad" => (x >= HARD, x),
                _ => { fail("argument error kind"); return }
            };
            check(bad, "the argument named is out of range");
            let n = t.bytes().rposition(|b| b == b' ').unwrap();
            check(same(&t.as_bytes()[n + 1..], v.to_string().as_bytes()), "the error tells the offending value");
            cover("refused");
        }
    }
}
