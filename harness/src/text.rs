//! What values and errors print: all that a user of the C interface learns about an error besides its code.
use crate::util::*;
const HARD: u32 = 0x8000_0000;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Error, GenericKeyPath, KeyError, KeychainManager, Language, Network};

/// A number of which the last digits are arbitrary.
fn number() -> u64 {
    let (pre, n) = [("", 1usize), ("", 3), ("1", 2), ("6553", 1), ("42949672", 2), ("214748", 4), ("184467440737095516", 1)][pick(7)];
    let mut v = 0u64;
    for c in pre.bytes() { v = v * 10 + (c - 48) as u64 }
    for (i, x) in vec("digit", n).into_iter().enumerate() {
        assume((x >= b'0') & (x <= b'9'));
        if pre.is_empty() && n > 1 && i == 0 { assume(x > b'0') }
        v = v * 10 + (x - 48) as u64;
    }
    v
}
/// The decimal numbers in a text.
fn numbers(t: &str) -> Vec<u64> {
    let (mut r, mut open) = (vec![], false);
    for c in t.bytes() {
        if c >= b'0' && c <= b'9' {
            if !open { r.push(0u64) }
            open = true;
            let n = r.len() - 1;
            r[n] = r[n].wrapping_mul(10).wrapping_add((c - 48) as u64);
        } else { open = false }
    }
    r
}
fn says(t: &str, want: &[u64]) -> bool {
    let n = numbers(t);
    let mut all = true;
    for w in want {
        let mut found = false;
        for x in &n { found |= x == w }
        all &= found;
    }
    all
}
/// The numbers of two values where the text has them after these words.
fn after(t: &str, word: &str, v: u64) -> bool {
    match t.find(word) { Some(i) => match numbers(&t[i..]).first() { Some(x) => *x == v, None => false }, None => true }
}
fn net() -> u32 { let n = number(); assume(n <= 0xffff_ffff); n as u32 }
fn digits(b: &[u8]) -> Vec<u8> {
    let d = |x: u8| select(x < 10, x as u64 + 48, x as u64 + 87) as u8;
    b.iter().flat_map(|x| vec![d(x >> 4), d(x & 15)]).collect()
}

entries! {
fn c31_hex() {
    let n = [12usize, 16, 20, 24, 28, 32, 64][pick(7)];
    let b = vec("bytes", n);
    let debug = pick(2) == 1;
    let t = if n == 64 {
        let s = bip39::Seed::from_slice(&b).ok().unwrap();
        if debug { format!("{:?}", s) } else { s.to_string() }
    } else {
        let e = bip39::Entropy::from_slice(&b).ok().unwrap();
        if debug { format!("{:?}", e) } else { e.to_string() }
    };
    check(same(t.as_bytes(), &digits(&b)), "the hexadecimal digits of the bytes");
    cover("hex");
}
fn c31_type() {
    // a text is the size of a mnemonic exactly if it is one of the six numbers
    let n = pick(4);
    let b = vec("text", n);
    for x in &b { assume(*x < 128) }
    let t = unsafe { std::str::from_utf8_unchecked(&b) };
    let want = [9usize, 12, 15, 18, 21, 24].iter().position(|w| w.to_string() == t);
    match t.parse::<bip39::Type>() {
        Ok(t) => { check(want.map(|i| 9 + 3 * i) == Some(t.mnemonic_count()), "the number of words"); cover("size") }
        Err(_) => { check(want.is_none(), "the six sizes are read"); cover("no size") }
    }
}
fn c31_error() {
    let n = number();
    let k = [7u64, 96, 4000][pick(3)];
    let kind = pick(8);
    if kind != 0 && kind != 4 && kind != 5 { assume(n <= 0xffff_ffff) }
    let (e, v): (Error, Vec<u64>) = match kind {
        0 => (Error::InvalidSeedSize(n as usize), vec![n]),
        1 => (Error::KeyDoesNotExist(Network(n as u32)), vec![n]),
        2 => (Error::KeyAlreadyExist(Network(n as u32)), vec![n]),
        3 => (Error::NetworkIsNotSupported(Network(n as u32)), vec![n]),
        4 => {
            let less = pick(2) == 1;
            let (a, b) = if less { (n, k) } else { (k, n) };
            let t = Error::CantCalculateSeedSize(a as usize, b as usize).to_string();
            check(says(&t, &[a, b]) && after(&t, "min", a) && after(&t, "max", b), "both limits");
            cover("limits");
            return
        }
        5 => (Error::from_key_error(&Network(k as u32), KeyError::InvalidKeySize(n as usize, 77)), vec![k, n, 77]),
        6 => (Error::from_key_error(&Network(n as u32), KeyError::InvalidSignatureSize(k as usize, 64)), vec![k, n, 64]),
        _ => (Error::from_key_error(&Network(n as u32), KeyError::InvalidKeyData(Box::new(Error::InvalidSeedSize(k as usize)))), vec![k, n]),
    };
    check(says(&e.to_string(), &v), "the values are in the text");
    cover("error");
}
fn c31_path() {
    let v = net();
    let big = v >= HARD;
    let say = |t: String, x: u32| { check(says(&t, &[x as u64]), "the number is in the text"); cover("constructor") };
    match pick(7) {
        0 => if let Err(e) = bitcoin::KeyPath::bip44(false, v, 0, 5) { say(e.to_string(), v) } else { check(!big, "refused") },
        1 => if let Err(e) = bitcoin::KeyPath::bip84(true, 1, v, 5) { say(e.to_string(), v) } else { check(v < 2, "refused") },
        2 => if let Err(e) = bitcoin::KeyPath::bip49(false, 1, 0, v) { say(e.to_string(), v) } else { check(!big, "refused") },
        3 => if let Err(e) = cardano::KeyPath::new(v, 0, 5) { say(e.to_string(), v) } else { check(!big, "refused") },
        4 => if let Err(e) = ethereum::KeyPath::new(v) { say(e.to_string(), v) } else { check(!big, "refused") },
        5 => {
            // a marked number that is too big, in each place
            let at = pick(5);
            let mut p = vec!["44'".to_string(), "60'".into(), "0'".into(), "0".into(), "3".into()];
            p[at] = ["2147483648'", "4294967295'"][pick(2)].into();
            let n: u64 = p[at][..10].parse().unwrap();
            match GenericKeyPath::from(&("m/".to_string() + &p.join("/"))) {
                Ok(_) => fail("refused"),
                Err(e) => { check(says(&e.to_string(), &[n, at as u64 + 1]), "the number and its place are in the text"); cover("marked") }
            }
        }
        _ => {
            let at = pick(5);
            let mut p = vec!["44'".to_string(), "60'".into(), "0'".into(), "0".into(), "3".into()];
            p[at] = ["", "x", "'"][pick(3)].into();
            match GenericKeyPath::from(&("m/".to_string() + &p.join("/"))) {
                Ok(_) => fail("refused"),
                Err(e) => { check(says(&e.to_string(), &[at as u64 + 1]), "the place is in the text"); cover("place") }
            }
        }
    }
}
fn c31_call() {
    // the text of what an operation reports
    let m = KeychainManager::new().ok().unwrap();
    match pick(4) {
        0 => {
            let n = [0usize, 63, 65, 320][pick(4)];
            match m.keychain_data_from_seed(&vec("seed", n), "pw") { Err(e) => { check(says(&e.to_string(), &[n as u64]), "the size is in the text"); cover("seed size") } Ok(_) => fail("refused") }
        }
        1 => {
            let n = [0usize, 1, 9, 11, 13, 15, 24][pick(7)];
            match m.keychain_data_from_mnemonic(&vec!["abandon"; n].join(" "), "pw", None) { Err(e) => { check(n == 0 || says(&e.to_string(), &[n as u64]), "the number of words is in the text"); cover("words") } Ok(_) => fail("refused") }
        }
        2 => {
            // the unknown word
            let at = [0usize, 5, 11][pick(3)];
            let x = vec("letter", 3);
            for c in &x { assume((*c >= b'a') & (*c <= b'z')) }
            let word = "qq".to_string() + unsafe { std::str::from_utf8_unchecked(&x) };
            let mut w = vec!["abandon".to_string(); 12];
            w[at] = word.clone();
            let l = [Language::English, Language::Italian][pick(2)];
            if l != Language::English { for i in 0..12 { if i != at { w[i] = "abaco".into() } } }
            match m.keychain_data_from_mnemonic(&w.join(" "), "pw", Some(l)) {
                Err(e) => {
                    let t = e.to_string();
                    let (t, v) = (t.as_bytes(), word.as_bytes());
                    let mut found = false;
                    if t.len() >= v.len() { for i in 0..t.len() - v.len() + 1 { if t[i] == b'q' && t[i + 1] == b'q' { found |= same(&t[i..i + v.len()], v) } } }
                    check(found, "the word is in the text");
                    cover("word");
                }
                Ok(_) => fail("refused"),
            }
        }
        _ => {
            let one = KeychainManager::with_networks(&[Network::CARDANO]).ok().unwrap();
            let d = one.keychain_data_from_seed(&[7; 64], "pw").ok().unwrap();
            let (n, e) = match pick(3) {
                0 => (Network::ETHEREUM, one.add_network(&d, "pw", Network::ETHEREUM).err()),
                1 => (Network::CARDANO, one.add_network(&d, "pw", Network::CARDANO).err()),
                _ => (Network(77), one.keychain_from_data(&d, "pw").ok().unwrap().pub_key(&Network(77), &GenericKeyPath::from("m/44'/1815'/0'/0/3").ok().unwrap()).err()),
            };
            match e { Some(e) => { check(says(&e.to_string(), &[n.0 as u64]), "the network is in the text"); cover("network") } None => fail("refused") }
        }
    }
}
fn c31_known() {
    let all = Network::all();
    check(all.len() == 3, "three networks");
    let m = KeychainManager::new().ok().unwrap();
    for (i, n) in [Network::BITCOIN, Network::ETHEREUM, Network::CARDANO].iter().enumerate() {
        check(n.0 == HARD + [0, 60, 1815][i], "network number");
        check(all.contains(n) && m.has_network(n), "every network there is");
        check(says(&n.to_string(), &[n.0 as u64]), "the number is in the text");
    }
    let v = net();
    check(says(&Network(v).to_string(), &[v as u64]), "the number is in the text");
    cover("known");
}
}
