//! The stored form of keychain data, written and read without the code under test.
use crate::custom::{Made, World, id};
use crate::util::*;
use keychain::{crypt, Error, KeychainManager, Language, Network};

const DIGITS: &'static [u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn base64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        o.push(DIGITS[(b[0] >> 2) as usize]);
        o.push(DIGITS[((b[0] & 3) << 4 | b[1] >> 4) as usize]);
        o.push(if c.len() > 1 { DIGITS[((b[1] & 15) << 2 | b[2] >> 6) as usize] } else { b'=' });
        o.push(if c.len() > 2 { DIGITS[(b[2] & 63) as usize] } else { b'=' });
    }
    o
}
fn cat(l: &[&[u8]]) -> Vec<u8> { l.concat() }
fn keys_json(keys: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"[".to_vec();
    for (i, (n, d)) in keys.iter().enumerate() {
        if i > 0 { o.push(b',') }
        o.extend(cat(&[b"[", n.to_string().as_bytes(), b",\"", &base64(d), b"\"]"]));
    }
    o.push(b']');
    o
}
fn opt(v: Option<&[u8]>) -> Vec<u8> { match v { Some(v) => cat(&[b"\"", v, b"\""]), None => b"null".to_vec() } }
pub fn inner(seed: Option<&[u8]>, mnemonic: Option<&str>, dict: Option<&str>, keys: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let s = seed.map(|s| base64(s));
    cat(&[b"{\"seed\":", &opt(s.as_ref().map(|s| &s[..])), b",\"mnemonic\":", &opt(mnemonic.map(|m| m.as_bytes())), b",\"dictionary\":", &opt(dict.map(|d| d.as_bytes())), b",\"keys\":", &keys_json(keys), b"}"])
}
pub fn outer(version: u32, inner: &[u8]) -> Vec<u8> { cat(&[b"{\"version\":", version.to_string().as_bytes(), b",\"data\":\"", &base64(inner), b"\"}"]) }
pub fn sealed(plain: &[u8], pw: &str) -> Vec<u8> { crypt::encrypt(plain, pw, &Rec::new()) }
const NAMES: [&'static str; 8] = ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"];
const LANG: [Language; 8] = [Language::English, Language::French, Language::Japanese, Language::Korean, Language::ChineseSimplified, Language::ChineseTraditional, Language::Italian, Language::Spanish];
fn two(w: &World) -> KeychainManager { KeychainManager::with_factories(vec![w.factory(0, 0), w.factory(5, 0)]).ok().unwrap() }
fn entry(w: &World, t: usize) -> (u32, Vec<u8>) { (id(t).0, w.material(t).unwrap()) }
fn text_of(words: usize, l: Language) -> String {
    let v = (0..words as u16).map(|i| bip39::MnemonicIndex::new((i * 331 + 3) & 2047).ok().unwrap()).collect();
    bip39::Mnemonics::from_mnemonics(v).ok().unwrap().to_string(l.to_dict()).to_string()
}
fn gives(l: &[(Network, Vec<u8>)], want: &[(u32, Vec<u8>)]) -> bool {
    let mut ok = l.len() == want.len();
    for (n, d) in want { ok &= match l.iter().find(|x| x.0 == Network(*n)) { Some(x) => same(&x.1, d), None => false } }
    ok
}
/// Every operation that needs the content reports it as damaged.
fn damaged(m: &KeychainManager, d: &[u8]) {
    let bad = |e: Option<Error>| match e { Some(Error::DataError(_)) => true, _ => false };
    check(bad(m.keychain_from_data(d, "pw").err()), "content that is not keychain data is reported when opened");
    check(bad(m.get_keys_data(d, "pw").err()) & bad(m.retrieve_mnemonic(d, "pw").err()) & bad(m.add_network(d, "pw", id(5)).err()), "content that is not keychain data is reported by every operation");
}

entries! {
// what is stored, byte by byte
fn c23_written() {
    let w = World::new();
    let m = two(&w);
    let one = KeychainManager::with_factories(vec![w.factory(0, 0)]).ok().unwrap();
    let how = pick(4);
    let li = if how == 0 || how == 3 { 0 } else { pick(8) };
    let phrase = text_of(12, LANG[li]);
    let seed = vec("seed", 64);
    let d = match how {
        0 => m.keychain_data_from_seed(&seed, "pw"),
        1 => m.keychain_data_from_mnemonic(&phrase, "pw", Some(LANG[li])),
        2 => one.keychain_data_from_mnemonic(&phrase, "pw", Some(LANG[li])).and_then(|d| m.add_network(&d, "pw", id(5))),
        _ => one.keychain_data_from_seed(&seed, "pw").and_then(|d| m.add_network(&d, "pw", id(5))),
    };
    let d = match d { Ok(d) => d, Err(_) => { fail("creation"); return } };
    let plain = crypt::decrypt(&d, "pw").ok().unwrap();
    let (a, b) = (entry(&w, 0), entry(&w, 5));
    let mnemonic = how == 1 || how == 2;
    let form = |k: &[(u32, Vec<u8>)]| outer(2, &if mnemonic { inner(None, Some(&phrase), Some(NAMES[li]), k) } else { inner(Some(&seed), None, None, k) });
    check(same(&plain, &form(&[a.clone(), b.clone()])) | same(&plain, &form(&[b, a])), "stored form");
    cover("written");
}
// data another writer stored, in the version with secrets
fn c23_read() {
    let w = World::new();
    let m = two(&w);
    let n = pick(3);
    let keys: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (id(i).0, vec("stored", [5usize, 16, 0][i]))).collect();
    let how = pick(4);
    let li = if how == 1 { pick(8) } else { 0 };
    let phrase = text_of(12, LANG[li]);
    let seed = vec("seed", 64);
    let i = match how {
        0 => inner(Some(&seed), None, None, &keys),
        1 => inner(None, Some(&phrase), Some(NAMES[li]), &keys),
        2 => inner(None, None, None, &keys),
        _ => inner(Some(&seed), Some(&phrase), Some(NAMES[li]), &keys),
    };
    let d = sealed(&outer(2, &i), "pw");
    match m.get_keys_data(&d, "pw") { Ok(l) => check(gives(&l, &keys), "the keys stored"), Err(_) => { fail("stored data is read"); return } }
    match m.retrieve_mnemonic(&d, "pw") {
        Ok((p, l)) => { check(how % 2 == 1 && l == LANG[li] && p == phrase, "the mnemonic stored"); cover("mnemonic") }
        Err(Error::SeedIsNotSaved) => check(how % 2 == 0, "no mnemonic"),
        Err(_) => fail("mnemonic"),
    }
    match m.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks().len() == n.min(1), "networks the manager knows"), Err(_) => fail("stored data opens") }
    { let r = w.read.borrow(); check(r.len() == n.min(1) && r.iter().all(|x: &Made| same(&x.out, &keys[0].1)), "the key data stored reaches the network") }
    match m.add_network(&d, "pw", id(5)) {
        Ok(e) => {
            check(how != 2, "a secret is needed");
            check(same(&w.made.borrow()[0].seed, &if how == 1 { pbkdf2_512(phrase.as_bytes(), b"mnemonic", 2048, 64) } else { seed }), "the key added is of the secret stored");
            let mut k = keys.clone();
            k.push(entry(&w, 5));
            match m.get_keys_data(&e, "pw") { Ok(l) => check(gives(&l, &k), "the keys stored and the one added"), Err(_) => fail("keys") }
            cover("added");
        }
        Err(Error::SeedIsNotSaved) => { check(how == 2, "the secret is used"); cover("no secret") }
        Err(_) => fail("adding"),
    }
}
// data of many networks, and keys of any size
fn c23_many() {
    let w = World::new();
    let m = two(&w);
    let n = [1usize, 9, 40][pick(3)];
    let size = |i: usize| if n == 1 { 1500 } else if i == n / 2 { 300 } else { i % 4 };
    let keys: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (if i == 0 { id(0).0 } else { 0x0003_0000 + 255 * i as u32 }, if i == 0 && n > 1 { vec("stored", 3) } else { (0..size(i)).map(|j| (j * 11 + i) as u8).collect() })).collect();
    let d = sealed(&outer(2, &inner(Some(&[7; 64]), None, None, &keys)), "pw");
    match m.get_keys_data(&d, "pw") { Ok(l) => check(gives(&l, &keys), "the keys stored"), Err(_) => { fail("stored data is read"); return } }
    match m.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks() == vec![id(0)], "networks the manager knows"), Err(_) => fail("stored data opens") }
    let e = match m.add_network(&d, "pw", id(5)).and_then(|e| m.change_password(&e, "pw", "new")) { Ok(e) => e, Err(_) => { fail("adding a network"); return } };
    let mut k = keys.clone();
    k.push(entry(&w, 5));
    match m.get_keys_data(&e, "new") { Ok(l) => check(gives(&l, &k), "the keys stored and the one added"), Err(_) => fail("keys") }
    cover("many");
}
// data of the first version: keys only
fn c23_first() {
    let w = World::new();
    let m = two(&w);
    let n = pick(4);
    let keys: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (id(i).0, vec("stored", [5usize, 16, 0][i]))).collect();
    let i = cat(&[b"{\"keys\":", &keys_json(&keys), b"}"]);
    let d = sealed(&outer(1, &i), "pw");
    match m.get_keys_data(&d, "pw") { Ok(l) => check(gives(&l, &keys), "the keys stored"), Err(_) => { fail("data of the first version is read"); return } }
    match m.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks().len() == n.min(1), "networks the manager knows"), Err(_) => fail("data of the first version opens") }
    let unsaved = |e: Option<Error>| match e { Some(Error::SeedIsNotSaved) => true, _ => false };
    check(unsaved(m.retrieve_mnemonic(&d, "pw").err()) & unsaved(m.add_network(&d, "pw", id(5)).err()), "the first version keeps no secret");
    match m.change_password(&d, "pw", "new").and_then(|e| m.get_keys_data(&e, "new")) { Ok(l) => check(gives(&l, &keys), "the keys stored"), Err(_) => fail("change of password") }
    cover("first");
}
// the same content in other JSON spellings
fn c23_spelling() {
    let w = World::new();
    let m = two(&w);
    let key = vec("stored", 5);
    let k = base64(&key);
    let inn = match pick(5) {
        0 => cat(&[b" { \"keys\" : [ [ 2147483708 ,\n\"", &k, b"\" ] ] , \"dictionary\" : null ,\t\"seed\" : null , \"mnemonic\" : null } "]),
        1 => cat(&[b"{\"seed\":null,\"other\":{\"a\":[1,2.5e3,true]},\"mnemonic\":null,\"dictionary\":null,\"keys\":[[2147483708,\"", &k, b"\"]],\"z\":\"\\\"\"}"]),
        2 => cat(&[b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[[7,\"\"],[2147483708,\"", &k, b"\"],[4294967295,\"AA==\"]]}"]),
        3 => cat(&[b"{\"see\\u0064\":null,\"mnemonic\":null,\"dictionary\":null,\"k\\u0065ys\":[[2147483708,\"", &k, b"\"]]}"]),
        _ => cat(&[b"{\"keys\":[[2147483708,\"", &k, b"\"]],\"seed\":null}"]),
    };
    let b = base64(&inn);
    let out = match pick(3) {
        0 => cat(&[b"{\"data\":\"", &b, b"\",\"version\":2}"]),
        1 => cat(&[b"\r\n{ \"version\" : 2 , \"data\" : \"", &b, b"\" }\n"]),
        _ => cat(&[b"{\"version\":2,\"more\":null,\"data\":\"", &b, b"\"}"]),
    };
    let d = sealed(&out, "pw");
    match m.get_keys_data(&d, "pw") { Ok(l) => check(match l.iter().find(|x| x.0 == id(0)) { Some(x) => same(&x.1, &key), None => false }, "the key stored"), Err(_) => { fail("another spelling is read"); return } }
    match m.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks() == vec![id(0)], "networks the manager knows"), Err(_) => fail("another spelling opens") }
    cover("spelling");
}
// content that is no keychain data
fn c23_bad() {
    let w = World::new();
    let m = two(&w);
    let good = inner(None, None, None, &[(id(0).0, vec![1, 2, 3])]);
    let b = base64(&good);
    let i = |t: &[u8]| outer(2, t);
    let p = match pick(22) {
        0 => outer(0, &good),
        1 => outer(3, &good),
        2 => outer(65538, &good),
        3 => cat(&[b"{\"version\":-2,\"data\":\"", &b, b"\"}"]),
        4 => cat(&[b"{\"version\":\"2\",\"data\":\"", &b, b"\"}"]),
        5 => cat(&[b"{\"version\":2.0,\"data\":\"", &b, b"\"}"]),
        6 => cat(&[b"{\"data\":\"", &b, b"\"}"]),
        7 => b"{\"version\":2}".to_vec(),
        8 => cat(&[b"{\"version\":2,\"data\":\"", &b[..9], b"*", &b[10..], b"\"}"]),
        9 => cat(&[b"{\"version\":2,\"data\":\"", &b, b"\"}x"]),
        10 => cat(&[b"{\"version\":2,\"data\":\"", &b, b"\""]),
        11 => i(b""),
        12 => i(b"null"),
        13 => i(b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":null}"),
        14 => i(b"{\"seed\":5,\"mnemonic\":null,\"dictionary\":null,\"keys\":[]}"),
        15 => i(b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":\"Klingon\",\"keys\":[]}"),
        16 => i(b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[[4294967296,\"AA==\"]]}"),
        17 => i(b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[[5,\"A\"]]}"),
        18 => i(b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":null,\"keys\":[[5]]}"),
        19 => i(&good[..good.len() - 1]),
        20 => i(b"{\"seed\":null,\"mnemonic\":\"\xff\",\"dictionary\":null,\"keys\":[]}"),
        _ => vec![b'['; 300],
    };
    let d = sealed(&p, "pw");
    damaged(&m, &d);
    // the password of such data is changed all the same, without touching it
    match m.change_password(&d, "pw", "new") {
        Ok(e) => check(match crypt::decrypt(&e, "new") { Ok(q) => same(&p, &q), Err(_) => false }, "content is carried over as it is"),
        Err(_) => fail("change of password"),
    }
    cover("bad");
}
// any short content
fn c23_short() {
    let n = pick(if LONG { 5 } else { 4 });
    let w = World::new();
    let m = two(&w);
    let p = vec("plain", n);
    let d = sealed(&p, "pw");
    damaged(&m, &d);
    cover("short");
}
// a version that is arbitrary text
fn c23_version() {
    let w = World::new();
    let m = two(&w);
    let n = 1 + pick(if LONG { 3 } else { 2 });
    let t = vec("version", n);
    let good = inner(None, None, None, &[(id(0).0, vec![1, 2, 3])]);
    let d = sealed(&cat(&[b"{\"version\":", &t, b",\"data\":\"", &base64(&good), b"\"}"]), "pw");
    match m.get_keys_data(&d, "pw") {
        Ok(l) => {
            let v: Vec<u8> = t.iter().cloned().filter(|c| *c != b' ' && *c != b'\t' && *c != b'\n' && *c != b'\r').collect();
            check(v.len() == 1 && (v[0] == b'1') | (v[0] == b'2'), "only known versions are read");
            check(l.len() == 1, "the key stored");
            cover("known");
        }
        Err(Error::DataError(_)) => cover("unknown"),
        Err(_) => fail("kind of error"),
    }
}
// arbitrary bytes within the content
fn c23_window() {
    let w = World::new();
    let m = two(&w);
    let good = inner(None, None, None, &[(id(0).0, vec![1, 2, 3])]);
    let inside = pick(2) == 1;
    let number = 56..67;
    let mut p = if inside { good } else { outer(2, &good) };
    let k = if LONG { 3 } else { 2 };
    // not in the number of the network: a set of networks needs known numbers
    let at = pick(p.len() - k);
    if inside { if at < number.end && at + k > number.start - 1 { return } } else if at + k > 21 && (at - 21.min(at)) / 4 * 3 < 67 && (at + k - 21) / 4 * 3 + 3 > 55 { return }
    let v = vec("window", k);
    p[at..at + k].copy_from_slice(&v);
    let d = sealed(&if inside { outer(2, &p) } else { p }, "pw");
    match m.keychain_from_data(&d, "pw") {
        Ok(k) => { check(k.networks().len() <= 1, "no more networks than stored"); cover("read") }
        Err(Error::DataError(_)) => cover("damaged"),
        Err(_) => fail("kind of error"),
    }
}
// stored secrets that are incomplete
fn c23_secret() {
    let w = World::new();
    let m = two(&w);
    let n = [0usize, 1, 32, 63, 65, 128][pick(6)];
    let d = sealed(&outer(2, &inner(Some(&vec("seed", n)), None, None, &[])), "pw");
    check(match m.add_network(&d, "pw", id(5)) { Err(Error::InvalidSeedSize(k)) => k == n, _ => false }, "a stored seed of another size is refused");
    let phrase = text_of(12, Language::English);
    let unsaved = |e: Option<Error>| match e { Some(Error::SeedIsNotSaved) => true, _ => false };
    for (p, l) in &[(Some(&phrase[..]), None), (None, Some("English"))] {
        let d = sealed(&outer(2, &inner(None, *p, *l, &[])), "pw");
        check(unsaved(m.add_network(&d, "pw", id(5)).err()) & unsaved(m.retrieve_mnemonic(&d, "pw").err()), "a mnemonic needs its language");
    }
    let d = sealed(&outer(2, &inner(None, Some(&text_of(15, Language::English)), Some("English"), &[])), "pw");
    check(match m.add_network(&d, "pw", id(5)) { Err(Error::MnemonicError(_)) => true, _ => false }, "a stored mnemonic of another length is refused");
    check(w.made.borrow().is_empty(), "no key is made");
    cover("secret");
}
}
