//! Faults of the random source, memory shared between threads, secrets that are dropped.
use crate::keys::*;
use crate::manager::*;
use crate::util::*;
use keychain::{Keychain, KeychainManager, Language, Network};
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAKE: [u8; 16] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3];
/// What an operation that needs random bytes made; None where it failed, by an error or by a panic.
fn attempt(k: usize, m: &KeychainManager, one: &KeychainManager, d: &[u8], pw: &str) -> Option<Vec<u8>> {
    let r = catch_unwind(AssertUnwindSafe(|| match k {
        0 => m.generate_mnemonic(Some(Language::Italian)).map(|s| s.into_bytes()),
        1 => one.keychain_data_from_seed(&[0x42; 64], "new"),
        2 => one.keychain_data_from_mnemonic(&phrase(9, Language::French, 5), "new", Some(Language::French)),
        3 => m.change_password(d, pw, "new"),
        _ => m.add_network(d, pw, network(0)),
    }));
    match r { Ok(Ok(v)) => Some(v), _ => None }
}
fn cardano() -> KeychainManager { KeychainManager::with_networks(&[network(2)]).ok().unwrap() }
/// What was made holds random bytes that were delivered, drawn for it.
fn fresh(k: usize, v: &[u8], from: usize) {
    if k == 0 {
        check(os::log().len() > from && same(&os::log()[from], &MAKE), "the words are of bytes the source delivered");
        return
    }
    check(v.len() > 60, "a container");
    check(drawn(from, &v[..32], &v[32..44]), "salt and nonce are of bytes the source delivered");
}


entries! {
// the source fails at the n-th draw, during one of the operations that need it
fn c28_library() {
    let (m, d, pw, w) = made(4);
    let one = cardano();
    let k = pick(5);
    let n = pick(4);
    if k == 0 { os::feed(&MAKE) }
    let from = os::log().len();
    let forever = pick(2) == 1;
    os::fail_after(n as u64, forever);
    let r = attempt(k, &m, &one, &d, &pw);
    let failed = os::repair();
    // (one failure may be got over by another draw)
    check(r.is_some() || failed, "it works while the random source does");
    check(r.is_none() || !(failed && forever), "it fails when the random source does");
    match r { Some(v) => { fresh(k, &v, from); cover("made") } None => cover("failed") }
    if !failed { return }
    // what was there before still opens, and nothing is ever made of bytes that were not delivered
    opened(&m, &d, &pw, &w.of(4));
    let again = KeychainManager::new().ok().unwrap();
    let again1 = cardano();
    for (m, one) in &[(&m, &one), (&again, &again1)] {
        if k == 0 { os::forget(); os::feed(&MAKE) }
        let from = os::log().len();
        match attempt(k, m, one, &d, &pw) { Some(v) => { fresh(k, &v, from); cover("made later") } None => check(!std::ptr::eq(*m, &again), "another manager works") }
    }
}
// operations that need no random bytes do not ask for any
fn c28_reading() {
    let (m, d, pw, w) = made(4);
    os::fail_after(0, true);
    opened(&m, &d, &pw, &w.of(4));
    let r = m.retrieve_mnemonic(&d, &pw).is_err();
    let o = KeychainManager::new().is_ok();
    check(r & o & !os::repair(), "reading needs no random bytes");
    cover("reading");
}
fn c28_c() { crate::capi::random_fails() }
// no operation writes memory that a second caller of the same object can see
fn c29_manager() {
    let (m, d, pw, _) = made(4);
    let m = Box::new(m);
    let one = Box::new(cardano());
    let k = pick(12);
    let wrong = vec("other", 3);
    assume((wrong[0] < 128) & (wrong[1] < 128) & (wrong[2] < 128) & (wrong[2] != 0));
    let p = if pick(2) == 0 { pw.clone() } else { unsafe { String::from_utf8_unchecked(wrong) } };
    let f = if pw == p { 0 } else { 1 };
    if k == 0 && f == 0 { os::feed(&MAKE) }
    if f == 1 && (k < 3 || k > 8) { return }
    freeze(true);
    let ok = match k {
        0 => m.generate_mnemonic(Some(Language::Italian)).is_ok(),
        1 => one.keychain_data_from_seed(&[0x42; 64], &p).is_ok(),
        2 => one.keychain_data_from_mnemonic(&phrase(9, Language::French, 5), &p, Some(Language::French)).is_ok(),
        3 => m.keychain_from_data(&d, &p).is_ok(),
        4 => m.get_keys_data(&d, &p).is_ok(),
        5 => m.retrieve_mnemonic(&d, &p).is_ok(),
        6 => m.change_password(&d, &p, "new").is_ok(),
        7 => m.add_network(&d, &p, network(0)).is_ok(),
        8 => m.add_network(&d, &p, network(2)).is_ok(),
        9 => m.has_network(&network(1)) & m.get_key_factory(&network(2)).is_some(),
        10 => m.keychain_data_from_seed(&vec("seed2", 63), &p).is_ok(),
        _ => m.add_network(&d, &p, Network(77)).is_ok(),
    };
    freeze(false);
    if ok { cover("done") } else { cover("refused") }
}
fn c29_keychain() {
    let seed = vec("seed", 64);
    known(&seed);
    let m = KeychainManager::new().ok().unwrap();
    let d = m.keychain_data_from_seed(&seed, "pw").ok().unwrap();
    let k: Box<Keychain> = Box::new(m.keychain_from_data(&d, "pw").ok().unwrap());
    let w = pick(4);
    let n = if w < 3 { network(w) } else { Network(5) };
    let p = if pick(2) == 0 { path(w % 3) } else { Any([HARD + 44, coin(w % 3), 7, 0, 5]) };
    let data = vec("data", 33);
    let s = vec("signature", [64usize, 65, 3][pick(3)]);
    let op = pick(4);
    freeze(true);
    let ok = match op {
        0 => k.pub_key(&n, &p).is_ok(),
        1 => k.sign(&n, &data, &p).is_ok(),
        2 => k.verify(&n, &data, &s, &p).is_ok(),
        _ => k.networks().len() == 3 && k.has_network(&n),
    };
    freeze(false);
    if ok { cover("done") } else { cover("refused") }
}
// the functions that take no object
fn c29_values() {
    use bip39::*;
    let ent = [vec("entropy", 12), (0..12).map(|i| i * 19).collect()];
    let t = vec("text", 2);
    assume((t[0] < 128) & (t[1] < 128));
    let l = [Language::English, Language::Korean, Language::Spanish][pick(3)];
    let k = pick(4);
    freeze(true);
    match k {
        0 => { let e = Entropy::from_slice(&ent[0]).ok().unwrap(); let m = e.to_mnemonics(); check(Entropy::from_mnemonics(&m).is_ok(), "its own words"); }
        1 => {
            let s = Entropy::from_slice(&ent[1]).ok().unwrap().to_mnemonics().to_string(l.to_dict()).to_string();
            check(Mnemonics::from_string(l.to_dict(), &s).is_ok(), "its own phrase");
            check(MnemonicString::new(l.to_dict(), s).map(|s| Seed::from_mnemonic_string(&s, b"pw").as_ref().len()).ok() == Some(64), "a seed");
        }
        2 => { let s = unsafe { String::from_utf8_unchecked(t.clone()) }; let _ = keychain::GenericKeyPath::from(&format!("m/44'/60'/{}'/0/1", s)); let _ = Mnemonics::from_string(l.to_dict(), &s); }
        _ => { for w in 0..3 { let _ = factory(w); } let _ = KeychainManager::with_networks(&[network(1)]); }
    }
    freeze(false);
    cover("done");
}
fn c29_c() { crate::capi::shared() }
// the bytes of secrets that are dropped
fn c30_entropy() {
    let n = [12usize, 16, 20, 24, 28, 32][pick(6)];
    let b = vec("entropy", n);
    let e = match bip39::Entropy::from_slice(&b) { Ok(e) => e, Err(_) => { fail("entropy of a size there is"); return } };
    gone(e, &b);
    cover("entropy");
}
fn c30_words() {
    // made of words, whichever have the right checksum
    let n = 9 + 3 * pick(3);
    let w: Vec<u16> = (0..n).map(|_| { let x = u16v("word"); assume(x < 2048); x }).collect();
    let m = bip39::Mnemonics::from_mnemonics(w.iter().map(|x| bip39::MnemonicIndex::new(*x).ok().unwrap()).collect()).ok().unwrap();
    match bip39::Entropy::from_mnemonics(&m) {
        Ok(e) => { let b = e.as_ref().to_vec(); gone(e, &b); cover("words") }
        Err(_) => cover("checksum"),
    }
}
fn c30_clone() {
    let n = [12usize, 16, 20, 24, 28, 32][pick(6)];
    let b = vec("entropy", n);
    let e = match bip39::Entropy::from_slice(&b) { Ok(e) => e, Err(_) => { fail("entropy of a size there is"); return } };
    let f = e.clone();
    gone(e, &b);
    check(same(f.as_ref(), &b), "the other one is as it was");
    gone(f, &b);
    cover("clone");
}
fn c30_seed() {
    let b = vec("seed", 64);
    let s = match pick(2) {
        0 => match bip39::Seed::from_slice(&b) { Ok(s) => s, Err(_) => { fail("a seed of its size"); return } },
        _ => { let mut a = [0u8; 64]; a.copy_from_slice(&b); bip39::Seed::from_bytes(a) }
    };
    gone(s, &b);
    cover("seed");
}
}
/// Dropping it leaves no byte of it where it was.
fn gone<T: AsRef<[u8]>>(t: T, b: &[u8]) {
    let mut t = ManuallyDrop::new(Box::new(ManuallyDrop::new(t)));
    let (p, n) = { let s: &[u8] = (***t).as_ref(); (s.as_ptr(), s.len()) };
    check(n == b.len(), "all of it");
    if n != b.len() { return }
    let mut o = vec![0u8; n];
    for i in 0..n { o[i] = unsafe { p.add(i).read_volatile() } }
    check(same(&o, b), "the bytes are there before");
    unsafe { ManuallyDrop::drop(&mut **t) }
    for i in 0..n { o[i] = unsafe { p.add(i).read_volatile() } }
    let mut d = 0;
    for x in o.iter() { d |= *x }
    check(d == 0, "no byte of it is left");
    ManuallyDrop::into_inner(t);
}
