use crate::keys::*;
use crate::util::*;
use keychain::{Error, GenericKeyPath, Keychain, KeychainManager, Language, Network};

/// The networks of a non-empty selection: Ethereum, Bitcoin, Cardano.
fn nets(sel: usize) -> Vec<Network> { (0..3).filter(|i| sel >> i & 1 == 1).map(|i| network(i)).collect() }
/// Key data the standards give the network for the seed.
fn key_data(w: usize, seed: &[u8]) -> Vec<u8> {
    if w == 2 { return icarus(seed).to_vec() }
    match master(seed) { Some(m) => encode(&m), None => { assume(false); unreachable!() } }
}
fn manager(sel: usize) -> KeychainManager {
    let m = if sel == 7 && pick(2) == 0 { KeychainManager::new() } else { KeychainManager::with_networks(&nets(sel)) };
    match m { Ok(m) => m, Err(_) => { fail("a manager of built-in networks"); unreachable!() } }
}
pub fn words(sel: usize) -> usize { if sel & 3 == 0 { 9 } else { 12 } }
fn same_keys(got: &[(Network, Vec<u8>)], want: &[(Network, Vec<u8>)]) -> bool {
    let mut r = got.len() == want.len();
    for (n, d) in want {
        r &= match got.iter().find(|g| g.0 == *n) { Some(g) => same(&g.1, d), None => false };
    }
    r
}
fn password(name: &str, k: usize) -> String { text(name, [3usize, 0, 9, 200][k % 4], 1) }
const LANGS: [Language; 8] = [Language::English, Language::French, Language::Japanese, Language::Korean, Language::ChineseSimplified, Language::ChineseTraditional, Language::Italian, Language::Spanish];
/// A phrase of fixed words (its checksum is not looked at when a seed is made of it).
pub fn phrase(words: usize, lang: Language, k: u16) -> String {
    let v = (0..words as u16).map(|i| bip39::MnemonicIndex::new((i * 331 + k * 97) & 2047).ok().unwrap()).collect();
    bip39::Mnemonics::from_mnemonics(v).ok().unwrap().to_string(lang.to_dict()).to_string()
}
pub fn phrase_seed(p: &str) -> Vec<u8> { pbkdf2_512(p.as_bytes(), b"mnemonic", 2048, 64) }
pub const USE: [u32; 3] = [HARD + 1, 0, 5];
/// A seed and what follows from it for each network, computed before the code under test runs.
pub struct Known { pub sel: usize, pub data: [Vec<u8>; 3], pubs: [Vec<u8>; 3] }
pub fn path(i: usize) -> Any { Any([HARD + 44, coin(i), USE[0], USE[1], USE[2]]) }
pub fn known(seed: &[u8]) -> Known {
    let p = |i| if i == 2 { ed(&icarus(seed), &path(i).0).public().as_ref().to_vec() } else { pubkey(&walk(master(seed).unwrap(), &path(i).0)) };
    Known { sel: 7, data: [key_data(0, seed), key_data(1, seed), key_data(2, seed)], pubs: [p(0), p(1), p(2)] }
}
impl Known {
    pub fn of(&self, sel: usize) -> Known { Known { sel, data: self.data.clone(), pubs: self.pubs.clone() } }
    fn keys(&self) -> Vec<(Network, Vec<u8>)> { (0..3).filter(|i| self.sel >> i & 1 == 1).map(|i| (network(i), self.data[i].clone())).collect() }
}
/// The keychain has exactly the known networks and their keys.
pub fn serves(k: &Keychain, w: &Known) {
    let l = k.networks();
    let mut ok = l.len() == nets(w.sel).len();
    for i in 0..3 {
        ok &= k.has_network(&network(i)) == (w.sel >> i & 1 == 1);
        ok &= l.contains(&network(i)) == (w.sel >> i & 1 == 1);
    }
    check(ok & !k.has_network(&Network(77)), "the keychain has exactly the networks of its data");
    for i in 0..3 {
        if w.sel >> i & 1 == 0 { continue }
        match k.pub_key(&network(i), &path(i)) {
            Ok(r) => check(same(&r, &w.pubs[i]), "each network's keys come from the seed"),
            Err(_) => fail("each network's keys come from the seed"),
        }
    }
}
pub fn opened(m: &KeychainManager, d: &[u8], pw: &str, w: &Known) {
    match m.get_keys_data(d, pw) {
        Ok(l) => check(same_keys(&l, &w.keys()), "key data of the seed for exactly the networks chosen"),
        Err(_) => fail("key data"),
    }
    match m.keychain_from_data(d, pw) { Ok(k) => serves(&k, w), Err(_) => fail("the data opens with its password") }
}

entries! {
fn c19_seed() {
    let seed = vec("seed", 64);
    let w = known(&seed);
    let sel = 1 + pick(7);
    let w = w.of(sel);
    let m = manager(sel);
    for i in 0..3 { check(m.has_network(&network(i)) == (sel >> i & 1 == 1), "networks of the manager") }
    let pw = password("password", sel);
    let d = match m.keychain_data_from_seed(&seed, &pw) { Ok(d) => d, Err(_) => { fail("creation from a seed"); return } };
    opened(&m, &d, &pw, &w);
    check(match m.retrieve_mnemonic(&d, &pw) { Err(Error::SeedIsNotSaved) => true, _ => false }, "data made from a seed has no mnemonic");
    cover("seed");
}
fn c19_mnemonic() { from_mnemonic(1 + pick(7), None) }
fn c19_language() { let sel = [1, 4][pick(2)]; let l = LANGS[pick(8)]; from_mnemonic(sel, Some(l)) }
// what the mnemonic and the seed must look like, and nothing is made otherwise
fn c19_refused() {
    let sel = 1 + pick(if LONG { 7 } else { 4 });
    let m = manager(sel);
    match pick(4) {
        0 => {
            let n = [0usize, 16, 32, 63, 65, 96, 320, 65600][pick(8)];
            match m.keychain_data_from_seed(&vec("seed", n), "pw") { Err(Error::InvalidSeedSize(k)) => { check(k == n, "seed size reported"); cover("seed size") } _ => fail("a seed of another size is refused") }
        }
        1 => {
            let n = 3 * pick(9);
            if n == words(sel) { return }
            let t = match m.keychain_data_from_mnemonic(&phrase_any(n, Language::English), "pw", None) { Err(Error::MnemonicError(e)) => e.to_string(), _ => { fail("a mnemonic of another length is refused"); return } };
            let w = words(sel);
            check(t == if n < 9 { format!("Wrong number of words {}", if n == 0 { 1 } else { n }) } else if n < w { format!("Mnemonic {} too short. Min: {}", n, w) } else { format!("Mnemonic {} too short. Max: {}", n, w) }
                || n == 0 && t == "Unsupported word found ''. Maybe wrong dictionary?", "the length is reported");
            cover("length");
        }
        2 => {
            // one letter of one word replaced: another word, or refused by name
            let p = phrase(words(sel), Language::English, 3);
            let mut b = p.clone().into_bytes();
            let at = p.find(' ').unwrap() + 1;
            b[at] = byte("letter");
            assume(b[at] < 128);
            let q = String::from_utf8(b).unwrap();
            match m.keychain_data_from_mnemonic(&q, "pw", Some(Language::English)) {
                Ok(_) => cover("another word"),
                Err(Error::MnemonicError(e)) => { check(e.to_string().starts_with("Unsupported word found '") || e.to_string().starts_with("Wrong number of words "), "the word is reported"); cover("unknown word") }
                Err(Error::KeyError(_, _)) => {}
                Err(_) => fail("kind of error of an unknown word"),
            }
        }
        _ => {
            let l = LANGS[1 + pick(7)];
            match m.keychain_data_from_mnemonic(&phrase(words(sel), Language::English, 3), "pw", Some(l)) { Err(Error::MnemonicError(_)) => cover("language"), _ => fail("a mnemonic of another language is refused") }
        }
    }
}
// one network more, from data made of a seed or a mnemonic
fn c20_add() {
    let old = 1 + pick(6);
    let (m, d, pw, w) = made(old);
    let n = pick(3);
    // the manager that adds need not know the other networks (Cardano alone has another seed size)
    let narrow = if LONG { pick(2) == 1 } else { (old + n) % 2 == 0 };
    let a = if narrow { KeychainManager::with_networks(&nets([1, 2, 5][n])).ok().unwrap() } else { KeychainManager::new().ok().unwrap() };
    match a.add_network(&d, &pw, network(n)) {
        Ok(e) => {
            check(old >> n & 1 == 0, "a network that is there is not added again");
            opened(&m, &e, &pw, &w.of(old | 1 << n));
            same_secret(&m, &d, &e, &pw);
            if narrow { cover("added by a manager of few networks") } else { cover("added") }
        }
        Err(Error::KeyAlreadyExist(x)) => { check(x == network(n) && old >> n & 1 == 1, "only a network that is there is refused"); cover("there already") }
        Err(_) => fail("adding a network"),
    }
}
fn c20_twice() {
    let (m, d, pw, w) = made(4);
    let (a, b) = (pick(2), pick(2));
    if a == b { return }
    let e = match m.add_network(&d, &pw, network(a)).and_then(|e| m.add_network(&e, &pw, network(b))) { Ok(e) => e, Err(_) => { fail("adding two networks"); return } };
    opened(&m, &e, &pw, &w.of(7));
    cover("both");
    // and what was there before still opens as it was
    opened(&m, &d, &pw, &w.of(4));
}
fn c20_refused() {
    let (m, d, pw, _) = made(4);
    let small = KeychainManager::with_networks(&[Network::CARDANO, Network::BITCOIN]).ok().unwrap();
    for n in &[Network::ETHEREUM, Network(0), Network(1), Network(0xffff_ffff)] {
        check(match small.add_network(&d, &pw, *n) { Err(Error::NetworkIsNotSupported(x)) => x == *n, _ => false }, "a network the manager does not know is refused");
    }
    let other = other_password(&pw);
    check(match m.add_network(&d, &other, network(1)) { Err(Error::WrongPassword) => true, _ => false }, "nothing is added without the password");
    check(match m.add_network(&d[..59], &pw, network(1)) { Err(Error::NotEnoughData) => true, _ => false }, "too little data");
    cover("refused");
}
fn c21_change() {
    let old = 1 + pick(7);
    let (m, d, pw, w) = made(old);
    let new = text("new", [4usize, 0, 200, 1][old % 4], 1);
    let e = match m.change_password(&d, &pw, &new) { Ok(e) => e, Err(_) => { fail("change of password"); return } };
    opened(&m, &e, &new, &w.of(old));
    same_secret2(&m, &d, &pw, &e, &new);
    cover("changed");
}
fn c21_wrong() {
    let (m, d, pw, _) = made(4);
    let other = other_password(&pw);
    let refused = |e: Option<Error>| match e { Some(Error::WrongPassword) => true, _ => false };
    match pick(5) {
        4 => check(refused(m.change_password(&d, &other, &other).err()), "the former password is required"),
        0 => check(refused(m.change_password(&d, &other, "new").err()), "the former password is required"),
        1 => check(refused(m.change_password(&d, &other, &pw).err()), "the former password is required"),
        2 => check(refused(m.retrieve_mnemonic(&d, &other).err()), "the password is required"),
        _ => check(refused(m.get_keys_data(&d, &other).err()) & refused(m.keychain_from_data(&d, &other).err()), "the password is required"),
    }
    cover("wrong");
}
fn c21_former() {
    let (m, d, pw, _) = made(4);
    let other = other_password(&pw);
    let refused = |e: Option<Error>| match e { Some(Error::WrongPassword) => true, _ => false };
    let e = match m.change_password(&d, &pw, &other) { Ok(e) => e, Err(_) => { fail("change of password"); return } };
    match pick(5) {
        0 => check(refused(m.keychain_from_data(&e, &pw).err()), "the former password no longer opens the data"),
        1 => check(refused(m.get_keys_data(&e, &pw).err()), "the former password no longer opens the data"),
        2 => check(refused(m.retrieve_mnemonic(&e, &pw).err()), "the former password no longer opens the data"),
        3 => check(refused(m.add_network(&e, &pw, network(0)).err()), "the former password no longer opens the data"),
        _ => check(opens(&m, &e, &other) && opens(&m, &d, &pw), "the new password opens the data, the former one the data from before"),
    }
    cover("former");
}
// long passwords that differ at their end only
fn c21_long() {
    let m = KeychainManager::with_networks(&[Network::CARDANO]).ok().unwrap();
    let long = |t| "correct horse ".repeat([10usize, 80, 400][pick(3)]) + &text(t, 2, 9);
    let (p, q) = (long("password"), long("other"));
    assume(p != q && p.as_bytes()[p.len() - 1] != 0 && q.as_bytes()[q.len() - 1] != 0);
    let seed = vec("seed", 64);
    let refused = |e: Option<Error>| match e { Some(Error::WrongPassword) => true, _ => false };
    let d = match m.keychain_data_from_seed(&seed, &p) { Ok(d) => d, Err(_) => { fail("creation from a seed"); return } };
    check(opens(&m, &d, &p) && refused(m.keychain_from_data(&d, &q).err()), "another long password is refused");
    let e = match m.change_password(&d, &p, &q) { Ok(e) => e, Err(_) => { fail("change of password"); return } };
    check(opens(&m, &e, &q) && refused(m.keychain_from_data(&e, &p).err()), "the former password no longer opens the data");
    check(refused(m.change_password(&e, &p, "new").err()) && refused(m.get_keys_data(&e, &p).err()), "the former password no longer opens the data");
    cover("long");
}
// a later operation never changes what earlier data holds, in whatever order they come
fn c21_history() {
    let (all, mut d, mut pw, w) = made(4);
    let m = if pick(2) == 0 { KeychainManager::with_networks(&[network(0), network(1)]).ok().unwrap() } else { KeychainManager::new().ok().unwrap() };
    let mut have = 4;
    for i in 0..if LONG { 4 } else { 3 } {
        match pick(3) {
            0 => {
                let new = text("new", 3, i);
                d = match m.change_password(&d, &pw, &new) { Ok(e) => e, Err(_) => { fail("change of password"); return } };
                pw = new;
            }
            k => {
                let r = m.add_network(&d, &pw, network(k - 1));
                if have >> (k - 1) & 1 == 1 { check(match r { Err(Error::KeyAlreadyExist(_)) => true, _ => false }, "added once only"); return }
                d = match r { Ok(e) => e, Err(_) => { fail("adding a network"); return } };
                have |= 1 << (k - 1);
            }
        }
    }
    opened(&all, &d, &pw, &w.of(have));
    cover("history");
}
}
/// Data for the chosen networks, made of a seed or of a mnemonic; with a manager of all networks.
pub fn made(sel: usize) -> (KeychainManager, Vec<u8>, String, Known) {
    let all = KeychainManager::new().ok().unwrap();
    let m = if sel == 7 || sel & 3 != 0 { KeychainManager::with_networks(&nets(sel)).ok().unwrap() } else { KeychainManager::with_networks(&nets(sel)).ok().unwrap() };
    if sel & 3 != 0 && pick(2) == 0 {
        let p = phrase(12, Language::Spanish, 5);
        let w = known(&phrase_seed(&p));
        let pw = password("password", sel);
        let d = m.keychain_data_from_mnemonic(&p, &pw, Some(Language::Spanish)).ok().unwrap();
        return (all, d, pw, w)
    }
    let seed = vec("seed", 64);
    let w = known(&seed);
    let pw = password("password", sel);
    let d = m.keychain_data_from_seed(&seed, &pw).ok().unwrap();
    (all, d, pw, w)
}
pub fn opens(m: &KeychainManager, d: &[u8], pw: &str) -> bool { m.keychain_from_data(d, pw).is_ok() }
fn other_password(pw: &str) -> String {
    let o = text("other", 3, 1);
    assume(!same(pw.as_bytes(), o.as_bytes()));
    if !o.is_empty() { assume(o.as_bytes()[o.len() - 1] != 0) }
    if !pw.is_empty() { assume(pw.as_bytes()[pw.len() - 1] != 0) }
    o
}
fn same_secret(m: &KeychainManager, d: &[u8], e: &[u8], pw: &str) { same_secret2(m, d, pw, e, pw) }
/// The stored mnemonic is the same, or there is none on either side.
fn same_secret2(m: &KeychainManager, d: &[u8], p: &str, e: &[u8], q: &str) {
    match (m.retrieve_mnemonic(d, p), m.retrieve_mnemonic(e, q)) {
        (Ok((a, l)), Ok((b, k))) => check(l == k && same(a.as_bytes(), b.as_bytes()), "the stored mnemonic stays"),
        (Err(Error::SeedIsNotSaved), Err(Error::SeedIsNotSaved)) => {}
        _ => fail("the stored mnemonic stays"),
    }
}
fn phrase_any(n: usize, lang: Language) -> String {
    let w = phrase(12, lang, 3);
    let w: Vec<&str> = w.split(' ').collect();
    (0..n).map(|i| w[i % 12]).collect::<Vec<_>>().join(" ")
}
fn from_mnemonic(sel: usize, lang: Option<Language>) {
    let lang = lang.unwrap_or(Language::English);
    let p = phrase(words(sel), lang, 11);
    let seed = phrase_seed(&p);
    let w = known(&seed).of(sel);
    let m = manager(sel);
    let pw = password("password", sel);
    let l = if lang == Language::English && pick(2) == 0 { None } else { Some(lang) };
    let d = match m.keychain_data_from_mnemonic(&p, &pw, l) { Ok(d) => d, Err(_) => { fail("creation from a mnemonic"); return } };
    opened(&m, &d, &pw, &w);
    match m.retrieve_mnemonic(&d, &pw) {
        Ok((q, l)) => check(l == lang && same(q.as_bytes(), p.as_bytes()), "the mnemonic and its language are kept"),
        Err(_) => fail("the mnemonic is kept"),
    }
    cover("mnemonic");
}
