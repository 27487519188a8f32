//! Keychains and managers over networks defined outside the library.
use crate::keys::*;
use crate::util::*;
use keychain::{Error, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Language, Network, SeedSize};
use std::cell::RefCell;
use std::rc::Rc;

/// What reached a key: its tag, the operation, the path, the data and signature; and what it answered.
struct Call { tag: usize, op: usize, path: [u32; 5], data: Vec<u8>, sig: Vec<u8>, out: Vec<u8> }
type Log = Rc<RefCell<Vec<Call>>>;
struct Mock { net: Network, tag: usize, log: Log }
impl Mock {
    fn call(&self, op: usize, path: &KeyPath, data: &[u8], sig: &[u8], n: usize) -> Result<Vec<u8>, KeyError> {
        let out = vec("answer", n);
        self.log.borrow_mut().push(Call { tag: self.tag, op, path: [path.purpose(), path.coin(), path.account(), path.change(), path.address()], data: data.to_vec(), sig: sig.to_vec(), out: out.clone() });
        if out[0] == 13 { Err(KeyError::InvalidKeySize(self.tag, op)) } else { Ok(out) }
    }
}
impl Key for Mock {
    fn network(&self) -> Network { self.net }
    fn pub_key(&self, path: &KeyPath) -> Result<Vec<u8>, KeyError> { self.call(0, path, &[], &[], 3 + self.tag) }
    fn sign(&self, data: &[u8], path: &KeyPath) -> Result<Vec<u8>, KeyError> { self.call(1, path, data, &[], 5) }
    fn verify(&self, data: &[u8], sig: &[u8], path: &KeyPath) -> Result<bool, KeyError> { self.call(2, path, data, sig, 1).map(|v| v[0] & 1 == 1) }
}
/// Network numbers: built-in ones, their neighbours, numbers that differ in one bit only, the limits.
/// A network number for each tag beyond those.
const FAR: u32 = 0x0005_0000;
const IDS: [u32; 9] = [0x8000_003c, 0x8000_0000, 0x8000_0717, 0, 1, 60, 0xffff_ffff, 0x8000_0001, 0x0001_0000];

pub fn id(i: usize) -> Network { Network(if i < 9 { IDS[i] } else { FAR + 257 * i as u32 }) }
fn args() -> Any { Any([u32v("p"), u32v("c"), u32v("a"), u32v("ch"), u32v("ad")]) }

/// One operation, its path and data reaching key `tag` and nothing else, with its own answer coming back.
fn routed(k: &Keychain, log: &Log, n: Network, tag: Option<usize>, op: usize) {
    let path = args();
    let (data, sig) = (vec("data", 4), vec("sig", 6));
    let before = log.borrow().len();
    let (got, err, flag) = match op {
        0 => match k.pub_key(&n, &path) { Ok(v) => (Some(v), None, None), Err(e) => (None, Some(e), None) },
        1 => match k.sign(&n, &data, &path) { Ok(v) => (Some(v), None, None), Err(e) => (None, Some(e), None) },
        _ => match k.verify(&n, &data, &sig, &path) { Ok(v) => (None, None, Some(v)), Err(e) => (None, Some(e), None) },
    };
    let l = log.borrow();
    let tag = match tag {
        None => {
            check(l.len() == before && match err { Some(Error::KeyDoesNotExist(x)) => x == n, _ => false }, "a network without key is refused by name");
            cover("absent");
            return
        }
        Some(t) => t,
    };
    if l.len() != before + 1 { fail("exactly one key is asked"); return }
    let c = &l[before];
    check((c.tag == tag) & (c.op == op), "the operation reaches the key of the network");
    check((c.path[0] == path.0[0]) & (c.path[1] == path.0[1]) & (c.path[2] == path.0[2]) & (c.path[3] == path.0[3]) & (c.path[4] == path.0[4]), "the path reaches the key");
    if op > 0 { check(same(&c.data, &data), "the data reaches the key") }
    if op > 1 { check(same(&c.sig, &sig), "the signature reaches the key") }
    match (got, flag, err) {
        (Some(v), _, _) => { check(same(&v, &c.out) & (op < 2), "the key's answer comes back"); cover("answer") }
        (_, Some(f), _) => { check((f == (c.out[0] & 1 == 1)) & (op == 2), "the key's verdict comes back"); cover("verdict") }
        (_, _, Some(Error::KeyError(x, KeyError::InvalidKeySize(a, b)))) => { check((x == n) & (a == tag) & (b == op), "the key's error comes back with its network"); cover("error") }
        _ => fail("the key's answer comes back"),
    }
}

// ---- factories ----
/// What a factory was given, in order.
pub struct Made { pub tag: usize, pub seed: Vec<u8>, pub out: Vec<u8> }
struct Fac { net: Network, tag: usize, min: usize, max: usize, made: Rc<RefCell<Vec<Made>>>, read: Rc<RefCell<Vec<Made>>>, log: Log, broken: usize }
impl KeyFactory for Fac {
    fn network(&self) -> Network { self.net }
    fn seed_size(&self) -> SeedSize { SeedSize { min: self.min, max: self.max } }
    fn key_from_data(&self, data: &[u8]) -> Result<Box<Key>, KeyError> {
        self.read.borrow_mut().push(Made { tag: self.tag, seed: vec![], out: data.to_vec() });
        if self.broken == 2 { return Err(KeyError::InvalidKeySize(self.tag, 2)) }
        Ok(Box::new(Mock { net: self.net, tag: self.tag, log: self.log.clone() }))
    }
    fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
        let out = vec("material", [5usize, 0, 9, 16][self.tag % 4]);
        self.made.borrow_mut().push(Made { tag: self.tag, seed: seed.to_vec(), out: out.clone() });
        if self.broken == 1 { return Err(KeyError::InvalidKeySize(self.tag, 1)) }
        Ok(out)
    }
}
pub struct World { pub made: Rc<RefCell<Vec<Made>>>, pub read: Rc<RefCell<Vec<Made>>>, log: Log }
impl World {
    pub fn new() -> World { World { made: Rc::new(RefCell::new(vec![])), read: Rc::new(RefCell::new(vec![])), log: Rc::new(RefCell::new(vec![])) } }
    pub fn factory(&self, tag: usize, broken: usize) -> Box<KeyFactory> { self.sized(tag, 128, 256, broken) }
    fn sized(&self, tag: usize, min: usize, max: usize, broken: usize) -> Box<KeyFactory> {
        Box::new(Fac { net: id(tag), tag, min, max, made: self.made.clone(), read: self.read.clone(), log: self.log.clone(), broken })
    }
    pub fn material(&self, tag: usize) -> Option<Vec<u8>> { self.made.borrow().iter().rev().find(|m| m.tag == tag).map(|m| m.out.clone()) }
}
fn holds(l: &[(Network, Vec<u8>)], w: &World, tags: &[usize]) -> bool {
    let mut ok = l.len() == tags.len();
    for t in tags {
        ok &= match (l.iter().find(|x| x.0 == id(*t)), w.material(*t)) { (Some(x), Some(m)) => same(&x.1, &m), _ => false };
    }
    ok
}

entries! {
// keychains of up to three networks, each operation for each network
fn c18_route() {
    let a = pick(9);
    let step = 1 + pick(4);
    let n = pick(4);
    let tags: Vec<usize> = (0..n).map(|i| (a + i * step) % 9).collect();
    let log: Log = Rc::new(RefCell::new(vec![]));
    let k = Keychain::new(tags.iter().map(|t| Box::new(Mock { net: id(*t), tag: *t, log: log.clone() }) as Box<Key>).collect());
    let l = k.networks();
    let mut ok = l.len() == n;
    for t in 0..9 { ok &= (k.has_network(&id(t)) == tags.contains(&t)) & (l.contains(&id(t)) == tags.contains(&t)) }
    check(ok, "exactly the networks of the keys");
    let t = pick(9);
    routed(&k, &log, id(t), if tags.contains(&t) { Some(t) } else { None }, pick(3));
}
// a sequence of operations: no answer depends on what was asked before
fn c18_sequence() {
    let tags = [0usize, 1, 4];
    let log: Log = Rc::new(RefCell::new(vec![]));
    let k = Keychain::new(tags.iter().map(|t| Box::new(Mock { net: id(*t), tag: *t, log: log.clone() }) as Box<Key>).collect());
    for _ in 0..if LONG { 3 } else { 2 } {
        let t = [0usize, 1, 4, 5][pick(4)];
        routed(&k, &log, id(t), if t == 5 { None } else { Some(t) }, pick(3));
    }
    cover("sequence");
}
// many networks in one keychain
fn c18_many() {
    let n = [12usize, 40, 300][pick(3)];
    let log: Log = Rc::new(RefCell::new(vec![]));
    let k = Keychain::new((0..n).map(|t| Box::new(Mock { net: id(t), tag: t, log: log.clone() }) as Box<Key>).collect());
    let l = k.networks();
    check(l.len() == n && (0..n).all(|t| k.has_network(&id(t))) && (0..n).all(|t| l.contains(&id(t))), "exactly the networks of the keys");
    let t = [0, 1, n / 2, n - 1, n, n + 1][pick(6)];
    routed(&k, &log, id(t), if t < n { Some(t) } else { None }, pick(3));
    cover("many");
}
// the built-in networks' keys side by side
fn c18_real() {
    let seed = vec("seed", 64);
    let w = pick(3);
    match master(&seed) { Some(m) => { for i in 0..2 { walk(m.clone(), &[HARD + 44, coin(i)]); } } None => return }
    let data: Vec<Vec<u8>> = (0..3).map(|i| factory(i).key_data_from_seed(&seed)).filter_map(|d| d.ok()).collect();
    assume(data.len() == 3);
    let key = |i: usize| factory(i).key_from_data(&data[i]).ok().unwrap();
    let absent = pick(4);
    let k = Keychain::new((0..3).filter(|i| *i != absent).map(|i| key(i)).collect());
    let p = Any(good(w));
    if w < 2 { walk(master(&seed).unwrap(), &p.0); }
    let own = key(w);
    let n = network(w);
    let msg = vec("message", 5);
    let sig = vec("signature", 64);
    let gone = |e: &Error| match e { Error::KeyDoesNotExist(x) => *x == n && w == absent, _ => false };
    // unusable child keys end in an error of the key itself
    match (k.pub_key(&n, &p), own.pub_key(&p)) {
        (Ok(a), Ok(b)) => { check(same(&a, &b) & (w != absent), "public key of the network's key"); cover("key") }
        (Err(Error::KeyError(x, _)), Err(_)) => check(x == n, "the error names the network"),
        (Err(e), _) => { check(gone(&e), "no key"); cover("absent"); return }
        _ => fail("public key of the network's key"),
    }
    match (k.sign(&n, &msg, &p), own.sign(&msg, &p)) {
        (Ok(a), Ok(b)) => check(same(&a, &b), "signature of the network's key"),
        (Err(Error::KeyError(x, _)), Err(_)) => check(x == n, "the error names the network"),
        _ => fail("signature of the network's key"),
    }
    match (k.verify(&n, &msg, &sig, &p), own.verify(&msg, &sig, &p)) {
        (Ok(a), Ok(b)) => check(a == b, "verdict of the network's key"),
        (Err(Error::KeyError(x, _)), Err(_)) => check(x == n, "the error names the network"),
        _ => fail("verdict of the network's key"),
    }
}

// which seed size the networks of a manager agree on
fn c22_sizes() {
    let n = 1 + pick(3);
    let w = World::new();
    let s: Vec<(u64, u64)> = (0..n).map(|_| (u64v("min"), u64v("max"))).collect();
    let fs = (0..n).map(|i| w.sized(i, s[i].0 as usize, s[i].1 as usize, 0)).collect();
    let (mut lo, mut hi) = (0u64, u64::max_value());
    for x in &s {
        lo = select(x.0 > lo, x.0, lo);
        hi = select(x.1 < hi, x.1, hi);
    }
    match KeychainManager::with_factories(fs) {
        Ok(m) => {
            check((lo > 0) & (lo <= hi), "the smallest size every network admits");
            cover("agreed");
            // there are mnemonics of six sizes only
            let known = (lo == 96) | (lo == 128) | (lo == 160) | (lo == 192) | (lo == 224) | (lo == 256);
            if !known { check(match m.generate_mnemonic(None) { Err(Error::MnemonicError(_)) => true, _ => false }, "no mnemonic of another size"); cover("no such mnemonic") }
        }
        Err(Error::CantCalculateSeedSize(a, b)) => { check((a as u64 == lo) & (b as u64 == hi) & ((lo == 0) | (lo >= hi)), "only networks that cannot agree are refused"); cover("refused") }
        Err(_) => fail("kind of error"),
    }
}
fn c22_none() {
    check(match KeychainManager::with_networks(&[]) { Err(Error::CantCalculateSeedSize(0, _)) => true, _ => false }, "a manager needs a network");
    check(match KeychainManager::with_networks(&[Network(7)]) { Err(Error::CantCalculateSeedSize(0, _)) => true, _ => false }, "a manager needs a network it knows");
    check(match KeychainManager::with_factories(vec![]) { Err(Error::CantCalculateSeedSize(0, _)) => true, _ => false }, "a manager needs a network");
    cover("none");
}
// sizes between those of mnemonics: named, and not replaced by a neighbour
fn c22_odd() {
    let size = [1usize, 8, 32, 64, 95, 97, 127, 129, 130, 191, 255, 257, 288, 384, 512, 16][pick(16)];
    let w = World::new();
    let m = KeychainManager::with_factories(vec![w.sized(3, size, 1000, 0)]).ok().unwrap();
    check(match m.generate_mnemonic(None) { Err(Error::MnemonicError(e)) => e.to_string() == format!("Invalid entropy size {}", size), _ => false }, "the size is named");
    check(os::log().is_empty(), "nothing is drawn");
    cover("odd");
}
// a generated mnemonic is the encoding of bytes drawn for it from the operating system
fn c22_generate() {
    let size = [128usize, 96, 160, 192, 224, 256][pick(6)];
    let w = World::new();
    let m = KeychainManager::with_factories(vec![w.sized(3, size, 1000, 0), w.sized(4, 1, 512, 0)]).ok().unwrap();
    let lang = [None, Some(Language::English), Some(Language::Italian), Some(Language::Korean), Some(Language::Japanese)][pick(if LONG { 5 } else { 3 })];
    let dict = lang.unwrap_or(Language::English).to_dict();
    let mut ent: Vec<u8> = (0..size / 8).map(|i| (i * 37 + size) as u8).collect();
    match pick(4) { 0 => {} 1 => ent[0] ^= 0x80, 2 => ent[size / 8 - 1] ^= 1, _ => ent[size / 16] ^= 0x3c }
    os::feed(&ent);
    assume(sha256(&ent)[0] == [0, 0xa5, 0x7f][pick(3)]);
    let e = bip39::Entropy::from_slice(&ent).ok().unwrap().to_mnemonics();
    let want = e.to_string(dict);
    let got = match m.generate_mnemonic(lang) { Ok(t) => t, Err(_) => { fail("a mnemonic of the seed size"); return } };
    check(same(got.as_bytes(), want.as_bytes()), "the mnemonic encodes the bytes drawn");
    check(got.split(' ').count() == size / 32 * 3 || lang == Some(Language::Japanese), "number of words");
    let drawn: usize = os::log().iter().map(|d| d.len()).sum();
    check(drawn == size / 8, "nothing else is drawn");
    cover("generated");
}
// each mnemonic is made of bytes of its own
fn c22_fresh() {
    let w = World::new();
    let m = KeychainManager::with_factories(vec![w.sized(3, 96, 1000, 0)]).ok().unwrap();
    let ents: Vec<Vec<u8>> = (0..3).map(|k| (0..12).map(|i| (i * 37 + k * 91) as u8).collect()).collect();
    for e in &ents { os::feed(e) }
    for e in &ents {
        let want = bip39::Entropy::from_slice(e).ok().unwrap().to_mnemonics().to_string(Language::English.to_dict());
        match m.generate_mnemonic(None) { Ok(t) => check(same(t.as_bytes(), want.as_bytes()), "each mnemonic encodes bytes drawn for it"), Err(_) => fail("a mnemonic") }
    }
    cover("fresh");
}
// a mnemonic is taken exactly if it has the number of words that the seed size asks for
fn c22_words() {
    let size = [96usize, 128, 160, 192, 224, 256][pick(6)];
    let w = World::new();
    let m = KeychainManager::with_factories(vec![w.sized(3, size, 1000, 0)]).ok().unwrap();
    let n = 9 + 3 * pick(6);
    let v = (0..n as u16).map(|i| bip39::MnemonicIndex::new((i * 331 + 3) & 2047).ok().unwrap()).collect();
    let p = bip39::Mnemonics::from_mnemonics(v).ok().unwrap().to_string(Language::English.to_dict()).to_string();
    match m.keychain_data_from_mnemonic(&p, "pw", None) {
        Ok(_) => {
            check(n == size / 32 * 3, "only mnemonics of the seed size");
            let l = w.made.borrow();
            check(l.len() == 1 && same(&l[0].seed, &pbkdf2_512(p.as_bytes(), b"mnemonic", 2048, 64)), "the seed is that of the mnemonic without passphrase");
            cover("taken")
        }
        Err(Error::MnemonicError(e)) => {
            let k = size / 32 * 3;
            check(n != k && e.to_string() == format!("Mnemonic {} too {}: {}", n, if n < k { "short. Min" } else { "short. Max" }, k), "other lengths are refused and named");
            cover("refused")
        }
        Err(_) => fail("kind of error"),
    }
}

// every network is asked for its key of the very seed, and its answer is kept
fn c24_create() {
    let n = 1 + pick(3);
    let w = World::new();
    let step = 1 + pick(2);
    let tags: Vec<usize> = (0..n).map(|i| 2 + i * step).collect();
    let m = KeychainManager::with_factories(tags.iter().map(|t| w.factory(*t, 0)).collect()).ok().unwrap();
    for t in 0..9 { check((m.has_network(&id(t)) == tags.contains(&t)) & (m.get_key_factory(&id(t)).map(|f| f.network()) == if tags.contains(&t) { Some(id(t)) } else { None }), "networks of the manager") }
    let seed = vec("seed", 64);
    let d = match m.keychain_data_from_seed(&seed, "pw") { Ok(d) => d, Err(_) => { fail("creation"); return } };
    {
        let l = w.made.borrow();
        check(l.len() == n, "every network is asked once");
        for x in l.iter() { check(same(&x.seed, &seed), "the seed reaches the network") }
    }
    match m.get_keys_data(&d, "pw") { Ok(l) => check(holds(&l, &w, &tags), "key data as the networks made it"), Err(_) => fail("key data") }
    match m.keychain_from_data(&d, "pw") {
        Ok(k) => {
            let l = w.read.borrow();
            check(l.len() == n, "every key is read once");
            for x in l.iter() { check(same(&x.out, &w.material(x.tag).unwrap()), "its own data reaches the network") }
            let t = tags[pick(n)];
            routed(&k, &w.log, id(t), Some(t), pick(2));
            cover("created");
        }
        Err(_) => fail("opening"),
    }
}
// as many networks as one likes
fn c24_many() {
    let n = [9usize, 17, 70][pick(3)];
    let w = World::new();
    let tags: Vec<usize> = (0..n).collect();
    let m = KeychainManager::with_factories(tags.iter().map(|t| w.factory(*t, 0)).collect()).ok().unwrap();
    let seed = vec("seed", 64);
    let d = match m.keychain_data_from_seed(&seed, "pw") { Ok(d) => d, Err(_) => { fail("creation"); return } };
    {
        let l = w.made.borrow();
        check(l.len() == n && tags.iter().all(|t| l.iter().any(|x| x.tag == *t)), "every network is asked once");
        for x in l.iter() { check(same(&x.seed, &seed), "the seed reaches the network") }
    }
    match m.get_keys_data(&d, "pw") { Ok(l) => check(holds(&l, &w, &tags), "key data as the networks made it"), Err(_) => fail("key data") }
    match m.keychain_from_data(&d, "pw") {
        Ok(k) => {
            let l = w.read.borrow();
            check(l.len() == n && k.networks().len() == n, "every key is read once");
            for x in l.iter() { check(same(&x.out, &w.material(x.tag).unwrap()), "its own data reaches the network") }
        }
        Err(_) => fail("opening"),
    }
    cover("many");
}
// a network that fails, at creation, at opening or at adding, is named and nothing comes out
fn c24_failing() {
    let w = World::new();
    let bad = pick(3);
    let how = 1 + pick(2);
    let m = KeychainManager::with_factories((0..3).map(|t| w.factory(t, if t == bad { how } else { 0 })).collect()).ok().unwrap();
    let seed = vec("seed", 64);
    let named = |e: Option<Error>| match e { Some(Error::KeyError(n, KeyError::InvalidKeySize(a, b))) => n == id(bad) && a == bad && b == how, _ => false };
    if how == 1 {
        check(named(m.keychain_data_from_seed(&seed, "pw").err()), "a network that has no key for the seed is named");
        cover("create");
        let other = KeychainManager::with_factories(vec![w.factory((bad + 1) % 3, 0)]).ok().unwrap();
        let d = other.keychain_data_from_seed(&seed, "pw").ok().unwrap();
        check(named(m.add_network(&d, "pw", id(bad)).err()), "a network that has no key for the seed is named");
        cover("add");
    } else {
        let d = match m.keychain_data_from_seed(&seed, "pw") { Ok(d) => d, Err(_) => { fail("creation"); return } };
        check(named(m.keychain_from_data(&d, "pw").err()), "a network that cannot read its key is named");
        cover("open");
        // without that network the rest still opens
        let rest = KeychainManager::with_factories((0..3).filter(|t| *t != bad).map(|t| w.factory(t, 0)).collect()).ok().unwrap();
        match rest.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks().len() == 2 && !k.has_network(&id(bad)), "the other networks open"), Err(_) => fail("the other networks open") }
    }
}
// keys of networks the manager does not know stay in the data through every operation
fn c24_unknown() {
    let w = World::new();
    let all = KeychainManager::with_factories((0..4).map(|t| w.factory(t, 0)).collect()).ok().unwrap();
    let mine = pick(4);
    let some = KeychainManager::with_factories(vec![w.factory(mine, 0), w.factory(5, 0)]).ok().unwrap();
    let seed = vec("seed", 64);
    let d = all.keychain_data_from_seed(&seed, "pw").ok().unwrap();
    match some.keychain_from_data(&d, "pw") { Ok(k) => check(k.networks() == vec![id(mine)], "networks the manager does not know are left out"), Err(_) => fail("networks the manager does not know do not matter") }
    let e = match pick(3) {
        0 => some.change_password(&d, "pw", "pw"),
        1 => some.add_network(&d, "pw", id(5)),
        _ => some.add_network(&d, "pw", id(5)).and_then(|e| some.change_password(&e, "pw", "pw")),
    };
    let e = match e { Ok(e) => e, Err(_) => { fail("operation"); return } };
    let added = some.keychain_from_data(&e, "pw").ok().unwrap().has_network(&id(5));
    let tags: Vec<usize> = if added { vec![0, 1, 2, 3, 5] } else { vec![0, 1, 2, 3] };
    match all.get_keys_data(&e, "pw") { Ok(l) => check(holds(&l, &w, &tags), "keys of unknown networks are kept"), Err(_) => fail("keys are kept") }
    check(match all.add_network(&e, "pw", id(mine)) { Err(Error::KeyAlreadyExist(x)) => x == id(mine), _ => false }, "no key is added twice");
    cover("kept");
}
}
