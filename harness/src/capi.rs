//! The C interface, called as a C program would: through its symbols, with the types of its header.
use crate::keys::*;
use crate::stored::{inner, outer, sealed};
use crate::util::*;
use keychain::{Error, GenericKeyPath, KeyPath, Keychain, KeychainManager, Language, Network};
use rust_keychain as _;
use std::os::raw::c_char;

#[repr(C)] #[derive(Clone, Copy)] pub struct Bytes { ptr: *const u8, len: usize }
#[repr(C)] #[derive(Clone, Copy)] pub struct Nets { ptr: *const u32, count: usize }
#[repr(C)] #[derive(Clone, Copy)] pub struct Elem { network: u32, data: Bytes }
#[repr(C)] #[derive(Clone, Copy)] pub struct Elems { ptr: *const Elem, count: usize }
#[repr(C)] #[derive(Clone, Copy)] pub struct Fault { kind: i32, message: *const c_char }
#[repr(C)] #[derive(Clone, Copy)] pub struct Info { mnemonic: *const c_char, language: i32 }
#[repr(C)] #[derive(Clone, Copy)] pub struct P5 { p: [u32; 5] }
#[repr(C)] #[derive(Clone, Copy)] pub struct Handle { h: *const u8 }
type Str = *const c_char;
extern "C" {
    fn keychain_manager_new(m: &mut Handle, e: &mut Fault) -> bool;
    fn keychain_manager_has_network(m: &Handle, n: u32, has: &mut bool, e: &mut Fault) -> bool;
    fn keychain_manager_generate_mnemonic(m: &Handle, l: i32, s: &mut Str, e: &mut Fault) -> bool;
    fn keychain_manager_keychain_data_from_seed(m: &Handle, s: *const u8, n: usize, pw: Str, d: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_manager_keychain_data_from_mnemonic(m: &Handle, s: Str, pw: Str, l: i32, d: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_manager_keychain_from_data(m: &Handle, d: *const u8, n: usize, pw: Str, k: &mut Handle, e: &mut Fault) -> bool;
    fn keychain_manager_add_network(m: &Handle, d: *const u8, n: usize, pw: Str, net: u32, o: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_manager_change_password(m: &Handle, d: *const u8, n: usize, old: Str, new: Str, o: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_manager_get_keys_data(m: &Handle, d: *const u8, n: usize, pw: Str, o: &mut Elems, e: &mut Fault) -> bool;
    fn keychain_manager_retrieve_mnemonic(m: &Handle, d: *const u8, n: usize, pw: Str, o: &mut Info, e: &mut Fault) -> bool;
    fn keychain_networks(k: &Handle, n: &mut Nets, e: &mut Fault) -> bool;
    fn keychain_pub_key(k: &Handle, n: u32, p: P5, o: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_sign(k: &Handle, n: u32, d: *const u8, l: usize, p: P5, o: &mut Bytes, e: &mut Fault) -> bool;
    fn keychain_verify(k: &Handle, n: u32, d: *const u8, l: usize, s: *const u8, sl: usize, p: P5, r: &mut bool, e: &mut Fault) -> bool;
    fn keypath_from_string(s: Str, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_bitcoin_new_bip44(t: bool, a: u32, c: u32, i: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_bitcoin_new_bip49(t: bool, a: u32, c: u32, i: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_bitcoin_new_bip84(t: bool, a: u32, c: u32, i: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_cardano_new(a: u32, c: u32, i: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_ethereum_new(a: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn keypath_ethereum_new_metamask(a: u32, p: &mut P5, e: &mut Fault) -> bool;
    fn NETWORK_BITCOIN() -> u32;
    fn NETWORK_CARDANO() -> u32;
    fn NETWORK_ETHEREUM() -> u32;
    fn delete_error(e: &mut Fault);
    fn delete_keychain(k: &mut Handle);
    fn delete_keychain_manager(m: &mut Handle);
    fn delete_networks(n: &mut Nets);
    fn delete_data(d: &mut Bytes);
    fn delete_string(s: Str);
    fn delete_key_backup(b: &mut Elems);
    fn delete_mnemonic_info(i: &mut Info);
}
/// Live allocations, those of the models left out.
fn live() -> u64 { os::forget(); heap_live() }
const NO: *const u8 = 0x5150 as *const u8;
const NONE: Bytes = Bytes { ptr: NO, len: 77 };
fn fault() -> Fault { Fault { kind: 99, message: NO as Str } }
fn quiet(e: &Fault) -> bool { e.kind == 99 && e.message == NO as Str }
fn untouched(b: &Bytes) -> bool { b.ptr == NO && b.len == 77 }
unsafe fn at<'a>(b: &Bytes) -> &'a [u8] { std::slice::from_raw_parts(b.ptr, b.len) }
unsafe fn chars<'a>(p: Str) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 { n += 1 }
    std::slice::from_raw_parts(p as *const u8, n)
}
/// A C string; its text has no NUL.
struct C(Vec<u8>);
impl C {
    fn new(s: &str) -> C { C::raw(s.as_bytes()) }
    fn raw(s: &[u8]) -> C {
        let mut ok = true;
        for b in s { ok &= *b != 0 }
        assume(ok);
        let mut v = s.to_vec();
        v.push(0);
        C(v)
    }
    fn p(&self) -> Str { self.0.as_ptr() as Str }
}
/// The code the header gives the error.
fn code(e: &Error) -> i32 {
    match e {
        Error::WrongPassword => 0,
        Error::NotEnoughData => 1,
        Error::SeedIsNotSaved => 2,
        Error::CantCalculateSeedSize(_, _) => 3,
        Error::DataError(_) => 4,
        Error::InvalidSeedSize(_) => 5,
        Error::KeyDoesNotExist(_) => 6,
        Error::KeyAlreadyExist(_) => 7,
        Error::NetworkIsNotSupported(_) => 8,
        Error::KeyError(_, _) => 9,
        Error::KeyPathError(_) => 10,
        Error::MnemonicError(_) => 11,
    }
}
/// The error of the library came back: its code and its text; it is freed.
unsafe fn reported(f: &mut Fault, e: &Error) {
    check(f.kind == code(e), "code of the error");
    check(same(chars(f.message), e.to_string().as_bytes()), "text of the error");
    delete_error(f);
    cover("error");
}
unsafe fn panicked(f: &mut Fault) {
    check(f.kind == -1, "code of an internal failure");
    let n = chars(f.message).len();
    check(n > 0, "text of an internal failure");
    delete_error(f);
    cover("failure");
}
unsafe fn cmanager() -> Handle {
    let mut m = Handle { h: NO };
    let mut e = fault();
    check(keychain_manager_new(&mut m, &mut e) && quiet(&e) && m.h != NO, "a manager");
    m
}
fn rmanager() -> KeychainManager { KeychainManager::new().ok().unwrap() }
/// Data for a fixed seed under the password, with the key of one network.
fn data(pw: &str) -> Vec<u8> {
    let k: Vec<u8> = (0..96).map(|i| if i == 31 { 0x50 } else if i == 0 { 0x58 } else { i as u8 }).collect();
    sealed(&outer(2, &inner(Some(&[7u8; 64]), None, None, &[(coin(2), k)])), pw)
}
unsafe fn ckeychain(m: &Handle, d: &[u8], pw: &C) -> Handle {
    let mut k = Handle { h: NO };
    let mut e = fault();
    if !keychain_manager_keychain_from_data(m, d.as_ptr(), d.len(), pw.p(), &mut k, &mut e) { fail("data opens"); }
    k
}
/// The seed's keys are usable: the same assumptions the reference makes.
fn usable(seed: &[u8]) {
    let m = match master(seed) { Some(m) => m, None => { assume(false); unreachable!() } };
    for i in 0..2 { walk(m.clone(), &[HARD + 44, coin(i), HARD, 0, 5]); }
}
fn cp(i: usize) -> [u32; 5] { [HARD + 44, coin(i), HARD, 0, 5] }
/// A keychain over an arbitrary seed, through either interface.
unsafe fn both(pw: &str) -> (Handle, Keychain, Vec<u8>) {
    let seed = vec("seed", 64);
    usable(&seed);
    let m = rmanager();
    let d = m.keychain_data_from_seed(&seed, pw).ok().unwrap();
    let mut h = cmanager();
    let k = ckeychain(&h, &d, &C::new(pw));
    delete_keychain_manager(&mut h);
    (k, m.keychain_from_data(&d, pw).ok().unwrap(), d)
}
unsafe fn path_is(ok: bool, p: &P5, f: &mut Fault, want: Result<Box<KeyPath>, Error>) {
    match want {
        Ok(w) => {
            check(ok && quiet(f), "a path");
            check((p.p[0] == w.purpose()) & (p.p[1] == w.coin()) & (p.p[2] == w.account()) & (p.p[3] == w.change()) & (p.p[4] == w.address()), "the path of the library");
            cover("path");
        }
        Err(e) => {
            check(!ok, "an error");
            let mut same_ = true;
            for x in &p.p { same_ &= *x == 9 }
            check(same_, "nothing is written on failure");
            check(f.kind == code(&e), "code of the error");
            delete_error(f);
            cover("refused");
        }
    }
}

entries! {
fn c26_paths() { unsafe {
    let (t, a, c, i) = (byte("testnet") & 1 == 1, u32v("account"), u32v("change"), u32v("address"));
    let mut p = P5 { p: [9; 5] };
    let mut f = fault();
    use keychain::networks::{bitcoin::KeyPath as B, cardano::KeyPath as K, ethereum::KeyPath as E};
    fn bx<P: KeyPath + 'static, X: Into<Error>>(r: Result<P, X>) -> Result<Box<KeyPath>, Error> { r.map(|p| Box::new(p) as Box<KeyPath>).map_err(|e| e.into()) }
    // the text of these errors has numbers in it (C11 checks them)
    let w = pick(6);
    if (a >= HARD) & !((a == HARD) | (a == HARD + 7)) { assume(false) }
    if (c > 1) & !((c == 2) | (c == HARD)) { assume(false) }
    if (i >= HARD) & !((i == HARD) | (i == 0xffff_ffff)) { assume(false) }
    match w {
        0 => { let ok = keypath_bitcoin_new_bip44(t, a, c, i, &mut p, &mut f); path_is(ok, &p, &mut f, bx(B::bip44(t, a, c, i))) }
        1 => { let ok = keypath_bitcoin_new_bip49(t, a, c, i, &mut p, &mut f); path_is(ok, &p, &mut f, bx(B::bip49(t, a, c, i))) }
        2 => { let ok = keypath_bitcoin_new_bip84(t, a, c, i, &mut p, &mut f); path_is(ok, &p, &mut f, bx(B::bip84(t, a, c, i))) }
        3 => { let ok = keypath_cardano_new(a, c, i, &mut p, &mut f); path_is(ok, &p, &mut f, bx(K::new(a, c, i))) }
        4 => { let ok = keypath_ethereum_new(a, &mut p, &mut f); path_is(ok, &p, &mut f, bx(E::new(a))) }
        _ => { let ok = keypath_ethereum_new_metamask(a, &mut p, &mut f); path_is(ok, &p, &mut f, bx(E::new_metamask(a))) }
    }
} }
fn c26_path_text() { unsafe {
    // one or two arbitrary characters in a path, and paths that have errors of each kind
    let mut t = [&b"m/44'/1815'/0'/1/7"[..], b"m/84'/0'/3'/0/0", b"m/44'/60'/1'/0/2147483647"][pick(3)].to_vec();
    let at = [2usize, 4, 6, 11, t.len() - 2][pick(5)];
    t[at..at + 2].copy_from_slice(&vec("text", 2));
    assume((t[at] < 128) & (t[at + 1] < 128));
    let s = C::raw(&t);
    let mut p = P5 { p: [9; 5] };
    let mut f = fault();
    let ok = keypath_from_string(s.p(), &mut p, &mut f);
    let want = GenericKeyPath::from(std::str::from_utf8(&t).unwrap());
    path_is(ok, &p, &mut f, want.map(|p| Box::new(p) as Box<KeyPath>).map_err(|e| e.into()));
} }
fn c26_constants() { unsafe {
    check(NETWORK_BITCOIN() == HARD && NETWORK_CARDANO() == HARD + 1815 && NETWORK_ETHEREUM() == HARD + 60, "network numbers");
    let mut m = cmanager();
    for n in &[HARD, HARD + 1815, HARD + 60, 0, 1, 60, 0xffff_ffff] {
        let mut has = pick(2) == 1;
        let mut f = fault();
        check(keychain_manager_has_network(&m, *n, &mut has, &mut f) && quiet(&f), "an answer");
        check(has == (*n == HARD || *n == HARD + 1815 || *n == HARD + 60), "networks of the manager");
    }
    delete_keychain_manager(&mut m);
    cover("constants");
} }
// public key, signature and verdict through either interface
fn c26_keychain() { unsafe {
    let (mut k, r, _) = both("pw");
    let w = pick(4);
    let n = if w < 3 { network(w) } else { Network(5) };
    let p = Any(if w < 3 && pick(3) > 0 { cp(w) } else { [HARD + 44, coin(w % 3), 7, 0, 0] });
    let q = P5 { p: p.0 };
    let mut f = fault();
    let mut o = NONE;
    match pick(3) {
        0 => match r.pub_key(&n, &p) {
            Ok(v) => { check(keychain_pub_key(&k, n.0, q, &mut o, &mut f) && quiet(&f), "public key"); check(same(at(&o), &v), "the library's public key"); delete_data(&mut o); cover("key") }
            Err(e) => { check(!keychain_pub_key(&k, n.0, q, &mut o, &mut f) && untouched(&o), "refused"); reported(&mut f, &e) }
        },
        1 => {
            let d = vec("data", [1usize, 33][pick(2)]);
            match r.sign(&n, &d, &p) {
                Ok(v) => { check(keychain_sign(&k, n.0, d.as_ptr(), d.len(), q, &mut o, &mut f) && quiet(&f), "signature"); check(same(at(&o), &v), "the library's signature"); delete_data(&mut o); cover("signature") }
                Err(e) => { check(!keychain_sign(&k, n.0, d.as_ptr(), d.len(), q, &mut o, &mut f) && untouched(&o), "refused"); reported(&mut f, &e) }
            }
        }
        _ => {
            let d = vec("data", 5);
            let s = vec("signature", [64usize, 65, 3][pick(3)]);
            let mut v = pick(2) == 1;
            let was = v;
            match r.verify(&n, &d, &s, &p) {
                Ok(b) => { check(keychain_verify(&k, n.0, d.as_ptr(), d.len(), s.as_ptr(), s.len(), q, &mut v, &mut f) && quiet(&f), "verdict"); check(v == b, "the library's verdict"); cover("verdict") }
                Err(e) => { check(!keychain_verify(&k, n.0, d.as_ptr(), d.len(), s.as_ptr(), s.len(), q, &mut v, &mut f) && v == was, "refused"); reported(&mut f, &e) }
            }
        }
    }
    delete_keychain(&mut k);
} }
// data made through the C interface is what the library makes
fn c26_create() { unsafe {
    let mut m = cmanager();
    let r = rmanager();
    let (w, l, n) = (pick(3), pick(8), pick(3));
    if (n > 0 && l > 0) || (w != 1 && l > 0) { return }
    let pw = text("password", [3usize, 0, 20][n], 1);
    let cpw = C::new(&pw);
    let mut f = fault();
    let mut o = NONE;
    match w {
        0 => {
            let seed = vec("seed", 64);
            usable(&seed);
            if !keychain_manager_keychain_data_from_seed(&m, seed.as_ptr(), 64, cpw.p(), &mut o, &mut f) { fail("data of a seed"); return }
            let d = at(&o).to_vec();
            let want = r.get_keys_data(&r.keychain_data_from_seed(&seed, &pw).ok().unwrap(), &pw).ok().unwrap();
            match r.get_keys_data(&d, &pw) { Ok(l) => check(alike(&l, &want), "keys of the seed"), Err(_) => fail("the data opens") }
            cover("seed");
        }
        1 => {
            let p = words(12, LANG[l]);
            usable(&pbkdf2_512(p.as_bytes(), b"mnemonic", 2048, 64));
            if !keychain_manager_keychain_data_from_mnemonic(&m, C::new(&p).p(), cpw.p(), l as i32, &mut o, &mut f) { fail("data of a mnemonic"); return }
            match r.retrieve_mnemonic(&at(&o).to_vec(), &pw) { Ok((q, k)) => check(q == p && k == LANG[l], "the mnemonic and its language"), Err(_) => fail("the data opens") }
            cover("mnemonic");
        }
        _ => {
            let n = [0usize, 63, 65][pick(3)];
            let seed = vec("seed", n.max(1));
            let e = r.keychain_data_from_seed(&seed[..n], &pw).err().unwrap();
            check(!keychain_manager_keychain_data_from_seed(&m, seed.as_ptr(), n, cpw.p(), &mut o, &mut f) && untouched(&o), "refused");
            reported(&mut f, &e);
            let p = words(9, Language::English);
            let e = r.keychain_data_from_mnemonic(&p, &pw, Some(Language::English)).err().unwrap();
            check(!keychain_manager_keychain_data_from_mnemonic(&m, C::new(&p).p(), cpw.p(), 0, &mut o, &mut f) && untouched(&o), "refused");
            reported(&mut f, &e);
            return
        }
    }
    check(quiet(&f), "no error on success");
    delete_data(&mut o);
    delete_keychain_manager(&mut m);
} }
// operations on data through either interface
fn c26_data() { unsafe {
    let mut m = cmanager();
    let r = rmanager();
    let pw = text("password", 3, 1);
    let cpw = C::new(&pw);
    let mut f = fault();
    let one = KeychainManager::with_networks(&[Network::CARDANO]).ok().unwrap();
    let l = pick(8);
    let p = words(9, LANG[l]);
    let seed = vec("seed", 64);
    usable(&seed);
    let mnemonic = pick(2) == 1;
    let d = if mnemonic { one.keychain_data_from_mnemonic(&p, &pw, Some(LANG[l])) } else { if l > 0 { return } one.keychain_data_from_seed(&seed, &pw) }.ok().unwrap();
    match pick(4) {
        0 => {
            let want = r.get_keys_data(&d, &pw).ok().unwrap();
            let mut o = Elems { ptr: NO as *const Elem, count: 5 };
            check(keychain_manager_get_keys_data(&m, d.as_ptr(), d.len(), cpw.p(), &mut o, &mut f), "key data");
            let l: Vec<(Network, Vec<u8>)> = std::slice::from_raw_parts(o.ptr, o.count).iter().map(|e| (Network(e.network), at(&e.data).to_vec())).collect();
            check(alike(&l, &want), "the library's key data");
            delete_key_backup(&mut o);
            cover("keys");
        }
        1 => {
            let mut o = Info { mnemonic: NO as Str, language: 55 };
            match r.retrieve_mnemonic(&d, &pw) {
                Ok((q, k)) => {
                    check(keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), cpw.p(), &mut o, &mut f), "mnemonic");
                    check(same(chars(o.mnemonic), q.as_bytes()) && o.language == k as i32 && o.language == l as i32, "the library's mnemonic and language");
                    delete_mnemonic_info(&mut o);
                    cover("mnemonic");
                }
                Err(e) => {
                    check(!keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), cpw.p(), &mut o, &mut f) && o.language == 55 && o.mnemonic == NO as Str, "refused");
                    reported(&mut f, &e);
                    return
                }
            }
        }
        2 => {
            let new = text("new", 4, 9);
            let mut o = NONE;
            check(keychain_manager_change_password(&m, d.as_ptr(), d.len(), cpw.p(), C::new(&new).p(), &mut o, &mut f), "change of password");
            match r.get_keys_data(at(&o), &new) { Ok(l) => check(alike(&l, &r.get_keys_data(&d, &pw).ok().unwrap()), "the keys under the new password"), Err(_) => fail("the data opens") }
            delete_data(&mut o);
            cover("password");
        }
        _ => {
            let n = [Network::CARDANO, Network::BITCOIN, Network(3)][pick(3)];
            let mut o = NONE;
            if mnemonic && n == Network::BITCOIN { return }
            match r.add_network(&d, &pw, n) {
                Ok(e) => {
                    check(keychain_manager_add_network(&m, d.as_ptr(), d.len(), cpw.p(), n.0, &mut o, &mut f), "adding");
                    match r.get_keys_data(at(&o), &pw) { Ok(l) => check(alike(&l, &r.get_keys_data(&e, &pw).ok().unwrap()), "the keys after adding"), Err(_) => fail("the data opens") }
                    delete_data(&mut o);
                    cover("added");
                }
                Err(e) => { check(!keychain_manager_add_network(&m, d.as_ptr(), d.len(), cpw.p(), n.0, &mut o, &mut f) && untouched(&o), "refused"); reported(&mut f, &e); return }
            }
        }
    }
    check(quiet(&f), "no error on success");
    delete_keychain_manager(&mut m);
} }
// data, key data, passwords and texts of any size
fn c26_long() { unsafe {
    let mut f = fault();
    let mut o = NONE;
    match pick(5) {
        0 => {
            let mut m = cmanager();
            let plain: Vec<u8> = (0..[300usize, 2100][pick(2)]).map(|i| (i * 7 + (i >> 8)) as u8).collect();
            let d = sealed(&plain, "pw");
            check(keychain_manager_change_password(&m, d.as_ptr(), d.len(), C::new("pw").p(), C::new("new").p(), &mut o, &mut f), "change of password");
            check(match keychain::crypt::decrypt(at(&o), "new") { Ok(p) => p == plain, Err(_) => false }, "the content under the new password");
            delete_data(&mut o);
            delete_keychain_manager(&mut m);
            cover("large data");
        }
        1 => {
            let (mut k, r, _) = both("pw");
            let w = pick(3);
            let (n, p) = (network(w), Any(cp(w)));
            let q = P5 { p: p.0 };
            let d: Vec<u8> = (0..[32usize, 300, 70000][pick(3)]).map(|i| (i * 5 + (i >> 8)) as u8).collect();
            match r.sign(&n, &d, &p) {
                Ok(v) => { check(keychain_sign(&k, n.0, d.as_ptr(), d.len(), q, &mut o, &mut f), "signature"); check(same(at(&o), &v), "the library's signature") }
                Err(e) => { check(!keychain_sign(&k, n.0, d.as_ptr(), d.len(), q, &mut o, &mut f), "refused"); reported(&mut f, &e); cover("long data"); return }
            }
            let s: Vec<u8> = at(&o).iter().cloned().chain((0..[0usize, 1, 64, 256, 65536][pick(5)]).map(|_| 0)).collect();
            let mut v = pick(2) == 1;
            match r.verify(&n, &d, &s, &p) {
                Ok(b) => { check(keychain_verify(&k, n.0, d.as_ptr(), d.len(), s.as_ptr(), s.len(), q, &mut v, &mut f), "verdict"); check(v == b, "the library's verdict"); cover("verdict") }
                Err(e) => { let was = v; check(!keychain_verify(&k, n.0, d.as_ptr(), d.len(), s.as_ptr(), s.len(), q, &mut v, &mut f) && v == was, "refused"); reported(&mut f, &e); cover("long signature"); return }
            }
            delete_data(&mut o);
            delete_keychain(&mut k);
        }
        2 => {
            let mut m = cmanager();
            let n = [1usize, 9, 40][pick(3)];
            let keys: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (0x0003_0000 + 255 * i as u32, (0..if n == 1 { 1500 } else if i == 4 { 300 } else { i % 3 }).map(|j| (j * 11 + i) as u8).collect())).collect();
            let d = sealed(&outer(2, &inner(Some(&[7; 64]), None, None, &keys)), "pw");
            let mut e = Elems { ptr: NO as *const Elem, count: 5 };
            check(keychain_manager_get_keys_data(&m, d.as_ptr(), d.len(), C::new("pw").p(), &mut e, &mut f), "key data");
            let l: Vec<(Network, Vec<u8>)> = std::slice::from_raw_parts(e.ptr, e.count).iter().map(|e| (Network(e.network), at(&e.data).to_vec())).collect();
            check(alike(&l, &keys.iter().map(|k| (Network(k.0), k.1.clone())).collect::<Vec<_>>()), "key data as stored");
            delete_key_backup(&mut e);
            delete_keychain_manager(&mut m);
            cover("large key data");
        }
        3 => {
            let mut m = cmanager();
            let long = |t| "correct horse ".repeat([10usize, 80, 400][pick(3)]) + &text(t, 2, 9);
            let (p, q) = (long("password"), long("other"));
            assume(p != q);
            let (cp, cq) = (C::new(&p), C::new(&q));
            let d = sealed(b"content", "pw");
            check(keychain_manager_change_password(&m, d.as_ptr(), d.len(), C::new("pw").p(), cp.p(), &mut o, &mut f), "change of password");
            check(match keychain::crypt::decrypt(at(&o), &p) { Ok(c) => c == b"content", Err(_) => false }, "the content under the long password");
            let mut x = NONE;
            check(!keychain_manager_change_password(&m, o.ptr, o.len, cq.p(), cp.p(), &mut x, &mut f) && f.kind == 0 && untouched(&x), "another long password is refused");
            delete_error(&mut f);
            check(keychain_manager_change_password(&m, o.ptr, o.len, cp.p(), cq.p(), &mut x, &mut f), "change of password");
            check(match keychain::crypt::decrypt(at(&x), &q) { Ok(c) => c == b"content", Err(_) => false }, "the content under the long password");
            delete_data(&mut o);
            delete_data(&mut x);
            delete_keychain_manager(&mut m);
            cover("long passwords");
        }
        _ => {
            let t = "m/44'/60'/".to_string() + &"0".repeat([1usize, 300, 66000][pick(3)]) + ["'/0/3", "'/0/3/", "'/0/4294967299"][pick(3)];
            let c = C::new(&t);
            let mut p = P5 { p: [9; 5] };
            let ok = keypath_from_string(c.p(), &mut p, &mut f);
            path_is(ok, &p, &mut f, GenericKeyPath::from(&t).map(|p| Box::new(p) as Box<KeyPath>).map_err(|e| e.into()));
            return
        }
    }
    check(f.kind == 99 || f.message.is_null(), "no error on success");
} }
// a generated mnemonic, in each language
fn c26_generate() { unsafe {
    let mut m = cmanager();
    let l = pick(8);
    let ent: Vec<u8> = (0..16).map(|i| (i * 53 + l * 7) as u8).collect();
    assume(sha256(&ent)[0] == [0x31, 0xff][pick(2)]);
    os::feed(&ent);
    os::feed(&ent);
    let mut s: Str = NO as Str;
    let mut f = fault();
    check(keychain_manager_generate_mnemonic(&m, l as i32, &mut s, &mut f) && quiet(&f), "a mnemonic");
    check(same(chars(s), rmanager().generate_mnemonic(Some(LANG[l])).ok().unwrap().as_bytes()), "the library's mnemonic of the same random bytes");
    delete_string(s);
    delete_keychain_manager(&mut m);
    cover("generated");
} }
// errors of data that cannot be opened, through each function that opens data
fn c26_errors() { unsafe {
    let mut m = cmanager();
    let r = rmanager();
    let d = match pick(4) {
        0 => data("pw"),
        1 => sealed(b"{}", "other"),
        2 => vec("short", [1usize, 59][pick(2)]),
        _ => sealed(&outer(2, &inner(None, None, None, &[(coin(pick(3)), vec![1, 2, 3])])), "other"),
    };
    let pw = C::new("other");
    let mut f = fault();
    let mut o = NONE;
    let mut h = Handle { h: NO };
    match pick(3) {
        0 => if let Err(e) = r.keychain_from_data(&d, "other") { check(!keychain_manager_keychain_from_data(&m, d.as_ptr(), d.len(), pw.p(), &mut h, &mut f) && h.h == NO, "refused"); reported(&mut f, &e) },
        1 => if let Err(e) = r.add_network(&d, "other", Network::CARDANO) { check(!keychain_manager_add_network(&m, d.as_ptr(), d.len(), pw.p(), Network::CARDANO.0, &mut o, &mut f) && untouched(&o), "refused"); reported(&mut f, &e) },
        _ => if let Err(e) = r.change_password(&d, "other", "x") { check(!keychain_manager_change_password(&m, d.as_ptr(), d.len(), pw.p(), C::new("x").p(), &mut o, &mut f) && untouched(&o), "refused"); reported(&mut f, &e) },
    }
    delete_keychain_manager(&mut m);
} }

// everything handed out is given back by its delete function, exactly once however often that is called
fn c25_handles() { unsafe {
    data("pw");
    let before = live();
    let mut m = cmanager();
    {
        let d = data("pw");
        let pw = C::new("pw");
        let mut k = ckeychain(&m, &d, &pw);
        if pick(2) == 0 { delete_keychain_manager(&mut m) }
        let mut n = Nets { ptr: NO as *const u32, count: 9 };
        let mut f = fault();
        check(keychain_networks(&k, &mut n, &mut f) && quiet(&f), "networks");
        let mut l = std::slice::from_raw_parts(n.ptr, n.count).to_vec();
        l.sort();
        check(l == vec![HARD + 1815], "the keychain's networks");
        let times = 1 + pick(2);
        for _ in 0..times { delete_networks(&mut n) }
        check(n.ptr.is_null(), "the list is gone");
        let mut o = NONE;
        check(keychain_pub_key(&k, HARD + 1815, P5 { p: cp(2) }, &mut o, &mut f), "public key");
        for _ in 0..times { delete_data(&mut o) }
        check(o.ptr.is_null(), "the bytes are gone");
        for _ in 0..times { delete_keychain(&mut k); delete_keychain_manager(&mut m) }
        check(k.h.is_null() && m.h.is_null(), "the handles are gone");
    }
    check(live() == before, "nothing is left over");
    cover("handles");
} }
fn c25_backup() { unsafe {
    data("pw");
    let n = pick(4);
    let keys: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (i as u32 + 5, vec("key", [3usize, 0, 96][i]))).collect();
    let before = live();
    {
        let d = sealed(&outer(2, &inner(None, Some("a b"), Some("French"), &keys)), "pw");
        let pw = C::new("pw");
        let mut m = cmanager();
        let mut f = fault();
        let mut o = Elems { ptr: NO as *const Elem, count: 5 };
        check(keychain_manager_get_keys_data(&m, d.as_ptr(), d.len(), pw.p(), &mut o, &mut f), "key data");
        check(o.count == n, "number of keys");
        for e in std::slice::from_raw_parts(o.ptr, o.count) { check(same(at(&e.data), &keys[e.network as usize - 5].1), "key data stored") }
        let mut i = Info { mnemonic: NO as Str, language: 0 };
        check(keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), pw.p(), &mut i, &mut f) && i.language == 1, "mnemonic");
        let times = 1 + pick(2);
        for _ in 0..times { delete_key_backup(&mut o); delete_mnemonic_info(&mut i); delete_keychain_manager(&mut m) }
        check(o.ptr.is_null() && i.mnemonic.is_null() && m.h.is_null(), "all is gone");
    }
    check(live() == before, "nothing is left over");
    cover("backup");
} }
// what is freed leaves everything else that was handed out as it is, in whatever order
fn c25_many() { unsafe {
    data("pw");
    let many = [3usize, 12][pick(2)];
    let keys: Vec<(u32, Vec<u8>)> = (0..many).map(|i| (i as u32 + 5, (0..if i == 2 { 90 } else { i % 3 }).map(|j| (i + 3 * j) as u8).collect())).collect();
    let order = pick(4);
    let before = live();
    {
        let d = data("pw");
        let b = sealed(&outer(2, &inner(None, Some("a b"), Some("French"), &keys)), "pw");
        let pw = C::new("pw");
        let mut f = [fault(), fault()];
        let mut m = [cmanager(), cmanager()];
        let mut k = [ckeychain(&m[0], &d, &pw), ckeychain(&m[0], &d, &pw)];
        let mut e = [Elems { ptr: NO as *const Elem, count: 5 }; 2];
        let mut i = [Info { mnemonic: NO as Str, language: 0 }; 2];
        let mut n = [Nets { ptr: NO as *const u32, count: 9 }; 2];
        let mut o = [NONE; 2];
        let mut s = NO as Str;
        os::feed(&[9; 16]);
        check(keychain_manager_generate_mnemonic(&m[0], 0, &mut s, &mut f[0]), "mnemonic");
        let text = chars(s).to_vec();
        for j in 0..2 {
            check(keychain_manager_get_keys_data(&m[j], b.as_ptr(), b.len(), pw.p(), &mut e[j], &mut f[0]), "key data");
            check(keychain_manager_retrieve_mnemonic(&m[j], b.as_ptr(), b.len(), pw.p(), &mut i[j], &mut f[0]), "mnemonic");
            check(keychain_networks(&k[j], &mut n[j], &mut f[0]), "networks");
            check(keychain_pub_key(&k[j], HARD + 1815, P5 { p: cp(2) }, &mut o[j], &mut f[0]) && quiet(&f[0]), "public key");
        }
        for j in 0..2 { check(!keychain_pub_key(&k[j], HARD + j as u32, P5 { p: cp(2) }, &mut NONE.clone(), &mut f[j]), "refused") }
        let key = at(&o[0]).to_vec();
        let said = [chars(f[0].message).to_vec(), chars(f[1].message).to_vec()];
        let x = order & 1;
        for &(y, part) in &(if order < 2 { [(x, 3), (1 - x, 3)] } else { [(x, 1), (1 - x, 2)] }) {
            let z = 1 - y;
            if part & 1 != 0 { delete_keychain_manager(&mut m[y]); if y == 0 { delete_string(s) } delete_networks(&mut n[y]); delete_key_backup(&mut e[y]) }
            if part & 2 != 0 { delete_error(&mut f[y]); delete_data(&mut o[y]); delete_mnemonic_info(&mut i[y]); delete_keychain(&mut k[y]) }
            if y == x {
                let mut has = false;
                check(keychain_manager_has_network(&m[z], HARD + 60, &mut has, &mut fault()) && has, "the other manager works");
                let mut v = NONE;
                check(keychain_pub_key(&k[z], HARD + 1815, P5 { p: cp(2) }, &mut v, &mut fault()) && same(at(&v), &key), "the other keychain works");
                delete_data(&mut v);
                check((z == 1 || same(chars(s), &text)) && same(at(&o[z]), &key) && same(chars(f[z].message), &said[z]) && same(chars(i[z].mnemonic), b"a b"), "the other texts and bytes are there");
                check(n[z].count == 1 && *n[z].ptr == HARD + 1815 && e[z].count == many, "the other lists are there");
                for l in std::slice::from_raw_parts(e[z].ptr, e[z].count) { check(same(at(&l.data), &keys[l.network as usize - 5].1), "the other key data is there") }
            }
        }
        // what is left after one of each half
        if order >= 2 { delete_keychain_manager(&mut m[1 - x]); if x == 1 { delete_string(s) } delete_networks(&mut n[1 - x]); delete_key_backup(&mut e[1 - x]); delete_error(&mut f[x]); delete_data(&mut o[x]); delete_mnemonic_info(&mut i[x]); delete_keychain(&mut k[x]) }
    }
    check(live() == before, "nothing is left over");
    cover("many");
} }
fn c25_errors() { unsafe {
    let d = vec("data", 59);
    let before = live();
    {
        let mut m = cmanager();
        let mut f = fault();
        let mut o = NONE;
        check(!keychain_manager_change_password(&m, d.as_ptr(), d.len(), C::new("a").p(), C::new("b").p(), &mut o, &mut f) && untouched(&o), "refused");
        let times = 1 + pick(2);
        for _ in 0..times { delete_error(&mut f) }
        check(f.message.is_null(), "the message is gone");
        delete_keychain_manager(&mut m);
    }
    check(live() == before, "nothing is left over");
    cover("errors");
} }
// data of every length is handed out and given back
fn c25_data() { unsafe {
    let n = pick(4);
    let plain = vec("plain", [0usize, 1, 40, 65][n]);
    data("pw");
    let before = live();
    {
        let d = sealed(&plain, "pw");
        let mut m = cmanager();
        let mut f = fault();
        let mut o = NONE;
        check(keychain_manager_change_password(&m, d.as_ptr(), d.len(), C::new("pw").p(), C::new("new").p(), &mut o, &mut f) && quiet(&f), "change of password");
        check(match keychain::crypt::decrypt(at(&o), "new") { Ok(p) => same(&p, &plain), Err(_) => false }, "the content under the new password");
        delete_data(&mut o);
        delete_data(&mut o);
        delete_keychain_manager(&mut m);
    }
    check(live() == before, "nothing is left over");
    cover("data");
} }

// a handle that is gone, text that is not UTF-8: an error comes back, nothing else happens
fn c27_gone() { unsafe {
    let d = data("pw");
    let pw = C::new("pw");
    let mut m = cmanager();
    let mut k = ckeychain(&m, &d, &pw);
    delete_keychain(&mut k);
    delete_keychain_manager(&mut m);
    let mut f = fault();
    let mut o = NONE;
    let mut b = true;
    let mut s: Str = NO as Str;
    let mut n = Nets { ptr: NO as *const u32, count: 9 };
    let mut el = Elems { ptr: NO as *const Elem, count: 5 };
    let mut i = Info { mnemonic: NO as Str, language: 55 };
    let mut h = Handle { h: NO };
    let q = P5 { p: cp(0) };
    let ok = match pick(13) {
        0 => keychain_manager_has_network(&m, HARD, &mut b, &mut f),
        1 => keychain_manager_generate_mnemonic(&m, 0, &mut s, &mut f),
        2 => keychain_manager_keychain_data_from_seed(&m, [7u8; 64].as_ptr(), 64, pw.p(), &mut o, &mut f),
        3 => keychain_manager_keychain_data_from_mnemonic(&m, pw.p(), pw.p(), 0, &mut o, &mut f),
        4 => keychain_manager_keychain_from_data(&m, d.as_ptr(), d.len(), pw.p(), &mut h, &mut f),
        5 => keychain_manager_add_network(&m, d.as_ptr(), d.len(), pw.p(), HARD, &mut o, &mut f),
        6 => keychain_manager_change_password(&m, d.as_ptr(), d.len(), pw.p(), pw.p(), &mut o, &mut f),
        7 => keychain_manager_get_keys_data(&m, d.as_ptr(), d.len(), pw.p(), &mut el, &mut f),
        8 => keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), pw.p(), &mut i, &mut f),
        9 => keychain_networks(&k, &mut n, &mut f),
        10 => keychain_pub_key(&k, HARD, q, &mut o, &mut f),
        11 => keychain_sign(&k, HARD, d.as_ptr(), d.len(), q, &mut o, &mut f),
        _ => keychain_verify(&k, HARD, d.as_ptr(), d.len(), d.as_ptr(), 64, q, &mut b, &mut f),
    };
    check(!ok, "an error");
    check(untouched(&o) && b && s == NO as Str && n.count == 9 && el.count == 5 && i.language == 55 && h.h == NO, "nothing is written on failure");
    panicked(&mut f);
} }
fn c27_text() { unsafe {
    let d = data("secret");
    let mut m = cmanager();
    let v = vec("text", if LONG { 4 } else { 3 });
    let bad = C::raw(&v);
    let utf8 = std::str::from_utf8(&v).is_ok();
    let pw = C::new("secret");
    let mut f = fault();
    let mut o = NONE;
    let mut h = Handle { h: NO };
    let mut p = P5 { p: [9; 5] };
    let ok = match pick(5) {
        0 => keychain_manager_keychain_from_data(&m, d.as_ptr(), d.len(), bad.p(), &mut h, &mut f),
        1 => keychain_manager_change_password(&m, d.as_ptr(), d.len(), bad.p(), pw.p(), &mut o, &mut f),
        2 => keychain_manager_keychain_data_from_mnemonic(&m, bad.p(), pw.p(), 0, &mut o, &mut f),
        3 => keypath_from_string(bad.p(), &mut p, &mut f),
        _ => {
            let ok = keychain_manager_change_password(&m, d.as_ptr(), d.len(), pw.p(), bad.p(), &mut o, &mut f);
            check(ok == utf8, "a new password is any text in UTF-8");
            if ok { delete_data(&mut o); cover("changed"); return }
            ok
        }
    };
    check(!ok, "the text is refused");
    check(untouched(&o) && h.h == NO && p.p[0] == 9, "nothing is written on failure");
    check((f.kind == -1) == !utf8, "text that is not UTF-8 is an internal failure, other text an error");
    chars(f.message);
    delete_error(&mut f);
    delete_keychain_manager(&mut m);
    cover("text");
} }
// damaged content of every kind, NUL characters in its texts included
fn c27_content() { unsafe {
    let i: Vec<u8> = match pick(4) {
        0 => b"{\"seed\":null,\"mnemonic\":null,\"dictionary\":\"\\u0000x\",\"keys\":[]}".to_vec(),
        1 => b"{\"seed\":null,\"mnemonic\":\"a\\u0000b\",\"dictionary\":\"English\",\"keys\":[]}".to_vec(),
        2 => b"{\"seed\":\"\\u0000\",\"mnemonic\":null,\"dictionary\":null,\"keys\":[]}".to_vec(),
        _ => b"{\"seed\":null,\"mnemonic\":\"a\\u0000b c d e f g h i\",\"dictionary\":\"English\",\"keys\":[]}".to_vec(),
    };
    let d = sealed(&outer(2, &i), "pw");
    let pw = C::new("pw");
    let mut m = cmanager();
    let mut f = fault();
    let mut h = Handle { h: NO };
    let mut o = NONE;
    let mut n = Info { mnemonic: NO as Str, language: 55 };
    match pick(3) {
        0 => if keychain_manager_keychain_from_data(&m, d.as_ptr(), d.len(), pw.p(), &mut h, &mut f) { delete_keychain(&mut h); delete_keychain_manager(&mut m); cover("opened"); return },
        1 => check(!keychain_manager_add_network(&m, d.as_ptr(), d.len(), pw.p(), HARD, &mut o, &mut f), "an error"),
        _ => check(!keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), pw.p(), &mut n, &mut f), "an error"),
    }
    check(f.kind != 99 && h.h == NO && untouched(&o) && n.language == 55, "an error and nothing else");
    chars(f.message);
    delete_error(&mut f);
    delete_keychain_manager(&mut m);
    cover("content");
} }
// any two characters in the content or in what it holds
fn c27_any() { unsafe {
    let v = vec("content", 2);
    let put = |t: &[u8], at: usize| { let mut t = t.to_vec(); t[at..at + 2].copy_from_slice(&v); t };
    let plain = match pick(4) {
        0 => v.clone(),
        1 => put(&outer(2, &inner(None, None, None, &[])), 9 + pick(3)),
        2 => outer(2, &put(b"{\"seed\":null,\"mnemonic\":\"a b\",\"dictionary\":\"__\",\"keys\":[]}", 44)),
        _ => outer(2, &put(b"{\"seed\":null,\"mnemonic\":\"a b\",\"dictionary\":\"English\",\"keys\":[[11,\"\"]]}", 62)),
    };
    let d = sealed(&plain, "pw");
    let pw = C::new("pw");
    let mut m = cmanager();
    let mut f = fault();
    let mut n = Info { mnemonic: NO as Str, language: 55 };
    if keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), pw.p(), &mut n, &mut f) {
        check(quiet(&f), "no error on success");
        chars(n.mnemonic);
        delete_mnemonic_info(&mut n);
        cover("mnemonic");
    } else {
        check(f.kind >= 0 && f.kind <= 11 && n.language == 55, "an error and nothing else");
        chars(f.message);
        delete_error(&mut f);
        cover("error");
    }
    delete_keychain_manager(&mut m);
} }
}
/// The random source fails while the C interface works.
pub fn random_fails() { unsafe {
    let d = data("pw");
    let (pw, new) = (C::new("pw"), C::new("new"));
    let mut m = cmanager();
    let p = C::new(&words(12, Language::English));
    let k = pick(5);
    if k == 1 || k == 4 { usable(&[7u8; 64]) }
    if k == 2 { usable(&pbkdf2_512(words(12, Language::English).as_bytes(), b"mnemonic", 2048, 64)) }
    let n = pick(3);
    if k == 0 { os::feed(&[9u8; 16]) }
    let mut f = fault();
    let mut o = NONE;
    let mut s: Str = NO as Str;
    let before = live();
    if k == 0 { os::feed(&[9u8; 16]) }
    let forever = pick(2) == 1;
    os::fail_after(n as u64, forever);
    let ok = match k {
        0 => keychain_manager_generate_mnemonic(&m, 0, &mut s, &mut f),
        1 => keychain_manager_keychain_data_from_seed(&m, [7u8; 64].as_ptr(), 64, new.p(), &mut o, &mut f),
        2 => keychain_manager_keychain_data_from_mnemonic(&m, p.p(), new.p(), 0, &mut o, &mut f),
        3 => keychain_manager_change_password(&m, d.as_ptr(), d.len(), pw.p(), new.p(), &mut o, &mut f),
        _ => keychain_manager_add_network(&m, d.as_ptr(), d.len(), pw.p(), HARD, &mut o, &mut f),
    };
    let failed = os::repair();
    check(ok || failed, "it works while the random source does");
    check(!ok || !(failed && forever), "it fails when the random source does");
    if ok {
        check(quiet(&f), "no error on success");
        if k > 0 { check(at(&o).len() > 60 && drawn(0, &at(&o)[..32], &at(&o)[32..44]), "salt and nonce are of bytes the source delivered") }
        if k == 0 { delete_string(s) } else { delete_data(&mut o) }
        check(live() == before, "nothing is left over");
        cover("made");
        return
    }
    check(untouched(&o) && s == NO as Str, "nothing is written on failure");
    // (the engine leaves the text empty: it does not format the messages of panics)
    check(f.kind == -1, "code of an internal failure");
    chars(f.message);
    delete_error(&mut f);
    cover("failed");
    check(live() == before, "nothing is left over");
    let mut h = ckeychain(&m, &d, &pw);
    delete_keychain(&mut h);
    delete_keychain_manager(&mut m);
} }
/// Calls on the same manager and keychain.
pub fn shared() { unsafe {
    let d = data("pw");
    let op = pick(14);
    if op == 2 || op == 5 { usable(&[7u8; 64]) }
    if op == 3 { usable(&pbkdf2_512(words(12, Language::English).as_bytes(), b"mnemonic", 2048, 64)) }
    let pw = C::new(["pw", "other"][pick(2)]);
    let m = Box::new(cmanager());
    let k = Box::new(ckeychain(&m, &d, &C::new("pw")));
    let p = C::new(&words(12, Language::English));
    let q = P5 { p: cp(2) };
    let sig = vec("signature", 64);
    let net = [HARD + 1815, HARD][pick(2)];
    if op == 1 { os::feed(&[9u8; 16]) }
    let mut f = fault();
    let mut o = NONE;
    let mut b = true;
    let mut s: Str = NO as Str;
    let mut n = Nets { ptr: NO as *const u32, count: 9 };
    let mut el = Elems { ptr: NO as *const Elem, count: 5 };
    let mut i = Info { mnemonic: NO as Str, language: 55 };
    let mut h = Handle { h: NO };
    let mut r = P5 { p: [9; 5] };
    freeze(true);
    let ok = match op {
        0 => keychain_manager_has_network(&m, net, &mut b, &mut f),
        1 => { let ok = keychain_manager_generate_mnemonic(&m, 0, &mut s, &mut f); if ok { delete_string(s) } ok }
        2 => keychain_manager_keychain_data_from_seed(&m, [7u8; 64].as_ptr(), 64, pw.p(), &mut o, &mut f),
        3 => keychain_manager_keychain_data_from_mnemonic(&m, p.p(), pw.p(), 0, &mut o, &mut f),
        4 => { let ok = keychain_manager_keychain_from_data(&m, d.as_ptr(), d.len(), pw.p(), &mut h, &mut f); if ok { delete_keychain(&mut h) } ok }
        5 => keychain_manager_add_network(&m, d.as_ptr(), d.len(), pw.p(), net, &mut o, &mut f),
        6 => keychain_manager_change_password(&m, d.as_ptr(), d.len(), pw.p(), pw.p(), &mut o, &mut f),
        7 => { let ok = keychain_manager_get_keys_data(&m, d.as_ptr(), d.len(), pw.p(), &mut el, &mut f); if ok { delete_key_backup(&mut el) } ok }
        8 => { let ok = keychain_manager_retrieve_mnemonic(&m, d.as_ptr(), d.len(), pw.p(), &mut i, &mut f); if ok { delete_mnemonic_info(&mut i) } ok }
        9 => { let ok = keychain_networks(&k, &mut n, &mut f); if ok { delete_networks(&mut n) } ok }
        10 => keychain_pub_key(&k, net, q, &mut o, &mut f),
        11 => keychain_sign(&k, net, d.as_ptr(), d.len(), q, &mut o, &mut f),
        12 => keychain_verify(&k, net, d.as_ptr(), d.len(), sig.as_ptr(), 64, q, &mut b, &mut f),
        _ => keypath_from_string([pw.p(), C::new("m/44'/60'/0'/0/3").p()][0], &mut r, &mut f),
    };
    if ok && !untouched(&o) { delete_data(&mut o) }
    if !ok { delete_error(&mut f) }
    freeze(false);
    if ok { cover("done") } else { cover("refused") }
} }
const LANG: [Language; 8] = [Language::English, Language::French, Language::Japanese, Language::Korean, Language::ChineseSimplified, Language::ChineseTraditional, Language::Italian, Language::Spanish];
fn words(n: usize, l: Language) -> String {
    let v = (0..n as u16).map(|i| bip39::MnemonicIndex::new((i * 331 + 3) & 2047).ok().unwrap()).collect();
    bip39::Mnemonics::from_mnemonics(v).ok().unwrap().to_string(l.to_dict()).to_string()
}
fn alike(a: &[(Network, Vec<u8>)], b: &[(Network, Vec<u8>)]) -> bool {
    let mut r = a.len() == b.len();
    for (n, d) in b { r &= match a.iter().find(|x| x.0 == *n) { Some(x) => same(&x.1, d), None => false } }
    r
}
