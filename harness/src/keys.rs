use crate::util::*;
use bip39::Seed;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Key, KeyError, KeyFactory, KeyPath, Network};
use secp256k1_bip32::{KeyError as SecError, XPrv};

pub const HARD: u32 = 0x8000_0000;

/// A path with arbitrary components.
pub struct Any(pub [u32; 5]);
impl KeyPath for Any {
    fn purpose(&self) -> u32 { self.0[0] }
    fn coin(&self) -> u32 { self.0[1] }
    fn account(&self) -> u32 { self.0[2] }
    fn change(&self) -> u32 { self.0[3] }
    fn address(&self) -> u32 { self.0[4] }
}

// ---- BIP32 on secp256k1, stated independently of the code under test ----
#[derive(Clone)]
pub struct Node { depth: u8, fp: [u8; 4], index: u32, chain: [u8; 32], key: [u8; 32] }
fn scalar(b: &[u8]) -> Option<secp256k1::SecretKey> { secp256k1::SecretKey::parse_slice(b).ok() }
pub fn a32(b: &[u8]) -> [u8; 32] { let mut r = [0u8; 32]; r.copy_from_slice(b); r }
pub fn point(k: &[u8; 32]) -> secp256k1::PublicKey { secp256k1::PublicKey::from_secret_key(&scalar(k).unwrap()) }
pub fn master(seed: &[u8]) -> Option<Node> {
    let i = hmac512(b"Bitcoin seed", seed);
    scalar(&i[..32]).map(|_| Node { depth: 0, fp: [0; 4], index: 0, chain: a32(&i[32..]), key: a32(&i[..32]) })
}
pub enum Step { Child(Node), Tweak, Zero }
pub fn step(n: &Node, index: u32) -> Step {
    let mut m = vec![];
    if index >= HARD { m.push(0); m.extend_from_slice(&n.key) } else { m.extend_from_slice(&point(&n.key).serialize_compressed()) }
    m.extend_from_slice(&index.to_be_bytes());
    let i = hmac512(&n.chain, &m);
    let t = match scalar(&i[..32]) { Some(t) => t, None => return Step::Tweak };
    let mut k = scalar(&n.key).unwrap();
    if k.tweak_add_assign(&t).is_err() { return Step::Zero }
    let h = ripemd160(&sha256(&point(&n.key).serialize_compressed()));
    let mut fp = [0u8; 4];
    fp.copy_from_slice(&h[..4]);
    Step::Child(Node { depth: n.depth.wrapping_add(1), fp, index, chain: a32(&i[32..]), key: k.serialize() })
}
pub fn encode(n: &Node) -> Vec<u8> {
    let mut d = vec![n.depth];
    d.extend_from_slice(&n.fp);
    d.extend_from_slice(&n.index.to_be_bytes());
    d.extend_from_slice(&n.chain);
    d.extend_from_slice(&n.key);
    let c = sha256(&sha256(&d));
    d.extend_from_slice(&c[..4]);
    d
}
fn decode(d: &[u8]) -> Node {
    let mut n = Node { depth: d[0], fp: [0; 4], index: u32::from_be_bytes([d[5], d[6], d[7], d[8]]), chain: a32(&d[9..41]), key: a32(&d[41..73]) };
    n.fp.copy_from_slice(&d[1..5]);
    n
}
/// Any valid extended private key.
pub fn node() -> Node {
    let mut n = Node { depth: byte("depth"), fp: [0; 4], index: u32v("index"), chain: [0; 32], key: [0; 32] };
    bytes("fp", &mut n.fp);
    bytes("chain", &mut n.chain);
    bytes("key", &mut n.key);
    assume(scalar(&n.key).is_some());
    n
}
pub fn walk(mut n: Node, path: &[u32]) -> Node {
    for &i in path {
        n = match step(&n, i) { Step::Child(c) => c, _ => { assume(false); unreachable!() } };
    }
    n
}
fn keypair(n: &Node) -> (secp256k1::SecretKey, secp256k1::PublicKey) { (scalar(&n.key).unwrap(), point(&n.key)) }
fn digest(data: &[u8]) -> secp256k1::Message { secp256k1::Message::parse(&keccak256(data)) }
/// the scheme's signature: r, s and recovery id
pub fn signature(n: &Node, data: &[u8]) -> Option<Vec<u8>> {
    let (s, id) = secp256k1::sign(&digest(data), &keypair(n).0).ok()?;
    let mut v = s.serialize().to_vec();
    v.push(id.serialize());
    Some(v)
}
pub fn verdict(n: &Node, data: &[u8], sig: &[u8]) -> bool {
    secp256k1::verify(&digest(data), &secp256k1::Signature::parse_slice(sig).unwrap(), &keypair(n).1)
}
fn secp(which: usize) -> Box<dyn KeyFactory> {
    if which == 0 { Box::new(ethereum::KeyFactory::new()) } else { Box::new(bitcoin::KeyFactory::new()) }
}
pub fn coin(which: usize) -> u32 { [HARD + 60, HARD, HARD + 1815][which] }
pub fn factory(which: usize) -> Box<dyn KeyFactory> { if which == 2 { Box::new(cardano::KeyFactory::new()) } else { secp(which) } }
pub fn network(which: usize) -> Network { [Network::ETHEREUM, Network::BITCOIN, Network::CARDANO][which] }
/// A path the policy of the network admits.
pub fn good(which: usize) -> [u32; 5] {
    let p = [if which == 1 { u32v("purpose") } else { HARD + 44 }, coin(which), u32v("account"), u32v("change"), u32v("address")];
    assume((p[2] >= HARD) & (p[3] < 2) & (p[4] < HARD));
    if which == 1 { assume((p[0] == HARD + 44) | (p[0] == HARD + 49) | (p[0] == HARD + 84)) }
    p
}

// ---- Cardano (ed25519-bip32, derivation scheme V2) ----
pub fn icarus(seed: &[u8]) -> [u8; 96] {
    let mut o = [0u8; 96];
    o[..64].copy_from_slice(&sha512(&seed[..32]));
    o[0] &= 0xf8;
    o[31] = o[31] & 0x1f | 0x40;
    o[64..].copy_from_slice(&seed[32..64]);
    o
}
pub fn ed(data: &[u8], path: &[u32]) -> ed25519_bip32::XPrv {
    let mut a = [0u8; 96];
    a.copy_from_slice(data);
    let mut k = match ed25519_bip32::XPrv::from_bytes_verified(a) { Ok(k) => k, Err(_) => { fail("reference key"); unreachable!() } };
    for &i in path { k = k.derive(ed25519_bip32::DerivationScheme::V2, i) }
    k
}
pub fn ed_valid(d: &[u8]) -> bool { (d[0] & 7 == 0) & (d[31] & 0xe0 == 0x40) }

entries! {
fn c13_master() {
    let seed = vec("seed", 64);
    let s = Seed::from_slice(&seed).unwrap();
    match (XPrv::from_seed(&s), master(&seed)) {
        (Ok(k), Some(m)) => { check(same(&k.serialize(), &encode(&m)), "master key of the seed"); cover("master") }
        (Err(_), Some(_)) => fail("a seed with a master key is accepted"),
        (Err(_), None) => cover("invalid"),
        (Ok(_), None) => fail("an invalid master key is refused"),
    }
}
fn c13_child() {
    let n = node();
    let i = u32v("i");
    let k = XPrv::from_data(&encode(&n)).unwrap();
    if n.depth == 255 {
        check(match k.derive(i) { Err(SecError::DeriveDepthTooBig) => true, _ => false }, "depth does not wrap");
        cover("deep");
        return
    }
    let s = step(&n, i);
    if let Step::Zero = s { assume(false) }
    let r = k.derive(i);
    match s {
        Step::Child(c) => match r {
            Ok(k) => { check(same(&k.serialize(), &encode(&c)), "child key"); if i >= HARD { cover("hardened") } else { cover("soft") } }
            Err(_) => fail("a valid child is derived"),
        },
        Step::Tweak => { check(r.is_err(), "a child with an invalid tweak is refused"); cover("bad tweak") }
        Step::Zero => {}
    }
}
// the sum of tweak and parent key is zero: the next index of the same kind, or an error
fn c13_unusable() {
    let n = node();
    assume(n.depth == 7);
    let i = [0u32, HARD - 1, HARD, !0, 5, HARD - 2, !0 - 1, HARD + 44, 1, 3, HARD + 1, 255, 256][pick(13)];
    let k = XPrv::from_data(&encode(&n)).unwrap();
    match step(&n, i) { Step::Zero => {}, _ => { assume(false); return } }
    let next = i.wrapping_add(1);
    let s = step(&n, next);
    if let Step::Zero = s { assume(false); return }
    match k.derive(i) {
        Ok(k) => {
            if (next >= HARD) != (i >= HARD) { fail("an unusable index never leads to a key of the other kind") }
            match s {
                Step::Child(c) => check(same(&k.serialize(), &encode(&c)), "the next index is used"),
                _ => fail("the next index is invalid"),
            }
            cover("next")
        }
        Err(_) => cover("unusable"),
    }
}
// nothing but the serialised state matters
fn c13_chain() {
    let n = node();
    assume(n.depth < 253);
    let (i, j) = (u32v("i"), u32v("j"));
    let m = walk(n.clone(), &[i, j]);
    let k = XPrv::from_data(&encode(&n)).unwrap();
    match k.derive(i).and_then(|k| k.derive(j)) {
        Ok(k) => check(same(&k.serialize(), &encode(&m)), "grandchild"),
        Err(_) => fail("a valid grandchild is derived"),
    }
    match k.derive(i).and_then(|k| XPrv::from_data(&k.serialize())).and_then(|k| k.derive(j)) {
        Ok(k) => check(same(&k.serialize(), &encode(&m)), "grandchild by way of stored data"),
        Err(_) => fail("a stored child is read back"),
    }
    check(same(&k.serialize(), &encode(&n)), "deriving leaves the parent as it was");
    cover("chain");
}
fn c13_public() {
    let n = node();
    let k = XPrv::from_data(&encode(&n)).unwrap();
    let p = point(&n.key);
    check(same(&k.public().serialize(), &p.serialize()[..]), "uncompressed public key");
    check(same(&k.public().serialize_compressed(), &p.serialize_compressed()[..]), "compressed public key");
    check(same(&k.public().sha256(), &sha256(&p.serialize()[..])), "digest of the public key");
    check(same(&k.public().compressed_sha256(), &sha256(&p.serialize_compressed()[..])), "digest of the compressed public key");
    cover("public");
}
fn c14_any() {
    let n = pick(3 + if LONG { 160 } else { 90 });
    let n = if n < 3 { [333, 589, 65613][n] } else { n - 3 };
    let d = vec("data", n);
    match XPrv::from_data(&d) {
        Ok(k) => {
            check(n == 77, "only 77 bytes are accepted");
            check(same(&sha256(&sha256(&d[..73]))[..4], &d[73..]), "the checksum is verified");
            check(scalar(&d[41..73]).is_some(), "zero and values from the group order on are no keys");
            check(same(&k.serialize(), &d), "serialising gives the data back");
            cover("accepted");
        }
        Err(SecError::InvalidDataSize(a, b)) => { check(n != 77 && a == n && b == 77, "size error"); cover("size") }
        Err(SecError::InvalidSecretKey) => {
            check(n == 77, "size is checked first");
            if n == 77 {
                let good = same(&sha256(&sha256(&d[..73]))[..4], &d[73..]);
                if good { check(scalar(&d[41..73]).is_none(), "valid data is accepted"); cover("range") } else { cover("checksum") }
            }
        }
        Err(_) => fail("error of malformed key data"),
    }
}
// single-byte and multi-byte damage anywhere
fn c14_damage() {
    let n = node();
    let e = encode(&n);
    let x = vec("x", 77);
    let mut d = e.clone();
    let kind = pick(2);
    for i in 0..77 { if (i < 73) == (kind == 0) { d[i] ^= x[i] } }
    assume(!same(&d, &e));
    match XPrv::from_data(&d) {
        Ok(_) => {
            // only a collision of the 32-bit checksum
            check(kind == 0 && same(&sha256(&sha256(&d[..73]))[..4], &d[73..]), "damaged key data is refused");
            cover("collision")
        }
        Err(_) => cover("refused"),
    }
}
// key data of a seed, public key, for every seed and admissible path
fn c15_pubkey() {
    let w = pick(2);
    let seed = vec("seed", 64);
    let m = match master(&seed) { Some(m) => m, None => { assume(false); return } };
    let p = good(w);
    let n = walk(m.clone(), &p);
    let f = secp(w);
    check(f.network() == network(w), "factory network");
    let data = match f.key_data_from_seed(&seed) { Ok(d) => d, Err(_) => { fail("key data of a seed"); return } };
    check(same(&data, &encode(&m)), "key data is the master key of the seed");
    let k = match f.key_from_data(&data) { Ok(k) => k, Err(_) => { fail("own key data is read"); return } };
    check(k.network() == network(w), "key network");
    match k.pub_key(&Any(p)) {
        Ok(q) => check(same(&q, &point(&n.key).serialize()[..]), "public key at the path"),
        Err(_) => fail("public key at an admissible path"),
    }
    cover(["ethereum", "bitcoin"][w]);
}
fn c15_sign() {
    let w = pick(2);
    let m = node();
    assume(m.depth < 250);
    let p = good(w);
    let n = walk(m.clone(), &p);
    let data = vec("data", [0usize, 1, 32, 100, 135, 136, 137, 1025, 5000, 66000][pick(10)]);
    let k = match secp(w).key_from_data(&encode(&m)) { Ok(k) => k, Err(_) => { fail("key data is read"); return } };
    match (k.sign(&data, &Any(p)), signature(&n, &data)) {
        (Ok(s), Some(r)) => {
            check(r[64] < 2, "no signature with an unusual recovery id");
            check(same(&s, &r), "signature of the Keccak-256 digest under the key at the path");
            cover("signed")
        }
        (Ok(_), None) => fail("no signature"),
        (Err(KeyError::SignError(_)), Some(r)) => { check(r[64] >= 2, "signing succeeds"); cover("recovery id") }
        (Err(KeyError::SignError(_)), None) => cover("refused"),
        (Err(_), _) => fail("kind of signing error"),
    }
}
// key data or a seed the scheme has no key for
fn c15_invalid() {
    let w = pick(2);
    if pick(2) == 0 {
        let seed = vec("seed", 64);
        let r = secp(w).key_data_from_seed(&seed);
        check(r.is_ok() == master(&seed).is_some(), "a seed without a master key is refused");
        cover("seed");
        let n = [0usize, 16, 32, 63, 65, 128, 320, 65600][pick(8)];
        check(secp(w).key_data_from_seed(&vec("seed", n)).is_err(), "a seed of another size is refused");
    } else {
        let n = [0usize, 1, 32, 64, 76, 77, 78, 96, 154, 333, 65613][pick(11)];
        let d = vec("d", n);
        if n == 77 && w == 0 && scalar(&d[41..73]).is_some() { walk(decode(&d), &[HARD + 44, HARD + 60]); }
        let r = secp(w).key_from_data(&d);
        if n != 77 { check(r.is_err(), "key data of another size is refused") } else if r.is_ok() {
            check(same(&sha256(&sha256(&d[..73]))[..4], &d[73..]) & scalar(&d[41..73]).is_some(), "invalid key data is refused");
            cover("data");
        }
    }
}
// every path: which ones are refused, in what order of precedence, with what report
fn c12_policy() {
    let w = pick(3);
    let p = [u32v("purpose"), u32v("coin"), u32v("account"), u32v("change"), u32v("address")];
    let want = if w != 1 && p[0] != HARD + 44 { Some((0, p[0])) }
        else if p[1] != coin(w) { Some((1, p[1])) }
        else if p[2] < HARD { Some((2, p[2])) }
        else if p[3] > 1 { Some((3, p[3])) }
        else if p[4] >= HARD { Some((4, p[4])) }
        else { None };
    let (bad, v) = match want { Some(x) => x, None => return };
    let k = keyed(w);
    let op = pick(3);
    let e = match op {
        0 => k.pub_key(&Any(p)).err(),
        1 => k.sign(&[1, 2, 3], &Any(p)).err(),
        _ => k.verify(&[1, 2, 3], &[7; 64], &Any(p)).err(),
    };
    match e {
        Some(KeyError::InvalidKeyPath(e)) => {
            let t = e.to_string();
            let name = ["Invalid purpose ", "Invalid coin ", "Invalid account ", "Invalid change ", "Invalid address "][bad];
            let mut x = format!("{}{}", name, v);
            if bad == 0 { x += &format!(", expected: {}", HARD + 44) }
            if bad == 1 { x += &format!(", expected: {}", coin(w)) }
            check(same(t.as_bytes(), x.as_bytes()), "the first violated rule is reported with the offending value");
            cover(["purpose", "coin", "account", "change", "address"][bad]);
        }
        Some(_) => fail("a path violation is reported as such"),
        None => fail("a path against the policy is refused"),
    }
}
// and what the policy admits is served
fn c12_admitted() {
    let w = pick(3);
    let p = good(w);
    let k = keyed(w);
    if w != 2 { walk(fixed(), &p); }
    match pick(3) {
        0 => check(k.pub_key(&Any(p)).is_ok(), "an admissible path has a public key"),
        1 => match k.sign(&[9], &Any(p)) { Err(KeyError::InvalidKeyPath(_)) => fail("an admissible path signs"), _ => {} },
        _ => check(k.verify(&[9], &[7; 64], &Any(p)).is_ok(), "an admissible path verifies"),
    }
    cover("admitted");
}
fn c16_seed() {
    let seed = vec("seed", 64);
    let f = factory(2);
    check(f.network() == Network::CARDANO, "factory network");
    match f.key_data_from_seed(&seed) {
        Ok(d) => {
            check(same(&d, &icarus(&seed)), "key data: clamped SHA-512 of the first half, chain code the second half");
            check(ed_valid(&d), "key data is a valid extended key");
            match f.key_from_data(&d) {
                Ok(k) => check(k.network() == Network::CARDANO, "key network"),
                Err(_) => fail("own key data is read"),
            }
            cover("seed");
        }
        Err(_) => fail("every seed has key data"),
    }
    let n = [0usize, 32, 63, 65, 128, 320, 65600][pick(7)];
    check(f.key_data_from_seed(&vec("seed", n)).is_err(), "a seed of another size is refused");
}
fn c16_data() {
    let n = pick(3 + if LONG { 200 } else { 130 });
    let n = if n < 3 { [352, 608, 65632][n] } else { n - 3 };
    let d = vec("d", n);
    let r = factory(2).key_from_data(&d);
    check(r.is_ok() == (n == 96 && ed_valid(&d)), "exactly valid 96-byte extended keys are accepted");
    match r {
        Ok(_) => cover("accepted"),
        Err(KeyError::InvalidKeySize(a, b)) => { check(n != 96 && a == n && b == 96, "size error"); cover("size") }
        Err(KeyError::InvalidKeyData(_)) => { check(n == 96, "size is reported as such"); cover("bits") }
        Err(_) => fail("error of malformed key data"),
    }
}
fn c16_keys() {
    let d = vec("d", 96);
    assume(ed_valid(&d));
    let k = match factory(2).key_from_data(&d) { Ok(k) => k, Err(_) => { fail("key data is read"); return } };
    let p = good(2);
    let n = ed(&d, &p);
    match k.pub_key(&Any(p)) {
        Ok(q) => check(same(&q, n.public().as_ref()), "public key and chain code at the path"),
        Err(_) => fail("public key at an admissible path"),
    }
    let data = vec("data", [0usize, 1, 32, 128, 1025, 5000, 66000][pick(7)]);
    match k.sign(&data, &Any(p)) {
        Ok(s) => {
            let r: ed25519_bip32::Signature<Vec<u8>> = n.sign(&data);
            check(same(&s, r.as_ref()), "signature under the key at the path");
        }
        Err(_) => fail("signing at an admissible path"),
    }
    cover("keys");
}
// what sign gives, verify takes, for every key, path and message
fn c17_own() {
    let w = pick(3);
    let p = good(w);
    let data = vec("data", [0usize, 1, 32, 140, 5000, 66000][pick(6)]);
    let (k, _) = any_key(w, &p);
    match k.sign(&data, &Any(p)) {
        Ok(s) => {
            match k.verify(&data, &s, &Any(p)) {
                Ok(v) => check(v, "a signature made by a key verifies under it"),
                Err(_) => fail("a signature made by a key is accepted for verification"),
            }
            check(s.len() == [65, 65, 64][w], "signature size");
            cover(["ethereum", "bitcoin", "cardano"][w]);
        }
        Err(KeyError::SignError(_)) => {}
        Err(_) => fail("signing at an admissible path"),
    }
}
// verification is the scheme's, of this message, signature and key; other sizes are refused
fn c17_verify() {
    let w = pick(3);
    let p = good(w);
    let (k, n) = any_key(w, &p);
    let data = vec("data", [0usize, 32, 77, 5000, 66000][pick(5)]);
    let len = [0usize, 1, 32, 63, 64, 65, 66, 72, 128, 200, 320, 321, 65600, 65601][pick(14)];
    let sig = vec("sig", len);
    match k.verify(&data, &sig, &Any(p)) {
        Ok(v) => match n {
            Kind::Secp(n) => {
                check(len == 64 || len == 65 && sig[64] < 2, "a malformed signature is refused");
                if len == 64 || len == 65 { check(v == verdict(&n, &data, &sig[..64]), "verdict of the scheme"); cover("secp256k1") }
            }
            Kind::Ed(n) => {
                check(len == 64, "a malformed signature is refused");
                if len == 64 {
                    let s: ed25519_bip32::Signature<Vec<u8>> = ed25519_bip32::Signature::from_slice(&sig).unwrap();
                    check(v == n.verify(&data, &s), "verdict of the scheme");
                    cover("ed25519")
                }
            }
        },
        Err(KeyError::InvalidSignatureSize(a, _)) => { check(a == len && len != 64, "size error"); cover("size") }
        Err(_) => check(w != 2 && len == 65 && sig[64] > 1, "kind of verification error"),
    }
}
}
pub enum Kind { Secp(Node), Ed(ed25519_bip32::XPrv) }
/// Any key of the network and what it is at the path.
pub fn any_key(w: usize, p: &[u32]) -> (Box<dyn Key>, Kind) {
    if w == 2 {
        let d = vec("d", 96);
        assume(ed_valid(&d));
        return (factory(2).key_from_data(&d).ok().expect("key"), Kind::Ed(ed(&d, p)))
    }
    let m = node();
    assume(m.depth < 250);
    let n = walk(m.clone(), p);
    (secp(w).key_from_data(&encode(&m)).ok().expect("key"), Kind::Secp(n))
}
pub fn fixed() -> Node { Node { depth: 0, fp: [0; 4], index: 0, chain: [0x5a; 32], key: [0x17; 32] } }
pub fn keyed(w: usize) -> Box<dyn Key> {
    if w == 2 {
        let mut d = [0x48u8; 96];
        d[31] = 0x51;
        return factory(2).key_from_data(&d).ok().expect("key")
    }
    if w == 0 { walk(fixed(), &[HARD + 44, HARD + 60]); }
    secp(w).key_from_data(&encode(&fixed())).ok().expect("key")
}
pub fn pubkey(n: &Node) -> Vec<u8> { point(&n.key).serialize().to_vec() }
