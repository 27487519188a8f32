use crate::util::*;
use cryptoxide::chacha20poly1305::ChaCha20Poly1305;
use keychain::crypt::{decrypt, encrypt, DecryptError};

const LENS: [usize; 9] = [0, 1, 15, 16, 17, 63, 64, 65, 130];
fn password() -> String {
    let n = [0usize, 1, 2, 7, 20, 64, 127, 128, 129, 1025, 5000][pick(11)];
    if n > 129 { return tail("password", n) }
    text("password", n, if n > 1 { n / 2 } else { n })
}
/// A long text of which the last three characters are arbitrary.
fn tail(name: &str, n: usize) -> String { "pass".repeat(n / 4) + &text(name, 3, 1) }
fn open(data: &[u8], pw: &[u8]) -> Option<Vec<u8>> {
    let key = pbkdf2_512(pw, &data[..32], 19162, 32);
    let mut o = vec![0u8; data.len() - 60];
    if ChaCha20Poly1305::new(&key, &data[32..44], &[]).decrypt(&data[60..], &mut o, &data[44..60]) { Some(o) } else { None }
}

entries! {
fn c08_roundtrip() {
    let data = vec("data", LENS[pick(LENS.len())]);
    let pw = password();
    let r = Rec::new();
    let c = encrypt(&data, &pw, &r);
    check(c.len() == data.len() + 60, "container is 60 bytes longer than the data");
    match decrypt(&c, &pw) {
        Ok(d) => check(same(&d, &data), "decryption returns the data"),
        Err(_) => fail("own container decrypts"),
    }
    cover("round trip");
}
fn c08_format() {
    let data = vec("data", LENS[pick(LENS.len())]);
    let pw = password();
    let r = Rec::new();
    let c = encrypt(&data, &pw, &r);
    if c.len() != data.len() + 60 { fail("container size"); return }
    match open(&c, pw.as_bytes()) {
        Some(d) => check(same(&d, &data), "an independent reader of salt|nonce|tag|ciphertext recovers the data"),
        None => fail("an independent reader accepts the container"),
    }
    // and a container written independently is read back
    let (salt, nonce) = (vec("salt", 32), vec("nonce", 12));
    let key = pbkdf2_512(pw.as_bytes(), &salt, 19162, 32);
    let mut e = vec![0u8; data.len()];
    let mut tag = [0u8; 16];
    ChaCha20Poly1305::new(&key, &nonce, &[]).encrypt(&data, &mut e, &mut tag);
    let all = [&salt[..], &nonce[..], &tag[..], &e[..]].concat();
    match decrypt(&all, &pw) {
        Ok(d) => check(same(&d, &data), "a foreign container of the same format is read"),
        Err(_) => fail("a foreign container of the same format is accepted"),
    }
    cover("format");
}
// long data, of which the cipher makes many blocks
fn c08_large() {
    let data = vec("data", [1000usize, 9001, 20000][pick(if LONG { 3 } else { 2 })]);
    let c = encrypt(&data, "pw", &Rec::new());
    if c.len() != data.len() + 60 { fail("container size"); return }
    match open(&c, b"pw") {
        Some(d) => check(same(&d, &data), "an independent reader of salt|nonce|tag|ciphertext recovers the data"),
        None => fail("an independent reader accepts the container"),
    }
    match decrypt(&c, "pw") {
        Ok(d) => check(same(&d, &data), "decryption returns the data"),
        Err(_) => fail("own container decrypts"),
    }
    cover("large");
}
fn c08_fresh() {
    let data = vec("data", 5);
    let pw = text("password", 3, 9);
    let r = Rec::new();
    for _ in 0..3 {
        let from = r.count();
        let c = encrypt(&data, &pw, &r);
        if c.len() != 65 { fail("container size"); return }
        check(r.has(from, &c[..32]), "the salt is freshly drawn for this container");
        check(r.has(from, &c[32..44]), "the nonce is freshly drawn for this container");
        check(r.has_both(from, &c[..32], &c[32..44]), "salt and nonce do not share random bytes");
    }
    cover("fresh");
}
fn c09_password() {
    let data = vec("data", [0usize, 1, 40][pick(3)]);
    let lens = [(0usize, 1usize), (1, 1), (5, 5), (9, 3), (3, 3), (3, 8), (8, 8), (64, 63), (127, 128), (128, 128)];
    let (a, b) = lens[pick(lens.len())];
    let (p, q) = (text("p", a, 1), text("q", b, 1));
    let r = Rec::new();
    let c = encrypt(&data, &p, &r);
    // HMAC pads keys with zero bytes, so only the text before trailing NULs counts
    if b > 0 { assume(q.as_bytes()[q.len() - 1] != 0) }
    if a > 0 { assume(p.as_bytes()[p.len() - 1] != 0) }
    assume(p.len() <= 128);
    assume(q.len() <= 128);
    assume(!same(p.as_bytes(), q.as_bytes()));
    match decrypt(&c, &q) {
        Err(DecryptError::DecryptionFailed) => cover("refused"),
        Err(DecryptError::NotEnoughData) => check(data.is_empty(), "a wrong password is reported as such"),
        Ok(_) => fail("a wrong password is refused"),
    }
}
// passwords beyond the block size of HMAC, which hashes them first
fn c09_long() {
    let data = vec("data", 3);
    let (a, b) = [(129usize, 129usize), (129, 128), (130, 140), (200, 64), (63, 129), (260, 257), (129, 0), (1003, 1003), (1003, 1007), (5003, 5003)][pick(10)];
    let long = |t, n| if n > 1000 { tail(t, n - 3) } else { text(t, n, 131) };
    let (p, q) = (long("p", a), long("q", b));
    let (a, b) = (p.len(), q.len());
    let c = encrypt(&data, &p, &Rec::new());
    let hashed = |t: &str| if t.len() > 128 { sha512(t.as_bytes()).to_vec() } else { t.as_bytes().to_vec() };
    assume(!p.is_empty() && (q.is_empty() || q.as_bytes()[b - 1] != 0) && p.as_bytes()[a - 1] != 0);
    assume(!same(p.as_bytes(), q.as_bytes()));
    if (a > 128) != (b > 128) {
        // HMAC takes a text and its hash for the same key
        let (x, y) = (hashed(&p), hashed(&q));
        let n = x.len().max(y.len());
        let pad = |v: &[u8]| { let mut v = v.to_vec(); v.resize(n, 0); v };
        assume(!same(&pad(&x), &pad(&y)));
    }
    match decrypt(&c, &p) { Ok(d) => check(same(&d, &data), "decryption returns the data"), Err(_) => fail("own container decrypts") }
    match decrypt(&c, &q) {
        Err(DecryptError::DecryptionFailed) => cover("refused"),
        _ => fail("a wrong password is refused"),
    }
}
// any change outside the tag, or any change of the tag alone
fn c09_tamper() {
    let data = vec("data", [1usize, 16, 33, 70][pick(4)]);
    let pw = text("password", 4, 1);
    let r = Rec::new();
    let c = encrypt(&data, &pw, &r);
    let x = vec("x", c.len());
    let mut t = c.clone();
    let kind = pick(2);
    for i in 0..t.len() {
        let tag = i >= 44 && i < 60;
        if tag == (kind == 1) { t[i] ^= x[i] }
    }
    assume(!same(&t, &c));
    match decrypt(&t, &pw) {
        Err(DecryptError::DecryptionFailed) => { if kind == 0 { cover("body change refused") } else { cover("tag change refused") } }
        Err(DecryptError::NotEnoughData) => fail("a changed container is reported as not decryptable"),
        Ok(_) => fail("a changed container is refused"),
    }
}
// every byte string of every length: an answer, never a panic; what is accepted re-encodes
fn c09_any() {
    let n = pick(134);
    let d = vec("d", n);
    let pw = text("password", [0usize, 1, 5][pick(3)], 2);
    match decrypt(&d, &pw) {
        Err(DecryptError::NotEnoughData) => { check(n < 60, "not enough data only below the header size"); cover("short") }
        Err(DecryptError::DecryptionFailed) => { check(n >= 60, "short data is reported as such"); cover("refused") }
        Ok(p) => {
            check(n >= 60 && p.len() == n - 60, "plain text length");
            match open(&d, pw.as_bytes()) {
                Some(o) => check(same(&o, &p), "only authentic data is released"),
                None => fail("only authentic data is released"),
            }
            cover("accepted");
        }
    }
}
// cut or extended containers
fn c09_length() {
    let data = vec("data", [1usize, 16, 65][pick(3)]);
    let pw = text("password", 4, 1);
    let c = encrypt(&data, &pw, &Rec::new());
    let k = 1 + pick(c.len() + 8);
    let r = if k <= c.len() { decrypt(&c[..c.len() - k], &pw) } else {
        let mut t = c.clone();
        t.extend_from_slice(&vec("more", k - c.len()));
        decrypt(&t, &pw)
    };
    check(r.is_err(), "a cut or extended container is refused");
    cover("length");
}
}
