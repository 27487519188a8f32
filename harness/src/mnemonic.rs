use crate::util::*;
use bip39::dictionary::{self, Language};
use bip39::{Entropy, Error, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};

const MORE: [usize; 12] = [96, 128, 192, 256, 265, 268, 272, 288, 8204, 8208, 65545, 65548];
const SIZES: [(usize, usize, usize); 6] = [(12, 3, 9), (16, 4, 12), (20, 5, 15), (24, 6, 18), (28, 7, 21), (32, 8, 24)];

/// Big-endian bit `k` of a byte string.
fn bit(b: &[u8], k: usize) -> u16 {
    ((b[k / 8] >> (7 - k % 8)) & 1) as u16
}
/// BIP39: word w is bits 11w..11w+11 of entropy || first bits of SHA-256(entropy).
fn spec_words(ent: &[u8]) -> Vec<u16> {
    let mut all = ent.to_vec();
    all.extend_from_slice(&sha256(ent));
    let n = (ent.len() * 8 + ent.len() / 4) / 11;
    (0..n).map(|w| (0..11).fold(0u16, |a, j| a << 1 | bit(&all, 11 * w + j))).collect()
}

entries! {
// entropy -> words -> entropy, for every entropy of every supported size
fn c01_roundtrip() {
    let (n, _, words) = SIZES[pick(6)];
    let e = vec("ent", n);
    let ent = match Entropy::from_slice(&e) {
        Ok(x) => x,
        Err(_) => { fail("entropy of a supported size is accepted"); return }
    };
    check(same(ent.as_ref(), &e), "entropy bytes kept");
    let m = ent.to_mnemonics();
    let idx: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
    check(idx.len() == words, "word count");
    if idx.len() != words { return }
    let want = spec_words(&e);
    let mut d = 0;
    for i in 0..words { d |= idx[i] ^ want[i] }
    check(d == 0, "word indices are the BIP39 bit groups");
    match Entropy::from_mnemonics(&m) {
        Ok(b) => check(same(b.as_ref(), &e), "round trip returns the entropy"),
        Err(_) => fail("own mnemonic is accepted"),
    }
    cover("round trip");
}
// every sequence of word indices: accepted iff the checksum matches, and then it is the sequence
// the entropy encodes to
fn c02_checksum() {
    let (n, cs, words) = SIZES[pick(6)];
    let mut v = Vec::new();
    let mut all = vec![0u16; words];
    for i in 0..words {
        let x = u16v("idx");
        assume(x < 2048);
        all[i] = x;
        match MnemonicIndex::new(x) { Ok(i) => v.push(i), Err(_) => { fail("index accepted"); return } }
    }
    let m = match Mnemonics::from_mnemonics(v) { Ok(m) => m, Err(_) => { fail("word count accepted"); return } };
    // independent unpacking
    let bits = |k: usize| (all[k / 11] >> (10 - k % 11)) & 1;
    let ent: Vec<u8> = (0..n).map(|b| (0..8).fold(0u8, |a, j| a << 1 | bits(8 * b + j) as u8)).collect();
    let got = (0..cs).fold(0u8, |a, j| a << 1 | bits(8 * n + j) as u8);
    let want = sha256(&ent)[0] >> (8 - cs);
    match Entropy::from_mnemonics(&m) {
        Ok(e) => {
            check(got == want, "a wrong checksum is rejected");
            check(same(e.as_ref(), &ent), "entropy is the leading bits");
            let back = e.to_mnemonics();
            check(back == m, "accepted words encode the entropy");
            cover("accepted");
        }
        Err(Error::InvalidChecksum(a, b)) => {
            check(got != want, "a right checksum is accepted");
            check(a == want, "error reports the computed checksum");
            check(b == got, "error reports the found checksum");
            cover("rejected");
        }
        Err(_) => fail("only checksum errors"),
    }
}

// sizes: every length of entropy, seed and word list outside the supported set is refused by size
fn c01_sizes() {
    // and lengths that look like supported ones when their count of bits or bytes is cut short
    let n = pick(65 + MORE.len());
    let n = if n < 65 { n } else { MORE[n - 65] };
    let e = vec("ent", n);
    let ok = SIZES.iter().any(|s| s.0 == n);
    match Entropy::from_slice(&e) {
        Ok(x) => { check(ok, "unsupported entropy size is refused"); check(same(&x, &e), "entropy kept"); cover("size accepted") }
        Err(Error::WrongKeySize(b)) => { check(!ok && b == n * 8, "entropy size error names the bits"); cover("size refused") }
        Err(_) => fail("entropy size error kind"),
    }
    let words: Vec<MnemonicIndex> = (0..n).map(|i| MnemonicIndex(if n < 65 { u16v("w") } else { i as u16 & 2047 })).collect();
    let ok = SIZES.iter().any(|s| s.2 == n);
    match Mnemonics::from_mnemonics(words.clone()) {
        Ok(m) => { check(ok, "unsupported word count is refused"); check(m.as_ref() == &words[..], "words kept") }
        Err(Error::WrongNumberOfWords(b)) => check(!ok && b == n, "word count error names the count"),
        Err(_) => fail("word count error kind"),
    }
}
// the size tables agree with each other for every argument
fn c01_types() {
    let x = u64v("n") as usize;
    match Type::from_word_count(x) {
        Ok(t) => {
            check(t.mnemonic_count() == x, "word count of type");
            check(t.to_key_size() == x / 3 * 32, "entropy bits = 32/3 words");
            check(t.checksum_size_bits() == x / 3, "checksum bits = words/3");
            check(t.to_key_size() + t.checksum_size_bits() == 11 * x, "bits add up to 11 per word");
            check(x % 3 == 0 && x >= 9 && x <= 24, "supported word counts");
            check(format!("{}", t) == ["9", "12", "15", "18", "21", "24"][x / 3 - 3], "printed type");
            check(t.to_string().parse::<Type>() == Ok(t), "printed type parses");
            check(Type::from_entropy_size(t.to_key_size()) == Ok(t), "type from entropy bits");
            cover("type");
        }
        Err(e) => {
            check(e == Error::WrongNumberOfWords(x), "word count error");
            check(!(x % 3 == 0 && x >= 9 && x <= 24), "supported word counts are accepted");
        }
    }
    match Type::from_entropy_size(x) {
        Ok(t) => check(t.to_key_size() == x, "entropy bits of type"),
        Err(e) => {
            check(e == Error::WrongKeySize(x), "entropy bits error");
            check(!(x % 32 == 0 && x >= 96 && x <= 256), "supported entropy bits are accepted");
        }
    }
    let i = u16v("i");
    match MnemonicIndex::new(i) {
        Ok(m) => check(m.0 == i && i <= 2047, "index in range"),
        Err(e) => check(i > 2047 && e == Error::MnemonicOutOfBound(i), "index out of range"),
    }
}
// generated entropy is exactly what the generator wrote, for each size
fn c01_generate() {
    let k = pick(6);
    let (n, cs, words) = SIZES[k];
    let t = Type::from_word_count(words).unwrap();
    let data = vec("rng", n);
    let calls = std::cell::Cell::new(0usize);
    let e = Entropy::generate(t, |b| {
        calls.set(calls.get() + b.len());
        if b.len() == n { b.copy_from_slice(&data) }
    });
    check(calls.get() == n, "generator fills the whole entropy once");
    check(same(&e, &data), "entropy is the generated bytes");
    check(e.get_type() == t, "generated type");
    check(e.checksum() == sha256(&data)[0] >> (8 - cs), "checksum is the leading hash bits");
    cover("generated");
}
// phrase <-> seed
fn c05_seed() {
    let words = SIZES[pick(6)].2;
    let d = Coded { sep: " " };
    let m = coded_phrase(words);
    let s = m.to_string(&d);
    let n = [0usize, 1, 3, 8, 19, 56, 64, 119, 120, 200, 1025, 5000][pick(12)];
    let pw = vec("pass", n);
    let seed = Seed::from_mnemonic_string(&s, &pw);
    let mut salt = b"mnemonic".to_vec();
    salt.extend_from_slice(&pw);
    let want = pbkdf2_512(s.as_bytes(), &salt, 2048, 64);
    check(same(seed.as_ref(), &want), "seed is PBKDF2(phrase, mnemonic||password)");
    let again = Seed::from_mnemonic_string(&s, &pw);
    check(same(again.as_ref(), seed.as_ref()), "seed is a function of phrase and password");
    cover("seed");
}
// two phrases or passwords that differ give different seeds
fn c05_distinct() {
    let d = Coded { sep: " " };
    let words = SIZES[pick(2)].2;
    let (a, b) = (coded_phrase(words), coded_phrase(words));
    let (pa, pb) = (vec("pa", pick(4) * 3), vec("pb", pick(4) * 3));
    let sa = Seed::from_mnemonic_string(&a.to_string(&d), &pa);
    let sb = Seed::from_mnemonic_string(&b.to_string(&d), &pb);
    let eq = same(sa.as_ref(), sb.as_ref());
    let inputs = a == b && pa.len() == pb.len() && same(&pa, &pb);
    check(eq == inputs, "seeds are equal iff phrase and password are");
    if inputs { cover("same") } else { cover("different") }
}
fn c05_bytes() {
    let n = pick(84);
    let n = if n < 81 { n } else { [128, 320, 65600][n - 81] };
    let b = vec("seed", n);
    match Seed::from_slice(&b) {
        Ok(s) => { check(n == 64, "seed of another size is refused"); check(same(s.as_ref(), &b), "seed bytes kept"); cover("ok") }
        Err(Error::InvalidSeedSize(k)) => { check(n != 64 && k == n, "seed size error"); cover("refused") }
        Err(_) => fail("seed size error kind"),
    }
}
// 11-bit groups
fn c06_reader() {
    let n = pick(51);
    let n = if n < 46 { n } else { [64, 89, 264, 300, 1500][n - 46] };
    let b = vec("buf", n);
    let mut r = BitReaderBy11::new(&b);
    let total = n * 8 / 11;
    for i in 0..total {
        check(r.size() == total - i, "groups left");
        let want = (0..11).fold(0u16, |a, j| a << 1 | bit(&b, 11 * i + j));
        check(r.read() == want, "group is the next 11 bits, high bit first");
    }
    check(r.size() == 0, "no group left");
    cover("reader");
}
fn c06_writer() {
    let n = pick(36);
    let n = if n < 33 { n } else { [64, 191, 800][n - 33] };
    let w: Vec<u16> = (0..n).map(|_| u16v("w")).collect();
    let mut wr = BitWriterBy11::new();
    for x in w.iter() { wr.write(*x) }
    let out = wr.to_bytes();
    check(out.len() == (n * 11 + 7) / 8, "packed length");
    if out.len() != (n * 11 + 7) / 8 { return }
    let mut d = 0u16;
    for k in 0..out.len() * 8 {
        let want = if k < 11 * n { w[k / 11] >> (10 - k % 11) & 1 } else { 0 };
        d |= bit(&out, k) ^ want;
    }
    check(d == 0, "packed bits are the groups in order, zero padded");
    let mut r = BitReaderBy11::new(&out);
    let mut d = 0u16;
    for i in 0..n { d |= r.read() ^ (w[i] & 0x7ff) }
    check(d == 0, "reader returns what was written");
    cover("writer");
}
// hex
fn c07_encode() {
    let n = pick(45);
    let n = if n < 41 { n } else { [64, 129, 1000, 5000][n - 41] };
    let b = vec("b", n);
    let s = hex::encode(&b);
    let v = s.as_bytes();
    check(v.len() == 2 * n, "two digits per byte");
    if v.len() != 2 * n { return }
    let mut ok = true;
    for i in 0..2 * n {
        let nib = if i % 2 == 0 { b[i / 2] >> 4 } else { b[i / 2] & 15 };
        let c = v[i];
        ok &= c == select(nib < 10, (b'0' + nib) as u64, (b'a' - 10).wrapping_add(nib) as u64) as u8;
    }
    check(ok, "lower-case digits, high nibble first");
    if n < if LONG { 6 } else { 5 } { match hex::decode(&s) {
        Ok(x) => check(same(&x, &b), "decode inverts encode"),
        Err(_) => fail("own encoding decodes"),
    } }
    cover("encode");
}
fn c07_decode() {
    let n = pick(if LONG { 8 } else { 7 });
    let b = vec("t", n);
    for i in 0..n { assume(b[i] < 128) }
    decoded(&b);
}
// long texts with two arbitrary characters in them
fn c07_long() {
    let n = [300usize, 9000][pick(2)];
    let mut b: Vec<u8> = (0..n).map(|i| b"0a1B2c3D4e5F6789fAeb"[(i * 7 + i / 20) % 20]).collect();
    if pick(2) == 1 { for i in 0..n / 9 { b[i * 9 + 4] = b" \n\t\r"[i % 4] } }
    let at = [0, n / 2 - 1, n - 2][pick(3)];
    b[at..at + 2].copy_from_slice(&vec("t", 2));
    assume((b[at] < 128) & (b[at + 1] < 128));
    decoded(&b);
    cover("long");
}
// phrases over a dictionary that covers every index
fn c04_phrase() {
    let words = SIZES[pick(6)].2;
    let d = Coded { sep: [" ", "\u{3000}", "--"][pick(3)] };
    let m = coded_phrase(words);
    let s = m.to_string(&d);
    let want: Vec<u8> = {
        let mut v = vec![];
        for (i, x) in m.as_ref().iter().enumerate() {
            if i > 0 { v.extend_from_slice(d.sep.as_bytes()) }
            v.extend_from_slice(&code(x.0));
        }
        v
    };
    check(same(s.as_bytes(), &want), "phrase is the words joined by the separator");
    match Mnemonics::from_string(&d, &s) {
        Ok(b) => check(b == m, "phrase parses back to the words"),
        Err(_) => fail("own phrase parses"),
    }
    match MnemonicString::new(&d, s.to_string()) {
        Ok(b) => check(same(b.as_bytes(), s.as_bytes()), "phrase text kept"),
        Err(_) => fail("own phrase is accepted"),
    }
    cover("phrase");
}
// any text: accepted iff it splits into a supported number of dictionary words
fn c04_text() {
    let k = pick(4);
    // a valid phrase in which a window of arbitrary text replaces part
    let words = [9usize, 12, 24, 10][k];
    let d = Coded { sep: " " };
    let m: Vec<[u8; 3]> = (0..words).map(|i| code((i * 211 % 2048) as u16)).collect();
    let mut t = vec![];
    for (i, w) in m.iter().enumerate() { if i > 0 { t.push(b' ') } t.extend_from_slice(w) }
    let win = vec("win", if LONG { 4 } else { 3 });
    for i in 0..win.len() { assume(win[i] < 128) }
    let at = pick(5);
    let rem = pick(win.len() + 2);
    let mut text = t[..at].to_vec();
    text.extend_from_slice(&win);
    text.extend_from_slice(&t[at + rem..]);
    // oracle
    let mut count = 0;
    let mut idx = vec![];
    let mut bad: Option<Vec<u8>> = None;
    for w in split(&text) {
        count += 1;
        match decode(&w) { Some(x) => idx.push(x), None => { bad = Some(w); break } }
    }
    let s = String::from_utf8(text.clone()).unwrap();
    let r = Mnemonics::from_string(&d, &s);
    match bad {
        Some(w) => match r {
            Err(Error::LanguageError(dictionary::Error::MnemonicWordNotFoundInDictionary(x))) => {
                check(same(x.as_bytes(), &w), "error names the first unknown word");
                cover("unknown word");
            }
            _ => fail("a text with an unknown word is refused"),
        },
        None => if SIZES.iter().any(|s| s.2 == count) {
            match r {
                Ok(x) => {
                    check(x.as_ref().len() == count && x.as_ref().iter().zip(idx.iter()).all(|(a, b)| a.0 == *b), "words parsed in order");
                    check(MnemonicString::new(&d, s).is_ok(), "parsable text is a phrase");
                    cover("parsed");
                }
                Err(_) => fail("dictionary words in a supported number are accepted"),
            }
        } else {
            check(r == Err(Error::WrongNumberOfWords(count)), "unsupported number of words is refused");
            check(MnemonicString::new(&d, s).is_err(), "unparsable text is no phrase");
            cover("wrong count");
        },
    }
}
// built-in dictionaries: a phrase with an arbitrary word in one place, each language
fn c04_builtin_en() { builtin(0) }
fn c04_builtin_fr() { builtin(1) }
fn c04_builtin_ja() { builtin(2) }
fn c04_builtin_ko() { builtin(3) }
fn c04_builtin_zs() { builtin(4) }
fn c04_builtin_zt() { builtin(5) }
fn c04_builtin_it() { builtin(6) }
fn c04_builtin_es() { builtin(7) }
// index -> word for every index
fn c03_index_en() { index(0) }
fn c03_index_fr() { index(1) }
fn c03_index_ja() { index(2) }
fn c03_index_ko() { index(3) }
fn c03_index_zs() { index(4) }
fn c03_index_zt() { index(5) }
fn c03_index_it() { index(6) }
fn c03_index_es() { index(7) }
fn c03_word_en() { word(0) }
fn c03_word_fr() { word(1) }
fn c03_word_ja() { word(2) }
fn c03_word_ko() { word(3) }
fn c03_word_zs() { word(4) }
fn c03_word_zt() { word(5) }
fn c03_word_it() { word(6) }
fn c03_word_es() { word(7) }
}

use bip39::util::bits::{BitReaderBy11, BitWriterBy11};
use bip39::util::hex;

/// A dictionary over all 2048 indices whose words are computed: three letters.
struct Coded { sep: &'static str }
fn code(i: u16) -> [u8; 3] {
    [b'P' | (i & 15) as u8, b'P' | (i >> 4 & 15) as u8, b'P' | (i >> 8 & 7) as u8]
}
fn decode(w: &[u8]) -> Option<u16> {
    if w.len() != 3 { return None }
    let (a, b, c) = (w[0] ^ b'P', w[1] ^ b'P', w[2] ^ b'P');
    if (a | b | c << 1) < 16 && c < 8 { Some(a as u16 | (b as u16) << 4 | (c as u16) << 8) } else { None }
}
impl dictionary::Language for Coded {
    fn name(&self) -> &'static str { "coded" }
    fn separator(&self) -> &'static str { self.sep }
    fn lookup_mnemonic(&self, w: &str) -> dictionary::Result<MnemonicIndex> {
        match decode(w.as_bytes()) {
            Some(i) => Ok(MnemonicIndex(i)),
            None => Err(dictionary::Error::MnemonicWordNotFoundInDictionary(w.to_string())),
        }
    }
    fn lookup_word(&self, m: MnemonicIndex) -> dictionary::Result<String> {
        Ok(unsafe { String::from_utf8_unchecked(code(m.0 & 0x7ff).to_vec()) })
    }
}
fn coded_phrase(n: usize) -> Mnemonics {
    let mut v = vec![];
    for _ in 0..n {
        let x = u16v("idx");
        assume(x < 2048);
        v.push(MnemonicIndex(x));
    }
    Mnemonics::from_mnemonics(v).unwrap()
}
fn split(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for &c in t {
        if c == b' ' { v.push(vec![]) } else { v.last_mut().unwrap().push(c) }
    }
    v
}

static REF: [&str; 8] = [
    include_str!("../ref/english.txt"), include_str!("../ref/french.txt"), include_str!("../ref/japanese.txt"), include_str!("../ref/korean.txt"),
    include_str!("../ref/chinese_simplified.txt"), include_str!("../ref/chinese_traditional.txt"), include_str!("../ref/italian.txt"), include_str!("../ref/spanish.txt"),
];
static DICT: [dictionary::DefaultDictionary; 8] = [
    dictionary::ENGLISH, dictionary::FRENCH, dictionary::JAPANESE, dictionary::KOREAN, dictionary::CHINESE_SIMPLIFIED,
    dictionary::CHINESE_TRADITIONAL, dictionary::ITALIAN, dictionary::SPANISH,
];
struct DictRef(&'static dictionary::DefaultDictionary);
impl dictionary::Language for DictRef {
    fn name(&self) -> &'static str { self.0.name() }
    fn separator(&self) -> &'static str { self.0.separator() }
    fn lookup_mnemonic(&self, w: &str) -> dictionary::Result<MnemonicIndex> { self.0.lookup_mnemonic(w) }
    fn lookup_word(&self, m: MnemonicIndex) -> dictionary::Result<String> { self.0.lookup_word(m) }
}
fn words(l: usize) -> Vec<&'static [u8]> {
    let b = REF[l].as_bytes();
    let mut v = Vec::with_capacity(2048);
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' { v.push(&b[s..i]); s = i + 1 }
    }
    v
}
fn index(l: usize) {
    let refs = words(l);
    let i = u16v("i");
    let d = &DICT[l];
    match d.lookup_word(MnemonicIndex(i)) {
        Ok(w) => {
            check(i < 2048, "an index beyond the list has no word");
            if i < 2048 {
                let k = conc(i as u64) as usize;
                check(w.as_bytes() == refs[k], "word of the BIP39 list");
                cover("word");
            }
        }
        Err(_) => { check(i >= 2048, "every index has a word"); cover("no word") }
    }
}
fn word(l: usize) {
    let refs = words(l);
    let max = refs.iter().map(|w| w.len()).max().unwrap();
    let n = pick(max + 2);
    let w = vec("w", n);
    let s = unsafe { std::str::from_utf8_unchecked(&w) };
    match DICT[l].lookup_mnemonic(s) {
        Ok(i) => {
            check((i.0 as usize) < 2048 && refs[i.0 as usize].len() == n && same(refs[i.0 as usize], &w), "word found at its index");
            cover("found");
        }
        Err(dictionary::Error::MnemonicWordNotFoundInDictionary(x)) => {
            check(same(x.as_bytes(), &w), "error names the word");
            let mut hit = false;
            for r in refs.iter() { if r.len() == n { hit |= same(r, &w) } }
            check(!hit, "every word of the list is found");
            cover("not found");
        }
    }
}
fn builtin(l: usize) {
    let refs = words(l);
    let d = DictRef(&DICT[l]);
    let (n, at) = if LONG {
        let n = SIZES[pick(2) * 4].2;
        (n, [0, n / 2, n - 1][pick(3)])
    } else { (SIZES[1].2, 5) };
    let mut t: Vec<u8> = vec![];
    let mut v = vec![];
    let i = u16v("i");
    assume(i < 2048);
    let i = conc(i as u64) as usize;
    for k in 0..n {
        let j = if k == at { i } else { (k * 577 + 31) % 2048 };
        if k > 0 { t.push(b' ') }
        t.extend_from_slice(refs[j]);
        v.push(MnemonicIndex(j as u16));
    }
    let m = Mnemonics::from_mnemonics(v).unwrap();
    let s = m.to_string(&d);
    check(s.as_bytes() == &t[..], "phrase is the listed words joined by a blank");
    match Mnemonics::from_string(&d, &s) {
        Ok(b) => check(b == m, "phrase parses back"),
        Err(_) => fail("own phrase parses"),
    }
    cover("phrase");
}
/// The bytes a text of hexadecimal digits and blanks stands for.
fn decoded(b: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    let r = hex::decode(s);
    // oracle: scan left to right
    let mut nibs = vec![];
    for (i, &c) in b.iter().enumerate() {
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => {}
            b'0'..=b'9' => nibs.push(c - 48),
            b'a'..=b'f' => nibs.push(c - 87),
            b'A'..=b'F' => nibs.push(c - 55),
            _ => { check(r == Err(hex::Error::UnknownSymbol(i)), "the first unknown symbol is named"); cover("bad symbol"); return }
        }
    }
    if nibs.len() % 2 == 1 { return }
    let want: Vec<u8> = nibs.chunks(2).map(|p| p[0] << 4 | p[1]).collect();
    match r {
        Ok(x) => check(same(&x, &want), "digit pairs decode to bytes"),
        Err(_) => fail("digits and blanks are accepted"),
    }
    cover("decoded");
}
