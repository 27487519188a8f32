"""The properties, what decides each and within which bounds. `python3 properties.py` rewrites
properties.jsonl and MANIFEST.json from this table."""
import json, os

L8 = ['en', 'fr', 'ja', 'ko', 'zs', 'zt', 'it', 'es']


def E(name, bounds, cost=1, seeds=None, thorough_seeds=None):
    return dict(name=name, bounds=bounds, cost=cost, seeds=seeds, thorough_seeds=thorough_seeds)


ASSUMPTIONS = [
    'The code under test is the LLVM bitcode rustc 1.99.1 emits for /repo (opt-level 1, overflow checks on, x86_64 Linux); code generation below LLVM IR is trusted.',
    'Hash functions (SHA-2, Keccak, RIPEMD-160), the stream cipher, Poly1305, PBKDF2 after its HMAC key set-up, curve arithmetic and signatures are uninterpreted functions: a check holds whatever they compute, given that equal inputs give equal outputs. Hashes, MACs, key derivation and public keys are also taken to be injective where a check compares different inputs (no collisions).',
    'The crates named in models/ replace cryptoxide, libsecp256k1, ripemd160 and rand_os; every other dependency (serde_json, base64, byteorder, ed25519-bip32 and the standard library) is executed as compiled.',
    'Z3 is trusted; the engine\'s own rewriting of terms is re-proved by Z3 in every run (simplifier_audit) and sampled paths are replayed natively.',
]
PROPS = {}
JSONL = []
TECH = 'symbolic execution of the compiled LLVM bitcode; Z3 decides every branch and assertion for all input values'


def P(pid, title, statement, over, text, why, files, mech, observe, entries, bounds, state=None, outside='', assumptions=None, note='', thorough_entries=None):
    PROPS[pid] = dict(entries=entries, bounds=bounds, outside=outside, assumptions=assumptions or [], thorough_entries=thorough_entries or [])
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed='none: public API only')
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    JSONL.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    PROPS[pid]['note'] = note


BIP = 'bip39/src/bip39.rs'
P('C01', 'Entropy and mnemonic words are two encodings of the same bits',
  'For every entropy of a supported size (96, 128, 160, 192, 224, 256 bits) the mnemonic has entropy bits / 32 * 3 words, and its word numbers are, 11 bits at a time and high bit first, the entropy followed by the leading entropy bits / 32 bits of its SHA-256; converting the mnemonic back gives exactly that entropy. Every other entropy size and word count is refused with an error naming it. Generated entropy is exactly the bytes the random source delivered, drawn once.',
  ['inputs'], 'every entropy of each of the six sizes; every byte length and word count from 0 to 64; every 64-bit argument of the size tables; every 16-bit word number',
  'The tests encode a few fixed vectors; a wrong bit in one position of one size (an accumulator that overflows, a group straddling three bytes) shows only for particular values of the 2^96..2^256.',
  [BIP, 'bip39/src/util/bits.rs'],
  [('conversion to words', BIP + ': Entropy::to_mnemonics'), ('conversion from words', BIP + ': Entropy::from_mnemonics'), ('sizes', BIP + ': Type, Entropy::new, Mnemonics::from_mnemonics'), ('generation', BIP + ': Entropy::generate')],
  ['bip39 public API'],
  [E('c01_roundtrip', 'all entropies of the six sizes'), E('c01_sizes', 'all byte strings and word lists of length 0..64; twelve lengths up to 65548'), E('c01_types', 'all 64-bit counts, all 16-bit indices'), E('c01_generate', 'all generator outputs, six sizes')],
  'Complete for the six supported sizes; unsupported sizes up to 64 bytes/words and twelve larger ones up to 65548 (those that a count cut to 8 or 16 bits would mistake for a supported one).')
P('C02', 'A word sequence is accepted exactly when its checksum is right',
  'A sequence of a supported number of valid word numbers converts to entropy if and only if its trailing checksum bits equal the leading bits of the SHA-256 of the entropy bits before them, and then re-encoding that entropy gives the same words. Otherwise the error reports the checksum that was computed and the one that was found, in that order.',
  ['inputs'], 'every sequence of 9, 12, 15, 18, 21 and 24 word numbers (2^99 to 2^264 sequences)',
  'Whether a damaged mnemonic is caught depends on all bits of it; tests hold a handful of right and wrong phrases.',
  [BIP], [('checksum comparison', BIP + ': Entropy::from_mnemonics, Entropy::checksum')], ['bip39 public API'],
  [E('c02_checksum', 'all word-number sequences of the six lengths')], 'Complete for the six supported lengths.')
P('C03', 'The dictionaries are the official BIP39 lists, both ways',
  'In each of the eight built-in languages the word of number i is entry i of the official BIP39 list, and looking a text up gives the number of the entry equal to it, byte for byte; a text that is no entry is refused with an error naming it. A number outside the list gives an error and never memory outside the list.',
  ['inputs'], 'every 16-bit number and every byte string up to one byte longer than the longest word, in each language',
  'Tests look up a few words of two languages; one exchanged or corrupted entry among 16384, or a lookup that is wrong only for one word, makes funds unrecoverable elsewhere without any test noticing.',
  [BIP, 'bip39/src/dicts'], [('number to word', BIP + ': DefaultDictionary::lookup_word'), ('word to number', BIP + ': DefaultDictionary::lookup_mnemonic'), ('lists', 'bip39/src/dicts/*.txt')], ['bip39 public API'],
  [E('c03_index_' + l, 'all 16-bit numbers', 2) for l in L8] + [E('c03_word_' + l, 'all byte strings of length 0..longest+1', 9) for l in L8],
  'Word texts up to one byte longer than the longest entry of the language.')
P('C04', 'Mnemonic phrases print and parse faithfully',
  'Printing a mnemonic gives its words in order joined by the separator of the dictionary, and parsing that text with the same dictionary gives the same word numbers. A text is accepted exactly when, split at the separator, it consists of a supported number of dictionary words; otherwise the error names the first unknown word or the number of words.',
  ['inputs'], 'every mnemonic of each length over a dictionary covering all numbers, with three separators; every phrase with up to three arbitrary characters put in place of up to four others near its start; every number in one place of a phrase in each built-in language',
  'Tests parse fixed well-formed phrases; doubled, leading or trailing separators, words that contain one another and multi-byte separators are never sampled together.',
  [BIP], [('printing', BIP + ': Mnemonics::to_string'), ('parsing', BIP + ': Mnemonics::from_string, MnemonicString::new')], ['bip39 public API'],
  [E('c04_phrase', 'all mnemonics of the six lengths, three separators', 2), E('c04_text', 'phrases of 9, 10, 12, 24 words with a window of 3 (4) arbitrary ASCII characters at 5 positions', 3)] + [E('c04_builtin_' + l, 'all 2048 numbers in one place of a 12-word phrase (two lengths, three places in the thorough tier)', 6) for l in L8],
  'Arbitrary text is bounded to a window of 3 characters (4 thorough) replacing 0..4 characters in the first two words of a phrase.')
P('C05', 'The seed is PBKDF2 of the phrase and the passphrase, and of nothing else',
  'The seed of a phrase and a passphrase is the 64 bytes PBKDF2-HMAC-SHA512 derives, in 2048 rounds, from the phrase with salt "mnemonic" followed by the passphrase. Two phrases or passphrases that differ give different seeds, and the same pair always the same seed. A seed can be made from exactly 64 bytes and keeps them.',
  ['inputs'], 'every phrase of the six lengths over a dictionary covering all numbers, every passphrase of ten lengths between 0 and 200 bytes, passphrases of 1025 and 5000 bytes with any end; every pair of 9- or 12-word phrases with passphrases of 0, 3, 6 or 9 bytes; every byte string up to 80 bytes and of 128, 320 and 65600',
  'Vectors fix phrase and passphrase; a passphrase that is cut, normalised or ignored in some length range changes the wallet silently.',
  [BIP], [('seed', BIP + ': Seed::from_mnemonic_string'), ('length check', BIP + ': Seed::from_slice')], ['bip39 public API'],
  [E('c05_seed', 'six phrase lengths, twelve passphrase lengths', 3), E('c05_distinct', 'pairs of 9- and 12-word phrases, passphrases 0..9 bytes', 20), E('c05_bytes', 'all byte strings of length 0..80, 128, 320, 65600')],
  'Passphrase lengths 0,1,3,8,19,56,64,119,120,200,1025,5000; PBKDF2 iteration itself is uninterpreted (the round count is part of its argument).')
P('C06', '11-bit groups are packed and unpacked without losing a bit',
  'Reading 11-bit groups from a byte string yields its bits in order, high bit first, and reports how many whole groups are left. Writing groups packs their low 11 bits in order and pads the last byte with zero bits, so that reading back what was written gives the same groups.',
  ['inputs'], 'every byte string of 0 to 45 bytes; every sequence of 0 to 32 groups',
  'An error in one of the 11 bit alignments shows only when the bits there differ; the mnemonic tests reach it through a few fixed values.',
  ['bip39/src/util/bits.rs'], [('reader', 'bip39/src/util/bits.rs: BitReaderBy11'), ('writer', 'bip39/src/util/bits.rs: BitWriterBy11')], ['bip39 public API'],
  [E('c06_reader', 'all byte strings of length 0..45 and five lengths up to 1500'), E('c06_writer', 'all sequences of 0..32 groups, 64, 191, 800')], 'Lengths up to 45 bytes and 32 groups, and some up to 1500 bytes and 800 groups (the largest mnemonic needs 33 bytes, 24 groups).')
P('C07', 'Hexadecimal text and bytes convert both ways',
  'Encoding a byte string gives two lower-case digits per byte, high digit first, and decoding that text gives the bytes back. Decoding accepts digits of either case and skips blanks, tabs and line ends; any other character is refused with an error giving its position.',
  ['inputs'], 'every byte string up to 40 bytes for encoding (up to 4 for decoding back), every ASCII text of up to 6 characters for decoding with an even number of digits',
  'Tests decode a few strings; a digit or case that is mapped wrongly or an error position that is off shows for single characters in single places.',
  ['bip39/src/util/hex.rs'], [('encode', 'bip39/src/util/hex.rs: encode'), ('decode', 'bip39/src/util/hex.rs: decode')], ['bip39 public API'],
  [E('c07_encode', 'byte strings of length 0..40, 64, 129, 1000, 5000'), E('c07_decode', 'ASCII texts of length 0..6 (7 thorough)', 4), E('c07_long', 'texts of 300 and 9000 characters, any two of them arbitrary', 2)], 'Encoding up to 40 bytes and of four larger sizes; decoding arbitrary ASCII text up to 6 characters (7 thorough), and long texts with two arbitrary characters at three places.', outside='What decoding does with an odd number of digits is not promised.')
CR = 'keychain/src/crypt.rs'
P('C08', 'Encrypted containers decrypt to their content and follow the stored format',
  'Decrypting a container with the password it was made with returns exactly the data, for every data and every password including empty ones. The container is salt (32 bytes), nonce (12), tag (16) and the ChaCha20-Poly1305 ciphertext under the key PBKDF2-HMAC-SHA512 derives from password and salt in 19162 rounds, so an independent reader of that format can open it and containers written by one can be opened. Each container uses a salt and a nonce freshly drawn for it from the random source, sharing no bytes.',
  ['inputs', 'histories'], 'every data of nine lengths from 0 to 130 bytes and of 1000, 9001 (20000) bytes, every password of nine lengths from 0 to 129 bytes with a multi-byte character, every output of the random source; three containers in a row',
  'The tests encrypt one message with one password; block-boundary lengths, long passwords, reused randomness and format drift need all of them.',
  [CR], [('encryption', CR + ': encrypt'), ('decryption', CR + ': decrypt')], ['keychain::crypt'],
  [E('c08_roundtrip', 'data lengths 0,1,15,16,17,63,64,65,130; password lengths 0,1,2,7,20,64,127,128,129,1025,5000', 2), E('c08_format', 'same', 3), E('c08_large', 'data of 1000, 9001 (20000) bytes', 1), E('c08_fresh', 'three encryptions in a row')],
  'The listed lengths of data and password.')
P('C09', 'Without the right password and the intact container nothing is decrypted',
  'Decrypting with a different password, or decrypting a container that was changed in its tag or anywhere outside it, cut short or extended, ends in the decryption error (or, below the header size, the not-enough-data error) and never in data or a panic. Every byte string is answered: what is decrypted is always authentic for the given password, and data shorter than the 60-byte header is always reported as not enough data.',
  ['inputs'], 'every pair of different passwords of ten length combinations up to 128 bytes, seven up to 260 and three of 1000 to 5000 that differ at their end; every change of salt, nonce and ciphertext together or of the tag, for four data lengths; every truncation and extension by up to 8 bytes; every byte string of 0 to 133 bytes',
  'Tests try one wrong password; a comparison that ignores part of the tag or a header field that is not authenticated is invisible to them.',
  [CR], [('decryption', CR + ': decrypt')], ['keychain::crypt'],
  [E('c09_password', 'ten pairs of password lengths up to 128', 2), E('c09_long', 'passwords of 0, 63, 64, 128..260 and 1003..5003 bytes', 2), E('c09_tamper', 'data lengths 1,16,33,70; all changes', 6), E('c09_any', 'all byte strings of length 0..133', 3), E('c09_length', 'all truncations, extensions by 1..8', 2)],
  'Password pairs of the listed lengths without trailing NUL bytes (HMAC pads keys with zero bytes and hashes keys of more than 128 bytes, so "p" and "p\\0", and such a text and its hash, are the same key by the definition of PBKDF2-HMAC).')
KP = 'keychain/src/key_path.rs'
P('C10', 'A key path text means its numbers, and any text gets an answer',
  'A text m/p/c/a/x/y of five numbers, each below 2^31 and optionally marked hardened by a trailing apostrophe, with blanks around parts ignored, parses to exactly those numbers (plus 2^31 where marked), and printing gives the canonical text back. A text with another number of parts, another first part, an empty or non-decimal part, a marked number of 2^31 or more or any number of 2^32 or more is refused with an error. No text makes the parser panic or wrap around.',
  ['inputs'], 'a path in which 0 to 3 arbitrary ASCII characters (4 thorough) replace 0 to 3 characters at nine places; up to 3 characters one of which is multi-byte; all ASCII texts up to 4 characters; every number of up to 10 digits around the limits, in each place, plain and marked; zeros, blanks, digits and further parts repeated up to 70000 times',
  'Tests parse three well-formed paths and one bad one; limits at 2^31 and 2^32, multi-byte characters at the end of a part and blanks are single points among all texts.',
  [KP], [('parser', KP + ': GenericKeyPath::from, parse_int, hard_int, soft_int'), ('printer', KP + ': GenericKeyPath::to_string, print_int')], ['keychain::GenericKeyPath'],
  [E('c10_window', 'window of 3 (4) ASCII characters at 9 places', 8), E('c10_wide', 'up to 3 characters, one multi-byte', 3), E('c10_short', 'all ASCII texts up to 4 (5) characters', 2), E('c10_number', 'eight (twelve) digit patterns with 1..2 (5) free digits', 4), E('c10_print', 'seven (ten) digit patterns', 8), E('c10_long', 'five repetitions, three lengths up to 70000', 3)],
  'Free text is bounded to a window in an otherwise fixed path.', outside='Plain numbers of 2^31 and above and numbers with a plus sign are not promised either way.')
P('C11', 'Network key paths are built from their arguments or the bad argument is named',
  'The Bitcoin (BIP44, 49, 84; main and test network), Cardano and Ethereum (standard and MetaMask style) path constructors give purpose, coin, account, change and address as the standards say, with hardened offsets where required. An account or address of 2^31 or more, or a change other than 0 and 1, is refused with an error naming that argument and its value.',
  ['inputs'], 'every 32-bit account, change and address, both Bitcoin networks, three Bitcoin purposes, two Ethereum styles',
  'A wrong path silently derives another key; the tests build two paths.',
  ['keychain/src/networks/bitcoin/key_path.rs', 'keychain/src/networks/cardano/key_path.rs', 'keychain/src/networks/ethereum/key_path.rs'],
  [('Bitcoin', 'keychain/src/networks/bitcoin/key_path.rs: KeyPath'), ('Cardano', 'keychain/src/networks/cardano/key_path.rs: KeyPath'), ('Ethereum', 'keychain/src/networks/ethereum/key_path.rs: KeyPath')], ['keychain::networks::*::KeyPath'],
  [E('c11_bitcoin', 'all arguments'), E('c11_cardano', 'all arguments'), E('c11_ethereum', 'all arguments')], 'Complete.')
KEYS = ['keychain/src/networks/bitcoin/key.rs', 'keychain/src/networks/cardano/key.rs', 'keychain/src/networks/ethereum/key.rs']
P('C12', 'Each network serves exactly the key paths its policy admits',
  'Public key, signing and verification of a network accept a path exactly when its purpose (not for Bitcoin) and coin are the network\'s, its account is hardened, its change is 0 or 1 and its address is not hardened. Otherwise they fail with a key path error that reports the first rule broken in that order, with the offending value.',
  ['inputs'], 'every path of five 32-bit numbers, for each network and each of the three operations',
  'A policy hole lets keys of another coin or account be used; it is one comparison out of fifteen and one boundary value out of 2^160 paths.',
  KEYS, [('policy', 'keychain/src/networks/*/key.rs: derive_private')], ['keychain::Key'],
  [E('c12_policy', 'all refused paths', 2), E('c12_admitted', 'all admitted paths')], 'Complete over paths; fixed key material (C15 to C17 vary it). For Bitcoin the admitted paths checked have purpose 44, 49 or 84.', outside='Whether Bitcoin should refuse other purposes is not promised.')
XP = 'secp256k1_bip32/src/private.rs'
P('C13', 'BIP32 master keys, child keys and fingerprints follow the standard',
  'The master key of a seed and the hardened and soft child keys of an extended private key, with chain code, depth, parent fingerprint and index, are those BIP32 defines. A child whose tweak is not below the group order, or a depth beyond 255, is refused; an index whose key would be zero leads to the next index of the same kind or to an error. Deriving through a stored and re-read intermediate key gives the same key, and derivation leaves the parent unchanged.',
  ['inputs'], 'every 64-byte seed; every extended key and every 32-bit index, and every pair of indices; zero-sum children at four (thorough: eight) indices including both ends of each range',
  'Test vectors follow a few chains; the hardened boundary, depth 255 and the one-in-2^127 unusable children cannot be sampled at all.',
  [XP, 'secp256k1_bip32/src/public.rs'], [('master', XP + ': XPrv::from_seed'), ('child', XP + ': XPrv::derive'), ('public key', 'secp256k1_bip32/src/public.rs: XPub')], ['secp256k1_bip32 public API'],
  [E('c13_master', 'all seeds'), E('c13_child', 'all extended keys and indices'), E('c13_chain', 'all keys of depth below 253, all index pairs', 2), E('c13_public', 'all keys'), E('c13_unusable', 'all keys of depth 7; thirteen indices')],
  'Complete per step; chains of two steps; zero-sum case at listed indices.')
P('C14', 'Extended private keys are stored and read back exactly',
  'A byte string is read as an extended private key exactly when it has 77 bytes, its last four bytes are the leading bytes of the double SHA-256 of the rest, and its key is neither zero nor at or above the group order; storing that key gives the same bytes back. Another size is reported with both sizes; any damage to the checksum, and any damage elsewhere except a checksum collision, is refused.',
  ['inputs'], 'every byte string of 0 to 89 bytes (159 thorough); every change of the checksum, or of anything else, of every stored key',
  'Tests read one stored key; a field that is not covered by the checksum or written at the wrong offset needs all of them.',
  [XP], [('reading', XP + ': XPrv::from_data'), ('writing', XP + ': XPrv::serialize')], ['secp256k1_bip32::XPrv'],
  [E('c14_any', 'all byte strings of length 0..89 (159), 333, 589, 65613'), E('c14_damage', 'all changes of all stored keys')], 'Lengths up to 89 bytes (159 thorough), 333, 589 and 65613.')
P('C15', 'Bitcoin and Ethereum keys are those at the requested path of the seed',
  'For every seed the stored key data is its BIP32 master key; the public key reported for an admitted path is the uncompressed key at m/purpose/coin/account/change/address of that seed, and the signature is the ECDSA signature of the Keccak-256 digest of the data under that key as r, s and recovery id, never one with a recovery id above 1. Seeds of other sizes, invalid master keys and malformed key data are refused.',
  ['inputs'], 'every seed, every extended key of depth below 250, every admitted path, data of ten lengths up to 66000 bytes',
  'Deriving one level too many, another order or the wrong coin yields a working wallet with other addresses; tests compare no derived address for most networks.',
  KEYS[:1] + KEYS[2:] + [XP], [('key of a path', 'keychain/src/networks/*/key.rs: derive_private, pub_key, sign'), ('key data', 'keychain/src/networks/*/key.rs: data_from_seed, from_data'), ('signature', XP + ': XPrv::sign')], ['keychain::KeyFactory', 'keychain::Key'],
  [E('c15_pubkey', 'all seeds, all admitted paths', 2), E('c15_sign', 'all keys and paths; message lengths 0,1,32,100,135,136,137,1025,5000,66000', 2), E('c15_invalid', 'eight seed sizes, eleven data sizes, up to 65613', 2)], 'Message lengths as listed; paths whose derivation meets no unusable child (those are in C13).')
P('C16', 'Cardano keys are those at the requested path of the seed',
  'For every seed the stored Cardano key data is the SHA-512 of its first 32 bytes, clamped as BIP32-Ed25519 requires, followed by its last 32 bytes as chain code; it is always a valid extended key and is read back. Key data is accepted exactly when it has 96 bytes and the clamped bits. Public keys (with chain code) and signatures are those of the key derived by scheme V2 at 44\'/1815\'/account/change/address.',
  ['inputs'], 'every seed; every byte string of 0 to 129 bytes (199 thorough); every valid key, every admitted path, messages of four lengths',
  'A clamping or derivation slip yields other addresses than every other Cardano wallet; no test compares derived keys for varying input.',
  KEYS[1:2], [('key data', KEYS[1] + ': Key::data_from_seed, from_data'), ('key of a path', KEYS[1] + ': derive_private, pub_key, sign')], ['keychain::KeyFactory', 'keychain::Key'],
  [E('c16_seed', 'all seeds'), E('c16_data', 'all byte strings of length 0..129 (199), 352, 608, 65632'), E('c16_keys', 'all keys and admitted paths; message lengths 0,1,32,128,1025,5000,66000')], 'Message lengths as listed. The ed25519-bip32 crate is executed as compiled; its curve operations are uninterpreted.')
P('C17', 'Verification accepts own signatures and gives exactly the verdict of the scheme',
  'In each network a signature made for a path verifies for that data and path. For any signature bytes the verdict is the scheme\'s verdict on that data, signature and the key of that path; signatures of another size than the scheme\'s (64 bytes, for Bitcoin and Ethereum also 65 with recovery id 0 or 1) are refused with an error and never cause a panic.',
  ['inputs'], 'every key, every admitted path, messages of up to four lengths, every signature of ten lengths from 0 to 200 bytes',
  'Tests verify one signature per network at most; over-long and short signatures, and the agreement of the two operations for all keys, are not sampled.',
  KEYS + ['secp256k1_bip32/src/public.rs'], [('verification', 'keychain/src/networks/*/key.rs: verify'), ('secp256k1', 'secp256k1_bip32/src/public.rs: XPub::verify')], ['keychain::Key'],
  [E('c17_own', 'all keys and admitted paths, message lengths 0,1,32,140,5000,66000', 2), E('c17_verify', 'all keys and admitted paths, message lengths 0,32,77,5000,66000, signature lengths 0,1,32,63,64,65,66,72,128,200,320,321,65600,65601', 3)],
  'Lengths as listed.')

KC = 'keychain/src/keychain.rs'
MG = 'keychain/src/manager.rs'
DA = 'keychain/src/data.rs'
MN = 'keychain/src/mnemonic.rs'
WALLET = [('keychain data', 'encrypted JSON with the secret (seed or mnemonic and its language) and one key per network', DA + ': WalletDataV2')]
P('C18', 'A keychain operation reaches the key of the requested network and no other',
  'A keychain has exactly the networks of the keys it was made of. Public key, signing and verification for a network are answered by that network\'s key alone, with exactly the path, data and signature given, and its answer, verdict or error (with the network named) comes back unchanged whatever was asked before. A network without key is refused with an error naming it.',
  ['inputs', 'histories'], 'every path, data, signature and answer; keychains of 0 to 3 networks over nine network numbers (the built-in ones, neighbours, limits), each operation for each number; keychains of 12, 40 and 300 networks; sequences of two operations (three thorough); the built-in networks for every seed; several seeds of the hash maps',
  'Tests of this class do not exist in the repository; a mix-up shows only for certain combinations of networks or for errors.',
  [KC], [('routing', KC + ': Keychain'), ('errors', 'keychain/src/error.rs: Error::from_key_error')], ['keychain::Keychain'],
  [E('c18_route', '0..3 of nine networks, nine networks asked, three operations', 3, [0, 1], [0, 1, 2, 3, 4, 5]), E('c18_sequence', 'two (three) operations in a row', 1, [0, 1], [0, 1, 2, 3]), E('c18_many', 'keychains of three sizes up to 300 networks', 2), E('c18_real', 'all seeds, all admitted paths, each built-in network absent or present', 6)],
  'Network numbers are taken from a list of nine; data of 4 or 5 bytes, signatures of 6 or 64 bytes; hash map seeds as listed.', outside='What a keychain made of two keys of the same network does is not promised.')
P('C19', 'Keychain data made of a seed or mnemonic opens to exactly the keys that belong to it',
  'Data a manager creates from a 64-byte seed, or from a mnemonic (whose seed is that of the mnemonic without passphrase), opens with its password to a keychain with exactly the manager\'s networks, each serving the keys the standards give for that seed, and lists exactly their key data. Data from a mnemonic keeps the mnemonic and its language, English where none is given; data from a seed has none. Seeds of other sizes and mnemonics of other lengths, with unknown words or of another language are refused by name.',
  ['inputs'], 'every seed; phrases of eight languages; every password of lengths 0, 3, 9 and 200; all seven network selections; one letter of a mnemonic replaced by any ASCII character',
  'No test creates and reopens data; whether each combination of networks, languages and passwords comes back is a product no sample covers.',
  [MG, MN, DA], [('creation', MG + ': new_keychain_data, seed_from_data'), ('opening', MG + ': keychain_from_data'), ('mnemonic', MN + ': seed_from_mnemonic')], ['keychain::KeychainManager'],
  [E('c19_seed', 'all seeds, seven network selections', 6, [0, 3], [0, 1, 2, 3]), E('c19_mnemonic', 'seven network selections', 12), E('c19_language', 'eight languages', 12), E('c19_refused', 'eight seed sizes up to 65600, eight word counts, one letter, seven languages', 4)],
  'Phrases of fixed words (C01 to C05 vary them) with password lengths 0, 3, 9 and 200; public keys compared at one path per network (C15 to C17 vary paths).', state=WALLET)
P('C20', 'Adding a network keeps all there is and adds the key of the stored secret',
  'Adding a supported network that is not there gives data with the same password, the same secret and all former keys, plus that network\'s key derived from the stored secret; the data given stays valid. A network that is there already, one the manager does not know, a wrong password or too little data is refused as such, and so is data whose secret is missing or cannot be used (a mnemonic without its dictionary among them).',
  ['inputs', 'histories'], 'every seed and password; data from a seed or from a mnemonic; every selection of networks before, every network added; two networks in either order',
  'A key that is lost or replaced while another is added costs the funds of that network and shows only in certain combinations.',
  [MG], [('adding', MG + ': add_network')], ['keychain::KeychainManager'],
  [E('c20_add', 'six selections, three networks, added by a manager of all or of few networks', 14, [0], [0, 1, 2]), E('c20_twice', 'both orders', 4, [0, 1], [0, 1, 2, 3]), E('c20_refused', 'unknown networks, every wrong password', 2), E('c23_secret', 'incomplete secrets', 2)],
  'Password lengths 0, 3, 9, 200; up to two additions (C21 has longer histories).', state=WALLET)
P('C21', 'Changing the password changes nothing else, and only the new one opens the data',
  'Data under a changed password opens with the new one to the same keys, networks and secret; the former password (or any other) is refused by every operation as wrong password. Changing requires the current password. Sequences of changes and additions end in what each of them promises.',
  ['inputs', 'histories'], 'every seed, every former and new password of the listed lengths, seven network selections; sequences of three operations (four thorough)',
  'Losing a key or keeping the old password valid after a change is fatal and depends on the order of operations.',
  [MG, CR], [('change', MG + ': change_password')], ['keychain::KeychainManager'],
  [E('c21_change', 'seven selections', 10, [0], [0, 1, 2]), E('c21_wrong', 'every other password', 2), E('c21_former', 'every other password', 3), E('c21_long', 'passwords of 142 to 5600 bytes that differ at their end', 8), E('c21_history', 'three (four) operations', 6, [0, 1], [0, 1, 2])],
  'Passwords of 0, 1, 3, 4, 9 and 200 bytes, and long ones, without trailing NUL where two must differ (see C09).', state=WALLET)
P('C22', 'Seed size policy: one size all networks admit, fresh mnemonics of exactly that size',
  'A manager exists exactly if its networks admit a common seed size (the largest minimum, above zero and below the smallest maximum); otherwise the error gives both limits. A generated mnemonic has that size, encodes bytes drawn for it from the operating system\'s random source and nothing else, in the language asked for (English if none); sizes no mnemonic has are refused by name. Mnemonics are accepted for data exactly if they have the number of words of that size.',
  ['inputs', 'histories'], 'every 64-bit minimum and maximum of one to three networks; all six mnemonic sizes and sixteen others; three mnemonics in a row',
  'Built-in networks always give the same two sizes; the policy matters for combinations of custom networks, and reuse of randomness is invisible in single calls.',
  [MG, MN, 'keychain/src/entropy.rs'], [('policy', MG + ': calculate_seed_size'), ('generation', MG + ': generate_mnemonic; ' + MN + ': generate_entropy, mnemonic_from_entropy'), ('word count', MN + ': seed_from_mnemonic')], ['keychain::KeychainManager'],
  [E('c22_sizes', 'all 64-bit sizes of 1..3 networks'), E('c22_none', 'no network'), E('c22_odd', 'sixteen sizes'), E('c22_generate', 'six sizes, four entropies each, three (five) languages', 2), E('c22_fresh', 'three in a row', 4), E('c22_words', 'six sizes by six word counts', 4)],
  'Entropies drawn are fixed patterns (C01 covers all), with an arbitrary checksum of the three values 0, 0xa5, 0x7f or, for 96 bits, any.', outside='Whether equal minimum and maximum should be accepted is not promised.')
P('C23', 'Stored keychain data keeps its format, and anything else is reported as damaged',
  'The decrypted content is JSON with version 2 and base64 data holding seed or mnemonic with dictionary, and one [network, key] pair per network, so data written by any version of that format is read: version 1 (keys only, no secret), other field orders and spellings, keys of networks the manager does not know. Content that is not such data is reported as a data error by every operation that needs it, never a panic; a missing or unusable stored secret is reported as such when it is needed.',
  ['inputs'], 'every seed and key material; eight languages; every content of up to 3 (4) bytes; every two (three) bytes anywhere in a stored document outside the network number; every version text of up to 2 (3) bytes; fifteen spellings and 22 damaged forms',
  'The tests never look at stored bytes; a renamed field or another base64 alphabet still round-trips within one build but cannot read what users have.',
  [DA, MG], [('format', DA + ': WalletDataV1, WalletDataV2, VersionedData, serialize'), ('use', MG + ': keychain_data_from_bytes')], ['keychain::KeychainManager', 'keychain::crypt'],
  [E('c23_written', 'two networks, eight languages', 4, [0, 1], [0, 1, 2]), E('c23_read', '0..2 keys, four kinds of secret, eight languages', 5), E('c23_first', '0..3 keys', 1, [0, 1], [0, 1, 2]), E('c23_spelling', '15 spellings'), E('c23_bad', '22 damaged forms'), E('c23_short', 'all contents up to 3 (4) bytes', 2), E('c23_version', 'all version texts up to 2 (3) bytes'), E('c23_window', 'any 2 (3) bytes at every place outside the network number', 10), E('c23_secret', 'incomplete secrets', 2), E('c23_many', '1, 9, 40 keys, a key of 1500 bytes', 4)],
  'As listed; key material of 0, 5 and 16 bytes, and of up to 1500 fixed ones. Floating point values inside damaged content are over-approximated.', state=WALLET)
P('C24', 'Every network factory gets the very seed and its own stored key, and its failure is named',
  'A manager of custom networks asks every network once for the key of exactly the seed given, stores exactly the key data it answers, and opens each network with exactly its own data. A network that fails at creation, opening or adding is named and nothing is produced. Networks the manager does not know are left out of the keychain, but their keys stay in the data through every operation.',
  ['inputs', 'histories'], 'every seed and key material; one to three custom networks among nine numbers, any of them failing at any of the three points; sequences of up to two operations',
  'Custom networks are not exercised by any test.',
  [MG, 'keychain/src/key_factory.rs'], [('creation', MG + ': new_keychain_data'), ('opening', MG + ': keychain_from_data'), ('adding', MG + ': add_network')], ['keychain::KeyFactory', 'keychain::KeychainManager'],
  [E('c24_create', '1..3 networks', 4, [0, 1], [0, 1, 2, 3]), E('c24_failing', 'each network at each point', 3, [0, 1], [0, 1, 2]), E('c24_unknown', 'each network unknown, three sequences', 4, [0, 1], [0, 1, 2]), E('c24_many', 'managers of three sizes up to 70 networks', 2)],
  'Key material of 0, 5, 9 and 16 bytes; network numbers from a list.', state=WALLET)

CC = 'keychain-c/src'
P('C25', 'C objects are freed completely, exactly once, however often their delete is called',
  'Every object the C interface hands out (managers, keychains, network lists, data, key backups, mnemonics, strings, errors) is given back completely by its delete function: with the size and alignment it was allocated with, without anything left over, and with the pointer cleared so that deleting it again does nothing. Objects do not depend on each other: a keychain outlives its manager, and deleting one object leaves all others usable and unchanged.',
  ['inputs', 'histories'], 'all contents; lists of 0 to 3 and 12 elements, data of 0 to 96 bytes; deletes repeated and in different orders',
  'There are no tests of the C interface; a wrong layout or a leak shows in no result.',
  [CC + '/utils/data.rs', CC + '/utils/string.rs', CC + '/network.rs', CC + '/backup.rs', CC + '/keychain_c.rs', CC + '/manager.rs', CC + '/error.rs'],
  [('free', CC + '/utils/data.rs'), ('free', CC + '/network.rs'), ('free', CC + '/backup.rs'), ('free', CC + '/keychain_c.rs'), ('free', CC + '/manager.rs')], ['delete_* functions of the C interface'],
  [E('c25_handles', 'keychain and manager, once or twice, either order', 1), E('c25_backup', '0..3 stored keys', 5), E('c25_errors', 'one failing call', 1), E('c25_data', 'content of 0, 1, 40, 65 bytes', 1), E('c25_many', 'two of every object, four orders, lists of 3 and 12', 6)],
  'Lists of up to twelve keys; data of up to 125 bytes; two objects of each kind alive at a time.', outside='delete_string(NULL) and objects not made by the interface.', state=WALLET)
P('C26', 'The C functions give exactly what the library gives',
  'Called through its symbols with the types of its header, every C function returns true and the result of the library for the same arguments, or false and the error of the library: its code as numbered in the header and its text. Key paths, languages, network numbers, lengths and bytes cross the interface unchanged.',
  ['inputs', 'histories'], 'every seed, password, data to sign, signature, path number; all languages, all three networks and an unknown one; data made by either interface used by the other',
  'There are no tests of the C interface; a swapped argument or field compiles.',
  [CC + '/manager.rs', CC + '/keychain_c.rs', CC + '/key_path.rs', CC + '/bitcoin.rs', CC + '/cardano.rs', CC + '/ethereum.rs', CC + '/backup.rs', CC + '/network.rs', CC + '/error.rs'],
  [('keychain_manager_*', CC + '/manager.rs'), ('keychain_*', CC + '/keychain_c.rs'), ('keypath_*', CC + '/key_path.rs, bitcoin.rs, cardano.rs, ethereum.rs'), ('error_type', CC + '/error.rs')], ['the functions of the C interface'],
  [E('c26_paths', 'three networks, six kinds, numbers', 1), E('c26_path_text', 'path texts with any two ASCII characters', 2), E('c26_constants', '', 1), E('c26_keychain', 'any seed; 1..65 bytes', 20), E('c26_create', 'any seed, 8 languages, password 0..20 bytes', 60), E('c26_data', 'any seed, 8 languages', 40), E('c26_generate', '8 languages', 1), E('c26_errors', 'damaged data of four kinds', 1), E('c26_long', 'data, key data, signatures, passwords and texts of up to 70000 bytes', 4)],
  'Paths: hardened account, change and address numbers from a list when out of range; passwords of up to 20 bytes and long ones; one mnemonic per language and length.', outside='Pointers that are not valid; NULL with length 0.', state=WALLET)
P('C27', 'The C interface reports every failure and never unwinds into its caller',
  'Whatever fails behind the C interface - deleted handles, text that is not UTF-8, damaged content, texts with NUL characters in them - the call returns false, sets the error to a code and a readable message, leaves its results as they were, and neither unwinds nor aborts.',
  ['inputs', 'faults'], 'all thirteen functions with a deleted handle; every text of 3 bytes (4 thorough) as password, mnemonic and path; any two characters at several places of the content',
  'There are no tests of the C interface; aborts need content nobody writes by hand.',
  [CC + '/utils/panic.rs', CC + '/utils/result.rs', CC + '/error.rs', CC + '/utils/string.rs'], [('handle_exception_result', CC + '/utils/panic.rs'), ('ErrorPtr::new', CC + '/error.rs')], ['the functions of the C interface'],
  [E('c27_gone', '13 functions', 1), E('c27_text', 'every text of 3 or 4 bytes, five uses', 3), E('c27_content', 'four kinds of content, three functions', 1), E('c27_any', 'any two characters at 6 places', 8)],
  'Texts of 3 bytes (4 thorough) before the NUL; two arbitrary content bytes.', outside='Pointers that are not valid; running out of memory.', state=WALLET)


P('C28', 'Nothing is made of random bytes the source did not deliver',
  'When the random source of the system fails - at any draw of any operation that needs it - and goes on failing, the operation fails: generating a mnemonic, making keychain data from a seed or a mnemonic, changing the password and adding a network then panic or return an error (the C functions return false with code -1, leave their results as they were and leak nothing). Whatever is made at any other time, after a failure that passed included, has its salt and nonce, or its words, from bytes the source delivered for it, each used once. Data from before still opens after a failure, and operations that only read ask for no random bytes.',
  ['faults', 'inputs', 'histories'], 'failure of the source at the n-th draw (n up to 3), in each of the five operations and their C functions, followed by the same operation again on the same and on another manager; all seeds, all delivered bytes',
  'The source of a test machine never fails; that an all-zero nonce was used shows in no result.',
  [KC + '/entropy.rs', KC + '/crypt.rs', KC + '/mnemonic.rs', KC + '/manager.rs'], [('OsEntropy', KC + '/entropy.rs'), ('draws of salt and nonce', KC + '/crypt.rs: encrypt'), ('generate_entropy', KC + '/mnemonic.rs')], ['keychain public API', 'the functions of the C interface'],
  [E('c28_library', 'five operations, failure at draw 0..3', 4), E('c28_reading', 'opening, listing keys, reading the mnemonic with a source that fails', 1), E('c28_c', 'five C functions, failure at draw 0..2', 4)],
  'One draw fails, or all from one on; a failing draw leaves the buffer half overwritten.', outside='Sources that block or deliver predictable bytes; random sources given by the user of the library.', state=WALLET,
  note='Messages of panics are not formatted by the engine.')
P('C29', 'Calls on one manager or keychain may run at the same time',
  'No operation of a manager, of a keychain or of the C functions on their handles, and none of the functions that take no object, writes memory that a simultaneous call on the same object can see; not when it fails either. The only exceptions are atomic operations that leave things as they were, like those of the lock of the random source. So every schedule of calls on shared objects is free of data races and each call has the result it has alone.',
  ['schedules', 'inputs'], 'every operation of managers, keychains and C handles, with right and wrong passwords, known and unknown networks, good and refused paths, all seeds, messages and signatures of the listed lengths',
  'A race needs two threads at the same place in the same microsecond; the tests use one thread.',
  [KC + '/manager.rs', KC + '/keychain.rs', KC + '/entropy.rs', CC + '/lib.rs'], [('operations take &self', KC + '/manager.rs'), ('keys', KC + '/keychain.rs'), ('the lock', KC + '/entropy.rs: OsEntropy')], ['keychain and bip39 public API', 'the functions of the C interface'],
  [E('c29_manager', '12 operations, right and wrong password', 3), E('c29_keychain', '4 operations, 4 networks, 2 paths', 3), E('c29_values', 'words, phrases, seeds, paths, new managers', 2), E('c29_c', '14 C functions', 4)],
  'Memory from before the call, heap and globals, is frozen while the operation runs: each write to it that is not atomic is a violation, and so is an atomic one that leaves another value. Any two such calls then commute, whatever the schedule.', outside='keychain_init_library and the delete functions, which their callers serialise; objects of the user (own factories, own random sources); code of the models that stands in for libsecp256k1 (its global context is read only).', state=WALLET)
P('C30', 'Entropy and seeds leave nothing behind when they are dropped',
  'When an entropy (of any of the six sizes, made of bytes, of words or cloned) or a seed is dropped, every byte of it is overwritten with zero in place, and no other value changes with it.',
  ['inputs'], 'every entropy of the six sizes, every seed, every list of 9, 12 or 15 words',
  'What is in memory after a drop is visible to no test through the interface.',
  [BIP, 'bip39/src/util/securemem.rs'], [('Drop for Entropy', BIP), ('Drop for Seed', BIP), ('zero', 'bip39/src/util/securemem.rs')], ['memory of the dropped value'],
  [E('c30_entropy', 'six sizes', 1), E('c30_words', 'all lists of 9, 12, 15 words', 1), E('c30_clone', 'six sizes', 1), E('c30_seed', 'both constructors', 1)],
  'Complete for the listed sizes.', outside='Copies made by moving the value, by other types (strings, vectors) and by the compiler; removal of the writes by optimisation where nobody looks at the memory again.')

P('C31', 'What is printed says what it stands for, and error texts carry their values',
  'Entropies and seeds print as the hexadecimal digits of their bytes, in order; a mnemonic size prints as its number of words, and of all texts only those six numbers are read as sizes. The text of an error, all that a C program gets besides the code, contains the values the error is about: sizes, both limits under their names, the network, the path number refused and its place, the unknown word. The three built-in networks have their registered numbers, are the ones listed, and the default manager has them all.',
  ['inputs'], 'every entropy and seed; every ASCII text of up to 3 characters as a size; numbers of seven digit patterns up to 64 bits with up to 4 arbitrary digits in every error; unknown words with three arbitrary letters at three places',
  'No test looks at a printed value; an error that names the wrong number misleads exactly when something is wrong.',
  [BIP, 'bip39/src/util/hex.rs', 'keychain/src/error.rs', 'keychain/src/key.rs', 'keychain/src/key_path.rs', 'keychain/src/mnemonic.rs', 'keychain/src/network.rs'],
  [('printing', BIP + ': Display and Debug of Entropy, Seed, Type; FromStr for Type'), ('errors', 'keychain/src/error.rs: Display for Error'), ('errors', 'keychain/src/key.rs, key_path.rs, mnemonic.rs: Display for Error'), ('networks', 'keychain/src/network.rs: Network::all, Display')], ['Display of the public types'],
  [E('c31_hex', 'six entropy sizes and seeds, two formats', 1), E('c31_type', 'all ASCII texts up to 3 characters', 1), E('c31_error', 'seven digit patterns, eight kinds of error', 3), E('c31_path', 'six digit patterns, five constructors; texts of two kinds in five places', 3), E('c31_call', 'errors of seven operations', 2), E('c31_known', 'three networks, six digit patterns', 1)],
  'Numbers of the listed digit patterns. The wording of the texts is not fixed, only that they contain the values.', outside='Debug of other types; texts of damaged-data errors, which come from serde_json.')



def write():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for j in JSONL:
            f.write(json.dumps(j, ensure_ascii=False) + '\n')
    checks = [dict(property=j['id'], quick_cmd='python3 check.py %s --tier quick' % j['id'], thorough_cmd='python3 check.py %s --tier thorough' % j['id'], technique=TECH, level='model_checking',
                   level_note=('Bounded symbolic execution: ' + PROPS[j['id']]['bounds'] + ' ' + PROPS[j['id']]['note']).strip()) for j in JSONL if j['id'] in PROPS]
    t = ['| property | entries (bounds) | in general | outside |', '|---|---|---|---|']
    for j in JSONL:
        q = PROPS[j['id']]
        t.append('| %s %s | %s | %s | %s |' % (j['id'], j['title'], '; '.join('`%s` %s' % (e['name'], e['bounds']) for e in q['entries'] + q['thorough_entries']), q['bounds'], q['outside']))
    p = os.path.join(here, 'DESIGN.md')
    d = open(p).read()
    a, b = '<!-- generated by properties.py -->\n', '<!-- end -->'
    i, k = d.index(a) + len(a), d.index(b)
    open(p, 'w').write(d[:i] + '\n' + '\n'.join(x.replace('\n', ' ') for x in t) + '\n\n' + d[k:])
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[], notes='See DESIGN.md. Every check rebuilds /repo to LLVM bitcode and executes it symbolically (kse/, harness/, models/). No hooks in /repo.')
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


if __name__ == '__main__':
    write()
