//! ED25519 Signature Scheme
//!
//! ```
//! use self::cryptoxide::ed25519;
//!
//! let message = "messages".as_bytes();
//! let seed = [0u8;32]; // seed only for example !
//! let (secret, public) = ed25519::keypair(&seed[..]);
//! let signature = ed25519::signature(message, &secret[..]);
//! ed25519::verify(message, &public[..], &signature[..]);
//! ```
//!

use digest::Digest;
use sha2::{Sha512};
use curve25519::{GeP2, GeP3, ge_scalarmult_base, sc_reduce, sc_muladd, curve25519, Fe};
use util::{fixed_time_eq};
use std::ops::{Add, Sub, Mul};

pub const SEED_LENGTH : usize = 32;
pub const PRIVATE_KEY_LENGTH : usize = 64;
pub const PUBLIC_KEY_LENGTH : usize = 32;
pub const SIGNATURE_LENGTH : usize = 64;

static L: [u8; 32] =
      [ 0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
        0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6,
        0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed ];

/// Create a keypair of secret key and public key
pub fn keypair(seed: &[u8]) -> ([u8; PRIVATE_KEY_LENGTH], [u8; PUBLIC_KEY_LENGTH]) {
    assert!(seed.len() == SEED_LENGTH, "Seed should be {} bytes long!", SEED_LENGTH);

    let mut secret: [u8; PRIVATE_KEY_LENGTH] = {
        let mut hash_output: [u8; PRIVATE_KEY_LENGTH] = [0; PRIVATE_KEY_LENGTH];
        let mut hasher = Sha512::new();
        hasher.input(seed);
        hasher.result(&mut hash_output);
        hash_output[0] &= 248;
        hash_output[31] &= 63;
        hash_output[31] |= 64;
        hash_output
    };

    let a = ge_scalarmult_base(&secret[0..32]);
    let public_key = a.to_bytes();
    for (dest, src) in (&mut secret[32..64]).iter_mut().zip(public_key.iter()) {
        *dest = *src;
    }
    for (dest, src) in (&mut secret[0..32]).iter_mut().zip(seed.iter()) {
        *dest = *src;
    }
    (secret, public_key)
}

/// Generate a signature for the given message using a normal ED25519 secret key
pub fn signature(message: &[u8], secret_key: &[u8]) -> [u8; SIGNATURE_LENGTH] {
    assert!(secret_key.len() == PRIVATE_KEY_LENGTH, "Private key should be {} bytes long!", PRIVATE_KEY_LENGTH);

    let seed = &secret_key[0..32];
    let public_key = &secret_key[32..64];
    let az: [u8; 64] = {
        let mut hash_output: [u8; 64] = [0; 64];
        let mut hasher = Sha512::new();
        hasher.input(seed);
        hasher.result(&mut hash_output);
        hash_output[0] &= 248;
        hash_output[31] &= 63;
        hash_output[31] |= 64;
        hash_output
    };

    let nonce = {
        let mut hash_output: [u8; 64] = [0; 64];
        let mut hasher = Sha512::new();
        hasher.input(&az[32..64]);
        hasher.input(message);
        hasher.result(&mut hash_output);
        sc_reduce(&mut hash_output[0..64]);
        hash_output
    };

    let mut signature: [u8; SIGNATURE_LENGTH] = [0; SIGNATURE_LENGTH];
    let r: GeP3 = ge_scalarmult_base(&nonce[0..32]);
    for (result_byte, source_byte) in (&mut signature[0..32]).iter_mut().zip(r.to_bytes().iter()) {
        *result_byte = *source_byte;
    }
    for (result_byte, source_byte) in (&mut signature[32..64]).iter_mut().zip(public_key.iter()) {
        *result_byte = *source_byte;
    }

    {
        let mut hasher = Sha512::new();
        hasher.input(signature.as_ref());
        hasher.input(message);
        let mut hram: [u8; 64] = [0; 64];
        hasher.result(&mut hram);
        sc_reduce(&mut hram);
        sc_muladd(&mut signature[32..64], &hram[0..32], &az[0..32], &nonce[0..32]);
    }

    signature
}

/// Model: public key = uninterpreted function of the scalar half.
pub fn to_public(extended_secret: &[u8]) -> [u8;PUBLIC_KEY_LENGTH] {
    let mut r = [0u8; PUBLIC_KEY_LENGTH];
    ::vmodel::uf(::vmodel::tag::ED_PUB, &extended_secret[0..32], &mut r, true);
    r
}

fn verdict(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
    let mut inp = public_key.to_vec();
    inp.extend_from_slice(signature);
    inp.extend_from_slice(message);
    let mut r = [0u8; 1];
    ::vmodel::uf(::vmodel::tag::ED_VERIFY, &inp, &mut r, false);
    r[0] & 1 == 1
}

/// Model: signature = uninterpreted function of (extended secret, message), assumed to verify
/// under the matching public key.
pub fn signature_extended(message: &[u8], extended_secret: &[u8]) -> [u8; SIGNATURE_LENGTH] {
    assert!(extended_secret.len() == PRIVATE_KEY_LENGTH, "Private key should be {} bytes long!", PRIVATE_KEY_LENGTH);
    let public_key = to_public(extended_secret);
    let mut inp = extended_secret.to_vec();
    inp.extend_from_slice(message);
    let mut r = [0u8; SIGNATURE_LENGTH];
    ::vmodel::uf(::vmodel::tag::ED_SIGN, &inp, &mut r, true);
    ::vmodel::assume(verdict(message, &public_key, &r));
    r
}

/// Verify that a signature is valid for a given message for an associated public key
pub fn verify(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
    assert!(public_key.len() == PUBLIC_KEY_LENGTH, "Public key should be {} bytes long!", PUBLIC_KEY_LENGTH);
    assert!(signature.len() == SIGNATURE_LENGTH, "signature should be {} bytes long!", SIGNATURE_LENGTH);
    verdict(message, public_key, signature)
}

pub fn exchange(public_key: &[u8], private_key: &[u8]) -> [u8; 32] {
    let ed_y = Fe::from_bytes(&public_key);
    // Produce public key in Montgomery form.
    let mont_x = edwards_to_montgomery_x(ed_y);

    // Produce private key from seed component (bytes 0 to 32)
    // of the Ed25519 extended private key (64 bytes).
    let mut hasher = Sha512::new();
    hasher.input(&private_key[0..32]);
    let mut hash: [u8; 64] = [0; 64];
    hasher.result(&mut hash);
    // Clamp the hash such that it is a valid private key
    hash[0] &= 248;
    hash[31] &= 127;
    hash[31] |= 64;

    let shared_mont_x : [u8; 32] = curve25519(&hash, &mont_x.to_bytes()); // priv., pub.

    shared_mont_x
}

fn edwards_to_montgomery_x(ed_y: Fe) -> Fe {
    let ed_z = Fe([1,0,0,0,0,0,0,0,0,0]);
    let temp_x = ed_z.add(ed_y);
    let temp_z = ed_z.sub(ed_y);
    let temp_z_inv = temp_z.invert();

    let mont_x = temp_x.mul(temp_z_inv);

    mont_x
}

