//! Harness entries. Each entry builds symbolic inputs, drives the public API of the code under
//! test and states the property as checks against an independent formulation of what is right.
#![allow(non_camel_case_types, unused_macros, dead_code, bare_trait_objects)]

macro_rules! entries {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $n() $b)*
        pub fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
            vec![$((stringify!($n), $n as extern "C-unwind" fn())),*]
        }
    };
}

pub mod util;
pub mod mnemonic;
pub mod path;
pub mod container;
pub mod keys;
pub mod manager;
pub mod custom;
pub mod stored;
pub mod capi;
pub mod shared;
pub mod text;

pub fn all_entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v = vec![];
    v.extend(mnemonic::table());
    v.extend(path::table());
    v.extend(container::table());
    v.extend(keys::table());
    v.extend(manager::table());
    v.extend(custom::table());
    v.extend(stored::table());
    v.extend(capi::table());
    v.extend(shared::table());
    v.extend(text::table());
    v
}
