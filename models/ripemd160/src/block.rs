//! Model: the compression function is an uninterpreted injective function of (state, block).
use block_buffer::byteorder::{LE, ByteOrder};
use digest::generic_array::GenericArray;
use digest::generic_array::typenum::U64;

pub const DIGEST_BUF_LEN: usize = 5;

pub const H0: [u32; DIGEST_BUF_LEN] = [
    0x6745_2301, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476, 0xc3d2_e1f0
];

type Block = GenericArray<u8, U64>;

pub fn process_msg_block(h: &mut [u32; DIGEST_BUF_LEN], data: &Block) {
    let mut i = [0u8; 84];
    LE::write_u32_into(&h[..], &mut i[..20]);
    i[20..].copy_from_slice(&data[..]);
    let mut o = [0u8; 20];
    ::vmodel::uf(::vmodel::tag::RIPE, &i, &mut o, true);
    LE::read_u32_into(&o, &mut h[..]);
}
