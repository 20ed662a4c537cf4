//! Portable definitions of the NEON intrinsics a bitboard might use, written
//! from Arm's reference, so that the AArch64 bitboard can run natively on this
//! machine.  Memory is little-endian, lane 0 first.
#![allow(non_camel_case_types, dead_code, clippy::all)]
pub mod aarch64 {

#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct uint8x8_t(pub [u8; 8]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct uint8x16_t(pub [u8; 16]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct int8x8_t(pub [i8; 8]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct int8x16_t(pub [i8; 16]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct uint16x4_t(pub [u16; 4]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct uint16x8_t(pub [u16; 8]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct int16x4_t(pub [i16; 4]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct int16x8_t(pub [i16; 8]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct uint32x2_t(pub [u32; 2]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct uint32x4_t(pub [u32; 4]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct int32x2_t(pub [i32; 2]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct int32x4_t(pub [i32; 4]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct uint64x1_t(pub [u64; 1]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct uint64x2_t(pub [u64; 2]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(8))]
pub struct int64x1_t(pub [i64; 1]);
#[derive(Clone, Copy, Debug)]
#[repr(C, align(16))]
pub struct int64x2_t(pub [i64; 2]);
#[inline(always)]
pub fn vdup_n_u8(a: u8) -> uint8x8_t {
    uint8x8_t([a; 8])
}
#[inline(always)]
pub fn vmov_n_u8(a: u8) -> uint8x8_t {
    uint8x8_t([a; 8])
}
#[inline(always)]
pub unsafe fn vld1_u8(p: *const u8) -> uint8x8_t {
    uint8x8_t((p as *const [u8; 8]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_u8(p: *mut u8, a: uint8x8_t) {
    (p as *mut [u8; 8]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_u8(a: uint8x8_t) -> u8 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_u8(a: uint8x8_t) -> u8 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_u8(a: uint8x8_t) -> u8 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    let v: Vec<u8> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint8x8_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_u8<const N: i32>(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 8 { a.0[j] } else { b.0[j - 8] } }))
}
#[inline(always)]
pub fn vzip1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 / 2 + i / 2] } else { b.0[8 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i] } else { b.0[2 * i - 8] }))
}
#[inline(always)]
pub fn vuzp2_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] }))
}
#[inline(always)]
pub fn vceq_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_u8(m: uint8x8_t, a: uint8x8_t, b: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u8 | b.0[i] & !(m.0[i] as u8)))
}
#[inline(always)]
pub fn vget_lane_u8<const L: i32>(a: uint8x8_t) -> u8 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_u8<const L: i32>(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vdup_laneq_u8<const L: i32>(a: uint8x16_t) -> uint8x8_t {
    uint8x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vset_lane_u8<const L: i32>(v: u8, a: uint8x8_t) -> uint8x8_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_u8<const N: i32>(a: uint8x8_t) -> uint8x8_t {
    assert!((0..8).contains(&N));
    uint8x8_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_u8<const N: i32>(a: uint8x8_t) -> uint8x8_t {
    assert!((1..=8).contains(&N));
    uint8x8_t(a.0.map(|x| if N == 8 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_u8(a: uint8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 8 { 0 } else if k >= 0 { a.0[i] << k } else if k > -8 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vcnt_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| x.count_ones() as u8))
}
#[inline(always)]
pub fn vrbit_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| x.reverse_bits()))
}
#[inline(always)]
pub fn vclz_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| x.leading_zeros() as u8))
}
#[inline(always)]
pub fn vrev16_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev32_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vrev64_u8(a: uint8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8]))
}
#[inline(always)]
pub fn vdupq_n_u8(a: u8) -> uint8x16_t {
    uint8x16_t([a; 16])
}
#[inline(always)]
pub fn vmovq_n_u8(a: u8) -> uint8x16_t {
    uint8x16_t([a; 16])
}
#[inline(always)]
pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
    uint8x16_t((p as *const [u8; 16]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_u8(p: *mut u8, a: uint8x16_t) {
    (p as *mut [u8; 16]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_u8(a: uint8x16_t) -> u8 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_u8(a: uint8x16_t) -> u8 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_u8(a: uint8x16_t) -> u8 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    let v: Vec<u8> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint8x16_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_u8<const N: i32>(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 16 { a.0[j] } else { b.0[j - 16] } }))
}
#[inline(always)]
pub fn vzip1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[16 / 2 + i / 2] } else { b.0[16 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i < 16 / 2 { a.0[2 * i] } else { b.0[2 * i - 16] }))
}
#[inline(always)]
pub fn vuzp2q_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i < 16 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 16] }))
}
#[inline(always)]
pub fn vceqq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_u8(m: uint8x16_t, a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u8 | b.0[i] & !(m.0[i] as u8)))
}
#[inline(always)]
pub fn vgetq_lane_u8<const L: i32>(a: uint8x16_t) -> u8 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_u8<const L: i32>(a: uint8x8_t) -> uint8x16_t {
    uint8x16_t([a.0[L as usize]; 16])
}
#[inline(always)]
pub fn vdupq_laneq_u8<const L: i32>(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t([a.0[L as usize]; 16])
}
#[inline(always)]
pub fn vsetq_lane_u8<const L: i32>(v: u8, a: uint8x16_t) -> uint8x16_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_u8<const N: i32>(a: uint8x16_t) -> uint8x16_t {
    assert!((0..8).contains(&N));
    uint8x16_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_u8<const N: i32>(a: uint8x16_t) -> uint8x16_t {
    assert!((1..=8).contains(&N));
    uint8x16_t(a.0.map(|x| if N == 8 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_u8(a: uint8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 8 { 0 } else if k >= 0 { a.0[i] << k } else if k > -8 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vcntq_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(a.0.map(|x| x.count_ones() as u8))
}
#[inline(always)]
pub fn vrbitq_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(a.0.map(|x| x.reverse_bits()))
}
#[inline(always)]
pub fn vclzq_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(a.0.map(|x| x.leading_zeros() as u8))
}
#[inline(always)]
pub fn vrev16q_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev32q_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vrev64q_u8(a: uint8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8]))
}
#[inline(always)]
pub fn vget_low_u8(a: uint8x16_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_u8(a: uint8x16_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| a.0[8 + i]))
}
#[inline(always)]
pub fn vcombine_u8(a: uint8x8_t, b: uint8x8_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if i < 8 { a.0[i] } else { b.0[i - 8] }))
}
#[inline(always)]
pub fn vcreate_u8(a: u64) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vdup_n_s8(a: i8) -> int8x8_t {
    int8x8_t([a; 8])
}
#[inline(always)]
pub fn vmov_n_s8(a: i8) -> int8x8_t {
    int8x8_t([a; 8])
}
#[inline(always)]
pub unsafe fn vld1_s8(p: *const i8) -> int8x8_t {
    int8x8_t((p as *const [i8; 8]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_s8(p: *mut i8, a: int8x8_t) {
    (p as *mut [i8; 8]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_s8(a: int8x8_t) -> i8 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_s8(a: int8x8_t) -> i8 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_s8(a: int8x8_t) -> i8 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    let v: Vec<i8> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int8x8_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_s8<const N: i32>(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 8 { a.0[j] } else { b.0[j - 8] } }))
}
#[inline(always)]
pub fn vzip1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 / 2 + i / 2] } else { b.0[8 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i] } else { b.0[2 * i - 8] }))
}
#[inline(always)]
pub fn vuzp2_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] }))
}
#[inline(always)]
pub fn vceq_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_s8(a: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_s8(a: int8x8_t, b: int8x8_t) -> uint8x8_t {
    uint8x8_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_s8(m: uint8x8_t, a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i8 | b.0[i] & !(m.0[i] as i8)))
}
#[inline(always)]
pub fn vget_lane_s8<const L: i32>(a: int8x8_t) -> i8 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_s8<const L: i32>(a: int8x8_t) -> int8x8_t {
    int8x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vdup_laneq_s8<const L: i32>(a: int8x16_t) -> int8x8_t {
    int8x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vset_lane_s8<const L: i32>(v: i8, a: int8x8_t) -> int8x8_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_s8<const N: i32>(a: int8x8_t) -> int8x8_t {
    assert!((0..8).contains(&N));
    int8x8_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_s8<const N: i32>(a: int8x8_t) -> int8x8_t {
    assert!((1..=8).contains(&N));
    int8x8_t(a.0.map(|x| if N == 8 { x >> 7 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_s8(a: int8x8_t, b: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 8 { 0 } else if k >= 0 { a.0[i] << k } else if k > -8 { a.0[i] >> -k } else { a.0[i] >> 7 } }))
}
#[inline(always)]
pub fn vneg_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabs_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vcnt_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.count_ones() as i8))
}
#[inline(always)]
pub fn vrbit_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.reverse_bits()))
}
#[inline(always)]
pub fn vclz_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.leading_zeros() as i8))
}
#[inline(always)]
pub fn vrev16_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev32_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vrev64_s8(a: int8x8_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8]))
}
#[inline(always)]
pub fn vdupq_n_s8(a: i8) -> int8x16_t {
    int8x16_t([a; 16])
}
#[inline(always)]
pub fn vmovq_n_s8(a: i8) -> int8x16_t {
    int8x16_t([a; 16])
}
#[inline(always)]
pub unsafe fn vld1q_s8(p: *const i8) -> int8x16_t {
    int8x16_t((p as *const [i8; 16]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_s8(p: *mut i8, a: int8x16_t) {
    (p as *mut [i8; 16]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_s8(a: int8x16_t) -> i8 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_s8(a: int8x16_t) -> i8 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_s8(a: int8x16_t) -> i8 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    let v: Vec<i8> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int8x16_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_s8<const N: i32>(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 16 { a.0[j] } else { b.0[j - 16] } }))
}
#[inline(always)]
pub fn vzip1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[16 / 2 + i / 2] } else { b.0[16 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i < 16 / 2 { a.0[2 * i] } else { b.0[2 * i - 16] }))
}
#[inline(always)]
pub fn vuzp2q_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i < 16 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 16] }))
}
#[inline(always)]
pub fn vceqq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_s8(a: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_s8(a: int8x16_t, b: int8x16_t) -> uint8x16_t {
    uint8x16_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_s8(m: uint8x16_t, a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i8 | b.0[i] & !(m.0[i] as i8)))
}
#[inline(always)]
pub fn vgetq_lane_s8<const L: i32>(a: int8x16_t) -> i8 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_s8<const L: i32>(a: int8x8_t) -> int8x16_t {
    int8x16_t([a.0[L as usize]; 16])
}
#[inline(always)]
pub fn vdupq_laneq_s8<const L: i32>(a: int8x16_t) -> int8x16_t {
    int8x16_t([a.0[L as usize]; 16])
}
#[inline(always)]
pub fn vsetq_lane_s8<const L: i32>(v: i8, a: int8x16_t) -> int8x16_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_s8<const N: i32>(a: int8x16_t) -> int8x16_t {
    assert!((0..8).contains(&N));
    int8x16_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_s8<const N: i32>(a: int8x16_t) -> int8x16_t {
    assert!((1..=8).contains(&N));
    int8x16_t(a.0.map(|x| if N == 8 { x >> 7 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_s8(a: int8x16_t, b: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 8 { 0 } else if k >= 0 { a.0[i] << k } else if k > -8 { a.0[i] >> -k } else { a.0[i] >> 7 } }))
}
#[inline(always)]
pub fn vnegq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabsq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vcntq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| x.count_ones() as i8))
}
#[inline(always)]
pub fn vrbitq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| x.reverse_bits()))
}
#[inline(always)]
pub fn vclzq_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(a.0.map(|x| x.leading_zeros() as i8))
}
#[inline(always)]
pub fn vrev16q_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev32q_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vrev64q_s8(a: int8x16_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| a.0[i / 8 * 8 + 7 - i % 8]))
}
#[inline(always)]
pub fn vget_low_s8(a: int8x16_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_s8(a: int8x16_t) -> int8x8_t {
    int8x8_t(std::array::from_fn(|i| a.0[8 + i]))
}
#[inline(always)]
pub fn vcombine_s8(a: int8x8_t, b: int8x8_t) -> int8x16_t {
    int8x16_t(std::array::from_fn(|i| if i < 8 { a.0[i] } else { b.0[i - 8] }))
}
#[inline(always)]
pub fn vcreate_s8(a: u64) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vdup_n_u16(a: u16) -> uint16x4_t {
    uint16x4_t([a; 4])
}
#[inline(always)]
pub fn vmov_n_u16(a: u16) -> uint16x4_t {
    uint16x4_t([a; 4])
}
#[inline(always)]
pub unsafe fn vld1_u16(p: *const u16) -> uint16x4_t {
    uint16x4_t((p as *const [u16; 4]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_u16(p: *mut u16, a: uint16x4_t) {
    (p as *mut [u16; 4]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_u16(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_u16(a: uint16x4_t) -> u16 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_u16(a: uint16x4_t) -> u16 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_u16(a: uint16x4_t) -> u16 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    let v: Vec<u16> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint16x4_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_u16<const N: i32>(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 4 { a.0[j] } else { b.0[j - 4] } }))
}
#[inline(always)]
pub fn vzip1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 / 2 + i / 2] } else { b.0[4 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i] } else { b.0[2 * i - 4] }))
}
#[inline(always)]
pub fn vuzp2_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] }))
}
#[inline(always)]
pub fn vceq_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_u16(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_u16(m: uint16x4_t, a: uint16x4_t, b: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u16 | b.0[i] & !(m.0[i] as u16)))
}
#[inline(always)]
pub fn vget_lane_u16<const L: i32>(a: uint16x4_t) -> u16 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_u16<const L: i32>(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vdup_laneq_u16<const L: i32>(a: uint16x8_t) -> uint16x4_t {
    uint16x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vset_lane_u16<const L: i32>(v: u16, a: uint16x4_t) -> uint16x4_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_u16<const N: i32>(a: uint16x4_t) -> uint16x4_t {
    assert!((0..16).contains(&N));
    uint16x4_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_u16<const N: i32>(a: uint16x4_t) -> uint16x4_t {
    assert!((1..=16).contains(&N));
    uint16x4_t(a.0.map(|x| if N == 16 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_u16(a: uint16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 16 { 0 } else if k >= 0 { a.0[i] << k } else if k > -16 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vclz_u16(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t(a.0.map(|x| x.leading_zeros() as u16))
}
#[inline(always)]
pub fn vrev32_u16(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev64_u16(a: uint16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vdupq_n_u16(a: u16) -> uint16x8_t {
    uint16x8_t([a; 8])
}
#[inline(always)]
pub fn vmovq_n_u16(a: u16) -> uint16x8_t {
    uint16x8_t([a; 8])
}
#[inline(always)]
pub unsafe fn vld1q_u16(p: *const u16) -> uint16x8_t {
    uint16x8_t((p as *const [u16; 8]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_u16(p: *mut u16, a: uint16x8_t) {
    (p as *mut [u16; 8]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_u16(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_u16(a: uint16x8_t) -> u16 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_u16(a: uint16x8_t) -> u16 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_u16(a: uint16x8_t) -> u16 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    let v: Vec<u16> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint16x8_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_u16<const N: i32>(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 8 { a.0[j] } else { b.0[j - 8] } }))
}
#[inline(always)]
pub fn vzip1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 / 2 + i / 2] } else { b.0[8 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i] } else { b.0[2 * i - 8] }))
}
#[inline(always)]
pub fn vuzp2q_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] }))
}
#[inline(always)]
pub fn vceqq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_u16(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_u16(a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_u16(m: uint16x8_t, a: uint16x8_t, b: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u16 | b.0[i] & !(m.0[i] as u16)))
}
#[inline(always)]
pub fn vgetq_lane_u16<const L: i32>(a: uint16x8_t) -> u16 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_u16<const L: i32>(a: uint16x4_t) -> uint16x8_t {
    uint16x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vdupq_laneq_u16<const L: i32>(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vsetq_lane_u16<const L: i32>(v: u16, a: uint16x8_t) -> uint16x8_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_u16<const N: i32>(a: uint16x8_t) -> uint16x8_t {
    assert!((0..16).contains(&N));
    uint16x8_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_u16<const N: i32>(a: uint16x8_t) -> uint16x8_t {
    assert!((1..=16).contains(&N));
    uint16x8_t(a.0.map(|x| if N == 16 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_u16(a: uint16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 16 { 0 } else if k >= 0 { a.0[i] << k } else if k > -16 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vclzq_u16(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t(a.0.map(|x| x.leading_zeros() as u16))
}
#[inline(always)]
pub fn vrev32q_u16(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev64q_u16(a: uint16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vget_low_u16(a: uint16x8_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_u16(a: uint16x8_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[4 + i]))
}
#[inline(always)]
pub fn vcombine_u16(a: uint16x4_t, b: uint16x4_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if i < 4 { a.0[i] } else { b.0[i - 4] }))
}
#[inline(always)]
pub fn vcreate_u16(a: u64) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_u16(a: uint16x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| x as u8))
}
#[inline(always)]
pub fn vqmovn_u16(a: uint16x8_t) -> uint8x8_t {
    uint8x8_t(a.0.map(|x| x.clamp(u8::MIN as u16, u8::MAX as u16) as u8))
}
#[inline(always)]
pub fn vmovl_u8(a: uint8x8_t) -> uint16x8_t {
    uint16x8_t(a.0.map(|x| x as u16))
}
#[inline(always)]
pub fn vpaddl_u8(a: uint8x8_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| a.0[2 * i] as u16 + a.0[2 * i + 1] as u16))
}
#[inline(always)]
pub fn vpaddlq_u8(a: uint8x16_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| a.0[2 * i] as u16 + a.0[2 * i + 1] as u16))
}
#[inline(always)]
pub fn vdup_n_s16(a: i16) -> int16x4_t {
    int16x4_t([a; 4])
}
#[inline(always)]
pub fn vmov_n_s16(a: i16) -> int16x4_t {
    int16x4_t([a; 4])
}
#[inline(always)]
pub unsafe fn vld1_s16(p: *const i16) -> int16x4_t {
    int16x4_t((p as *const [i16; 4]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_s16(p: *mut i16, a: int16x4_t) {
    (p as *mut [i16; 4]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_s16(a: int16x4_t) -> i16 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_s16(a: int16x4_t) -> i16 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_s16(a: int16x4_t) -> i16 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    let v: Vec<i16> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int16x4_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_s16<const N: i32>(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 4 { a.0[j] } else { b.0[j - 4] } }))
}
#[inline(always)]
pub fn vzip1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 / 2 + i / 2] } else { b.0[4 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i] } else { b.0[2 * i - 4] }))
}
#[inline(always)]
pub fn vuzp2_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] }))
}
#[inline(always)]
pub fn vceq_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_s16(a: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_s16(a: int16x4_t, b: int16x4_t) -> uint16x4_t {
    uint16x4_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_s16(m: uint16x4_t, a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i16 | b.0[i] & !(m.0[i] as i16)))
}
#[inline(always)]
pub fn vget_lane_s16<const L: i32>(a: int16x4_t) -> i16 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_s16<const L: i32>(a: int16x4_t) -> int16x4_t {
    int16x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vdup_laneq_s16<const L: i32>(a: int16x8_t) -> int16x4_t {
    int16x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vset_lane_s16<const L: i32>(v: i16, a: int16x4_t) -> int16x4_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_s16<const N: i32>(a: int16x4_t) -> int16x4_t {
    assert!((0..16).contains(&N));
    int16x4_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_s16<const N: i32>(a: int16x4_t) -> int16x4_t {
    assert!((1..=16).contains(&N));
    int16x4_t(a.0.map(|x| if N == 16 { x >> 15 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_s16(a: int16x4_t, b: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 16 { 0 } else if k >= 0 { a.0[i] << k } else if k > -16 { a.0[i] >> -k } else { a.0[i] >> 15 } }))
}
#[inline(always)]
pub fn vneg_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabs_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vclz_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| x.leading_zeros() as i16))
}
#[inline(always)]
pub fn vrev32_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev64_s16(a: int16x4_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vdupq_n_s16(a: i16) -> int16x8_t {
    int16x8_t([a; 8])
}
#[inline(always)]
pub fn vmovq_n_s16(a: i16) -> int16x8_t {
    int16x8_t([a; 8])
}
#[inline(always)]
pub unsafe fn vld1q_s16(p: *const i16) -> int16x8_t {
    int16x8_t((p as *const [i16; 8]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_s16(p: *mut i16, a: int16x8_t) {
    (p as *mut [i16; 8]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_s16(a: int16x8_t) -> i16 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_s16(a: int16x8_t) -> i16 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_s16(a: int16x8_t) -> i16 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    let v: Vec<i16> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int16x8_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_s16<const N: i32>(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 8 { a.0[j] } else { b.0[j - 8] } }))
}
#[inline(always)]
pub fn vzip1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[8 / 2 + i / 2] } else { b.0[8 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i] } else { b.0[2 * i - 8] }))
}
#[inline(always)]
pub fn vuzp2q_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i < 8 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 8] }))
}
#[inline(always)]
pub fn vceqq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_s16(a: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_s16(a: int16x8_t, b: int16x8_t) -> uint16x8_t {
    uint16x8_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_s16(m: uint16x8_t, a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i16 | b.0[i] & !(m.0[i] as i16)))
}
#[inline(always)]
pub fn vgetq_lane_s16<const L: i32>(a: int16x8_t) -> i16 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_s16<const L: i32>(a: int16x4_t) -> int16x8_t {
    int16x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vdupq_laneq_s16<const L: i32>(a: int16x8_t) -> int16x8_t {
    int16x8_t([a.0[L as usize]; 8])
}
#[inline(always)]
pub fn vsetq_lane_s16<const L: i32>(v: i16, a: int16x8_t) -> int16x8_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_s16<const N: i32>(a: int16x8_t) -> int16x8_t {
    assert!((0..16).contains(&N));
    int16x8_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_s16<const N: i32>(a: int16x8_t) -> int16x8_t {
    assert!((1..=16).contains(&N));
    int16x8_t(a.0.map(|x| if N == 16 { x >> 15 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_s16(a: int16x8_t, b: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 16 { 0 } else if k >= 0 { a.0[i] << k } else if k > -16 { a.0[i] >> -k } else { a.0[i] >> 15 } }))
}
#[inline(always)]
pub fn vnegq_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabsq_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vclzq_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(a.0.map(|x| x.leading_zeros() as i16))
}
#[inline(always)]
pub fn vrev32q_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vrev64q_s16(a: int16x8_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[i / 4 * 4 + 3 - i % 4]))
}
#[inline(always)]
pub fn vget_low_s16(a: int16x8_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_s16(a: int16x8_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[4 + i]))
}
#[inline(always)]
pub fn vcombine_s16(a: int16x4_t, b: int16x4_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| if i < 4 { a.0[i] } else { b.0[i - 4] }))
}
#[inline(always)]
pub fn vcreate_s16(a: u64) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_s16(a: int16x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x as i8))
}
#[inline(always)]
pub fn vqmovn_s16(a: int16x8_t) -> int8x8_t {
    int8x8_t(a.0.map(|x| x.clamp(i8::MIN as i16, i8::MAX as i16) as i8))
}
#[inline(always)]
pub fn vmovl_s8(a: int8x8_t) -> int16x8_t {
    int16x8_t(a.0.map(|x| x as i16))
}
#[inline(always)]
pub fn vpaddl_s8(a: int8x8_t) -> int16x4_t {
    int16x4_t(std::array::from_fn(|i| a.0[2 * i] as i16 + a.0[2 * i + 1] as i16))
}
#[inline(always)]
pub fn vpaddlq_s8(a: int8x16_t) -> int16x8_t {
    int16x8_t(std::array::from_fn(|i| a.0[2 * i] as i16 + a.0[2 * i + 1] as i16))
}
#[inline(always)]
pub fn vdup_n_u32(a: u32) -> uint32x2_t {
    uint32x2_t([a; 2])
}
#[inline(always)]
pub fn vmov_n_u32(a: u32) -> uint32x2_t {
    uint32x2_t([a; 2])
}
#[inline(always)]
pub unsafe fn vld1_u32(p: *const u32) -> uint32x2_t {
    uint32x2_t((p as *const [u32; 2]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_u32(p: *mut u32, a: uint32x2_t) {
    (p as *mut [u32; 2]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_u32(a: uint32x2_t) -> uint32x2_t {
    uint32x2_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_u32(a: uint32x2_t) -> u32 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_u32(a: uint32x2_t) -> u32 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_u32(a: uint32x2_t) -> u32 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    let v: Vec<u32> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint32x2_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_u32<const N: i32>(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 2 { a.0[j] } else { b.0[j - 2] } }))
}
#[inline(always)]
pub fn vzip1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 / 2 + i / 2] } else { b.0[2 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i] } else { b.0[2 * i - 2] }))
}
#[inline(always)]
pub fn vuzp2_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] }))
}
#[inline(always)]
pub fn vceq_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_u32(a: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_u32(m: uint32x2_t, a: uint32x2_t, b: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u32 | b.0[i] & !(m.0[i] as u32)))
}
#[inline(always)]
pub fn vget_lane_u32<const L: i32>(a: uint32x2_t) -> u32 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_u32<const L: i32>(a: uint32x2_t) -> uint32x2_t {
    uint32x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vdup_laneq_u32<const L: i32>(a: uint32x4_t) -> uint32x2_t {
    uint32x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vset_lane_u32<const L: i32>(v: u32, a: uint32x2_t) -> uint32x2_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_u32<const N: i32>(a: uint32x2_t) -> uint32x2_t {
    assert!((0..32).contains(&N));
    uint32x2_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_u32<const N: i32>(a: uint32x2_t) -> uint32x2_t {
    assert!((1..=32).contains(&N));
    uint32x2_t(a.0.map(|x| if N == 32 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_u32(a: uint32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 32 { 0 } else if k >= 0 { a.0[i] << k } else if k > -32 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vclz_u32(a: uint32x2_t) -> uint32x2_t {
    uint32x2_t(a.0.map(|x| x.leading_zeros() as u32))
}
#[inline(always)]
pub fn vrev64_u32(a: uint32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vdupq_n_u32(a: u32) -> uint32x4_t {
    uint32x4_t([a; 4])
}
#[inline(always)]
pub fn vmovq_n_u32(a: u32) -> uint32x4_t {
    uint32x4_t([a; 4])
}
#[inline(always)]
pub unsafe fn vld1q_u32(p: *const u32) -> uint32x4_t {
    uint32x4_t((p as *const [u32; 4]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_u32(p: *mut u32, a: uint32x4_t) {
    (p as *mut [u32; 4]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_u32(a: uint32x4_t) -> uint32x4_t {
    uint32x4_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_u32(a: uint32x4_t) -> u32 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_u32(a: uint32x4_t) -> u32 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_u32(a: uint32x4_t) -> u32 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    let v: Vec<u32> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint32x4_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_u32<const N: i32>(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 4 { a.0[j] } else { b.0[j - 4] } }))
}
#[inline(always)]
pub fn vzip1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 / 2 + i / 2] } else { b.0[4 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i] } else { b.0[2 * i - 4] }))
}
#[inline(always)]
pub fn vuzp2q_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] }))
}
#[inline(always)]
pub fn vceqq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_u32(a: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_u32(a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_u32(m: uint32x4_t, a: uint32x4_t, b: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u32 | b.0[i] & !(m.0[i] as u32)))
}
#[inline(always)]
pub fn vgetq_lane_u32<const L: i32>(a: uint32x4_t) -> u32 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_u32<const L: i32>(a: uint32x2_t) -> uint32x4_t {
    uint32x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vdupq_laneq_u32<const L: i32>(a: uint32x4_t) -> uint32x4_t {
    uint32x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vsetq_lane_u32<const L: i32>(v: u32, a: uint32x4_t) -> uint32x4_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_u32<const N: i32>(a: uint32x4_t) -> uint32x4_t {
    assert!((0..32).contains(&N));
    uint32x4_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_u32<const N: i32>(a: uint32x4_t) -> uint32x4_t {
    assert!((1..=32).contains(&N));
    uint32x4_t(a.0.map(|x| if N == 32 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_u32(a: uint32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 32 { 0 } else if k >= 0 { a.0[i] << k } else if k > -32 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vclzq_u32(a: uint32x4_t) -> uint32x4_t {
    uint32x4_t(a.0.map(|x| x.leading_zeros() as u32))
}
#[inline(always)]
pub fn vrev64q_u32(a: uint32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vget_low_u32(a: uint32x4_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_u32(a: uint32x4_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[2 + i]))
}
#[inline(always)]
pub fn vcombine_u32(a: uint32x2_t, b: uint32x2_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if i < 2 { a.0[i] } else { b.0[i - 2] }))
}
#[inline(always)]
pub fn vcreate_u32(a: u64) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_u32(a: uint32x4_t) -> uint16x4_t {
    uint16x4_t(a.0.map(|x| x as u16))
}
#[inline(always)]
pub fn vqmovn_u32(a: uint32x4_t) -> uint16x4_t {
    uint16x4_t(a.0.map(|x| x.clamp(u16::MIN as u32, u16::MAX as u32) as u16))
}
#[inline(always)]
pub fn vmovl_u16(a: uint16x4_t) -> uint32x4_t {
    uint32x4_t(a.0.map(|x| x as u32))
}
#[inline(always)]
pub fn vpaddl_u16(a: uint16x4_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| a.0[2 * i] as u32 + a.0[2 * i + 1] as u32))
}
#[inline(always)]
pub fn vpaddlq_u16(a: uint16x8_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| a.0[2 * i] as u32 + a.0[2 * i + 1] as u32))
}
#[inline(always)]
pub fn vdup_n_s32(a: i32) -> int32x2_t {
    int32x2_t([a; 2])
}
#[inline(always)]
pub fn vmov_n_s32(a: i32) -> int32x2_t {
    int32x2_t([a; 2])
}
#[inline(always)]
pub unsafe fn vld1_s32(p: *const i32) -> int32x2_t {
    int32x2_t((p as *const [i32; 2]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_s32(p: *mut i32, a: int32x2_t) {
    (p as *mut [i32; 2]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmul_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvn_s32(a: int32x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmax_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vmin_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxv_s32(a: int32x2_t) -> i32 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminv_s32(a: int32x2_t) -> i32 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddv_s32(a: int32x2_t) -> i32 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpadd_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    let v: Vec<i32> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int32x2_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vext_s32<const N: i32>(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 2 { a.0[j] } else { b.0[j - 2] } }))
}
#[inline(always)]
pub fn vzip1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 / 2 + i / 2] } else { b.0[2 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i] } else { b.0[2 * i - 2] }))
}
#[inline(always)]
pub fn vuzp2_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] }))
}
#[inline(always)]
pub fn vceq_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_s32(a: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_s32(a: int32x2_t, b: int32x2_t) -> uint32x2_t {
    uint32x2_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_s32(m: uint32x2_t, a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i32 | b.0[i] & !(m.0[i] as i32)))
}
#[inline(always)]
pub fn vget_lane_s32<const L: i32>(a: int32x2_t) -> i32 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_s32<const L: i32>(a: int32x2_t) -> int32x2_t {
    int32x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vdup_laneq_s32<const L: i32>(a: int32x4_t) -> int32x2_t {
    int32x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vset_lane_s32<const L: i32>(v: i32, a: int32x2_t) -> int32x2_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_s32<const N: i32>(a: int32x2_t) -> int32x2_t {
    assert!((0..32).contains(&N));
    int32x2_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_s32<const N: i32>(a: int32x2_t) -> int32x2_t {
    assert!((1..=32).contains(&N));
    int32x2_t(a.0.map(|x| if N == 32 { x >> 31 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_s32(a: int32x2_t, b: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 32 { 0 } else if k >= 0 { a.0[i] << k } else if k > -32 { a.0[i] >> -k } else { a.0[i] >> 31 } }))
}
#[inline(always)]
pub fn vneg_s32(a: int32x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabs_s32(a: int32x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vclz_s32(a: int32x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| x.leading_zeros() as i32))
}
#[inline(always)]
pub fn vrev64_s32(a: int32x2_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vdupq_n_s32(a: i32) -> int32x4_t {
    int32x4_t([a; 4])
}
#[inline(always)]
pub fn vmovq_n_s32(a: i32) -> int32x4_t {
    int32x4_t([a; 4])
}
#[inline(always)]
pub unsafe fn vld1q_s32(p: *const i32) -> int32x4_t {
    int32x4_t((p as *const [i32; 4]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_s32(p: *mut i32, a: int32x4_t) {
    (p as *mut [i32; 4]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vmulq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i].wrapping_mul(b.0[i])))
}
#[inline(always)]
pub fn vmvnq_s32(a: int32x4_t) -> int32x4_t {
    int32x4_t(a.0.map(|x| !x))
}
#[inline(always)]
pub fn vmaxq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i].max(b.0[i])))
}
#[inline(always)]
pub fn vminq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i].min(b.0[i])))
}
#[inline(always)]
pub fn vmaxvq_s32(a: int32x4_t) -> i32 {
    a.0.into_iter().max().unwrap()
}
#[inline(always)]
pub fn vminvq_s32(a: int32x4_t) -> i32 {
    a.0.into_iter().min().unwrap()
}
#[inline(always)]
pub fn vaddvq_s32(a: int32x4_t) -> i32 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    let v: Vec<i32> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int32x4_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_s32<const N: i32>(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 4 { a.0[j] } else { b.0[j - 4] } }))
}
#[inline(always)]
pub fn vzip1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[4 / 2 + i / 2] } else { b.0[4 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i] } else { b.0[2 * i - 4] }))
}
#[inline(always)]
pub fn vuzp2q_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i < 4 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 4] }))
}
#[inline(always)]
pub fn vceqq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_s32(a: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_s32(a: int32x4_t, b: int32x4_t) -> uint32x4_t {
    uint32x4_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_s32(m: uint32x4_t, a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i32 | b.0[i] & !(m.0[i] as i32)))
}
#[inline(always)]
pub fn vgetq_lane_s32<const L: i32>(a: int32x4_t) -> i32 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_s32<const L: i32>(a: int32x2_t) -> int32x4_t {
    int32x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vdupq_laneq_s32<const L: i32>(a: int32x4_t) -> int32x4_t {
    int32x4_t([a.0[L as usize]; 4])
}
#[inline(always)]
pub fn vsetq_lane_s32<const L: i32>(v: i32, a: int32x4_t) -> int32x4_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_s32<const N: i32>(a: int32x4_t) -> int32x4_t {
    assert!((0..32).contains(&N));
    int32x4_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_s32<const N: i32>(a: int32x4_t) -> int32x4_t {
    assert!((1..=32).contains(&N));
    int32x4_t(a.0.map(|x| if N == 32 { x >> 31 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_s32(a: int32x4_t, b: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 32 { 0 } else if k >= 0 { a.0[i] << k } else if k > -32 { a.0[i] >> -k } else { a.0[i] >> 31 } }))
}
#[inline(always)]
pub fn vnegq_s32(a: int32x4_t) -> int32x4_t {
    int32x4_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabsq_s32(a: int32x4_t) -> int32x4_t {
    int32x4_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vclzq_s32(a: int32x4_t) -> int32x4_t {
    int32x4_t(a.0.map(|x| x.leading_zeros() as i32))
}
#[inline(always)]
pub fn vrev64q_s32(a: int32x4_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[i / 2 * 2 + 1 - i % 2]))
}
#[inline(always)]
pub fn vget_low_s32(a: int32x4_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_s32(a: int32x4_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[2 + i]))
}
#[inline(always)]
pub fn vcombine_s32(a: int32x2_t, b: int32x2_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| if i < 2 { a.0[i] } else { b.0[i - 2] }))
}
#[inline(always)]
pub fn vcreate_s32(a: u64) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_s32(a: int32x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| x as i16))
}
#[inline(always)]
pub fn vqmovn_s32(a: int32x4_t) -> int16x4_t {
    int16x4_t(a.0.map(|x| x.clamp(i16::MIN as i32, i16::MAX as i32) as i16))
}
#[inline(always)]
pub fn vmovl_s16(a: int16x4_t) -> int32x4_t {
    int32x4_t(a.0.map(|x| x as i32))
}
#[inline(always)]
pub fn vpaddl_s16(a: int16x4_t) -> int32x2_t {
    int32x2_t(std::array::from_fn(|i| a.0[2 * i] as i32 + a.0[2 * i + 1] as i32))
}
#[inline(always)]
pub fn vpaddlq_s16(a: int16x8_t) -> int32x4_t {
    int32x4_t(std::array::from_fn(|i| a.0[2 * i] as i32 + a.0[2 * i + 1] as i32))
}
#[inline(always)]
pub fn vdup_n_u64(a: u64) -> uint64x1_t {
    uint64x1_t([a; 1])
}
#[inline(always)]
pub fn vmov_n_u64(a: u64) -> uint64x1_t {
    uint64x1_t([a; 1])
}
#[inline(always)]
pub unsafe fn vld1_u64(p: *const u64) -> uint64x1_t {
    uint64x1_t((p as *const [u64; 1]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_u64(p: *mut u64, a: uint64x1_t) {
    (p as *mut [u64; 1]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vceq_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_u64(a: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_u64(m: uint64x1_t, a: uint64x1_t, b: uint64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u64 | b.0[i] & !(m.0[i] as u64)))
}
#[inline(always)]
pub fn vget_lane_u64<const L: i32>(a: uint64x1_t) -> u64 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_u64<const L: i32>(a: uint64x1_t) -> uint64x1_t {
    uint64x1_t([a.0[L as usize]; 1])
}
#[inline(always)]
pub fn vdup_laneq_u64<const L: i32>(a: uint64x2_t) -> uint64x1_t {
    uint64x1_t([a.0[L as usize]; 1])
}
#[inline(always)]
pub fn vset_lane_u64<const L: i32>(v: u64, a: uint64x1_t) -> uint64x1_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_u64<const N: i32>(a: uint64x1_t) -> uint64x1_t {
    assert!((0..64).contains(&N));
    uint64x1_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_u64<const N: i32>(a: uint64x1_t) -> uint64x1_t {
    assert!((1..=64).contains(&N));
    uint64x1_t(a.0.map(|x| if N == 64 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_u64(a: uint64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 64 { 0 } else if k >= 0 { a.0[i] << k } else if k > -64 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vdupq_n_u64(a: u64) -> uint64x2_t {
    uint64x2_t([a; 2])
}
#[inline(always)]
pub fn vmovq_n_u64(a: u64) -> uint64x2_t {
    uint64x2_t([a; 2])
}
#[inline(always)]
pub unsafe fn vld1q_u64(p: *const u64) -> uint64x2_t {
    uint64x2_t((p as *const [u64; 2]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_u64(p: *mut u64, a: uint64x2_t) {
    (p as *mut [u64; 2]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vaddvq_u64(a: uint64x2_t) -> u64 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    let v: Vec<u64> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    uint64x2_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 2 { a.0[j] } else { b.0[j - 2] } }))
}
#[inline(always)]
pub fn vzip1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 / 2 + i / 2] } else { b.0[2 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i] } else { b.0[2 * i - 2] }))
}
#[inline(always)]
pub fn vuzp2q_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] }))
}
#[inline(always)]
pub fn vceqq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_u64(a: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_u64(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_u64(m: uint64x2_t, a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[i] & m.0[i] as u64 | b.0[i] & !(m.0[i] as u64)))
}
#[inline(always)]
pub fn vgetq_lane_u64<const L: i32>(a: uint64x2_t) -> u64 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_u64<const L: i32>(a: uint64x1_t) -> uint64x2_t {
    uint64x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vdupq_laneq_u64<const L: i32>(a: uint64x2_t) -> uint64x2_t {
    uint64x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vsetq_lane_u64<const L: i32>(v: u64, a: uint64x2_t) -> uint64x2_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t {
    assert!((0..64).contains(&N));
    uint64x2_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_u64<const N: i32>(a: uint64x2_t) -> uint64x2_t {
    assert!((1..=64).contains(&N));
    uint64x2_t(a.0.map(|x| if N == 64 { 0 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_u64(a: uint64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 64 { 0 } else if k >= 0 { a.0[i] << k } else if k > -64 { a.0[i] >> -k } else { 0 } }))
}
#[inline(always)]
pub fn vget_low_u64(a: uint64x2_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_u64(a: uint64x2_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[1 + i]))
}
#[inline(always)]
pub fn vcombine_u64(a: uint64x1_t, b: uint64x1_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if i < 1 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vcreate_u64(a: u64) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_u64(a: uint64x2_t) -> uint32x2_t {
    uint32x2_t(a.0.map(|x| x as u32))
}
#[inline(always)]
pub fn vqmovn_u64(a: uint64x2_t) -> uint32x2_t {
    uint32x2_t(a.0.map(|x| x.clamp(u32::MIN as u64, u32::MAX as u64) as u32))
}
#[inline(always)]
pub fn vmovl_u32(a: uint32x2_t) -> uint64x2_t {
    uint64x2_t(a.0.map(|x| x as u64))
}
#[inline(always)]
pub fn vpaddl_u32(a: uint32x2_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| a.0[2 * i] as u64 + a.0[2 * i + 1] as u64))
}
#[inline(always)]
pub fn vpaddlq_u32(a: uint32x4_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| a.0[2 * i] as u64 + a.0[2 * i + 1] as u64))
}
#[inline(always)]
pub fn vdup_n_s64(a: i64) -> int64x1_t {
    int64x1_t([a; 1])
}
#[inline(always)]
pub fn vmov_n_s64(a: i64) -> int64x1_t {
    int64x1_t([a; 1])
}
#[inline(always)]
pub unsafe fn vld1_s64(p: *const i64) -> int64x1_t {
    int64x1_t((p as *const [i64; 1]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1_s64(p: *mut i64, a: int64x1_t) {
    (p as *mut [i64; 1]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vand_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorr_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veor_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbic_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vorn_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vadd_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsub_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vceq_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgt_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcge_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vclt_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcle_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqz_s64(a: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtst_s64(a: int64x1_t, b: int64x1_t) -> uint64x1_t {
    uint64x1_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbsl_s64(m: uint64x1_t, a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i64 | b.0[i] & !(m.0[i] as i64)))
}
#[inline(always)]
pub fn vget_lane_s64<const L: i32>(a: int64x1_t) -> i64 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdup_lane_s64<const L: i32>(a: int64x1_t) -> int64x1_t {
    int64x1_t([a.0[L as usize]; 1])
}
#[inline(always)]
pub fn vdup_laneq_s64<const L: i32>(a: int64x2_t) -> int64x1_t {
    int64x1_t([a.0[L as usize]; 1])
}
#[inline(always)]
pub fn vset_lane_s64<const L: i32>(v: i64, a: int64x1_t) -> int64x1_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshl_n_s64<const N: i32>(a: int64x1_t) -> int64x1_t {
    assert!((0..64).contains(&N));
    int64x1_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshr_n_s64<const N: i32>(a: int64x1_t) -> int64x1_t {
    assert!((1..=64).contains(&N));
    int64x1_t(a.0.map(|x| if N == 64 { x >> 63 } else { x >> N }))
}
#[inline(always)]
pub fn vshl_s64(a: int64x1_t, b: int64x1_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 64 { 0 } else if k >= 0 { a.0[i] << k } else if k > -64 { a.0[i] >> -k } else { a.0[i] >> 63 } }))
}
#[inline(always)]
pub fn vneg_s64(a: int64x1_t) -> int64x1_t {
    int64x1_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabs_s64(a: int64x1_t) -> int64x1_t {
    int64x1_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vdupq_n_s64(a: i64) -> int64x2_t {
    int64x2_t([a; 2])
}
#[inline(always)]
pub fn vmovq_n_s64(a: i64) -> int64x2_t {
    int64x2_t([a; 2])
}
#[inline(always)]
pub unsafe fn vld1q_s64(p: *const i64) -> int64x2_t {
    int64x2_t((p as *const [i64; 2]).read_unaligned())
}
#[inline(always)]
pub unsafe fn vst1q_s64(p: *mut i64, a: int64x2_t) {
    (p as *mut [i64; 2]).write_unaligned(a.0)
}
#[inline(always)]
pub fn vandq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] & b.0[i]))
}
#[inline(always)]
pub fn vorrq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] | b.0[i]))
}
#[inline(always)]
pub fn veorq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] ^ b.0[i]))
}
#[inline(always)]
pub fn vbicq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] & !b.0[i]))
}
#[inline(always)]
pub fn vornq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] | !b.0[i]))
}
#[inline(always)]
pub fn vaddq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[i])))
}
#[inline(always)]
pub fn vsubq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i].wrapping_sub(b.0[i])))
}
#[inline(always)]
pub fn vaddvq_s64(a: int64x2_t) -> i64 {
    a.0.into_iter().fold(0, |x, y| x.wrapping_add(y))
}
#[inline(always)]
pub fn vpaddq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    let v: Vec<i64> = a.0.chunks(2).chain(b.0.chunks(2)).map(|c| c[0].wrapping_add(c[1])).collect();
    int64x2_t(v.try_into().unwrap())
}
#[inline(always)]
pub fn vextq_s64<const N: i32>(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| { let j = i + N as usize; if j < 2 { a.0[j] } else { b.0[j - 2] } }))
}
#[inline(always)]
pub fn vzip1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
}
#[inline(always)]
pub fn vzip2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[2 / 2 + i / 2] } else { b.0[2 / 2 + i / 2] }))
}
#[inline(always)]
pub fn vtrn1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vtrn2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i % 2 == 0 { a.0[i + 1] } else { b.0[i] }))
}
#[inline(always)]
pub fn vuzp1q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i] } else { b.0[2 * i - 2] }))
}
#[inline(always)]
pub fn vuzp2q_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i < 2 / 2 { a.0[2 * i + 1] } else { b.0[2 * i + 1 - 2] }))
}
#[inline(always)]
pub fn vceqq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] == b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgtq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] > b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcgeq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] >= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcltq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] < b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vcleq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] <= b.0[i] { !0 } else { 0 }))
}
#[inline(always)]
pub fn vceqzq_s64(a: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] == 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vtstq_s64(a: int64x2_t, b: int64x2_t) -> uint64x2_t {
    uint64x2_t(std::array::from_fn(|i| if a.0[i] & b.0[i] != 0 { !0 } else { 0 }))
}
#[inline(always)]
pub fn vbslq_s64(m: uint64x2_t, a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[i] & m.0[i] as i64 | b.0[i] & !(m.0[i] as i64)))
}
#[inline(always)]
pub fn vgetq_lane_s64<const L: i32>(a: int64x2_t) -> i64 {
    a.0[L as usize]
}
#[inline(always)]
pub fn vdupq_lane_s64<const L: i32>(a: int64x1_t) -> int64x2_t {
    int64x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vdupq_laneq_s64<const L: i32>(a: int64x2_t) -> int64x2_t {
    int64x2_t([a.0[L as usize]; 2])
}
#[inline(always)]
pub fn vsetq_lane_s64<const L: i32>(v: i64, a: int64x2_t) -> int64x2_t {
    let mut a = a;
    a.0[L as usize] = v;
    a
}
#[inline(always)]
pub fn vshlq_n_s64<const N: i32>(a: int64x2_t) -> int64x2_t {
    assert!((0..64).contains(&N));
    int64x2_t(a.0.map(|x| x << N))
}
#[inline(always)]
pub fn vshrq_n_s64<const N: i32>(a: int64x2_t) -> int64x2_t {
    assert!((1..=64).contains(&N));
    int64x2_t(a.0.map(|x| if N == 64 { x >> 63 } else { x >> N }))
}
#[inline(always)]
pub fn vshlq_s64(a: int64x2_t, b: int64x2_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| { let k = b.0[i] as i8 as i32; if k >= 64 { 0 } else if k >= 0 { a.0[i] << k } else if k > -64 { a.0[i] >> -k } else { a.0[i] >> 63 } }))
}
#[inline(always)]
pub fn vnegq_s64(a: int64x2_t) -> int64x2_t {
    int64x2_t(a.0.map(|x| x.wrapping_neg()))
}
#[inline(always)]
pub fn vabsq_s64(a: int64x2_t) -> int64x2_t {
    int64x2_t(a.0.map(|x| x.wrapping_abs()))
}
#[inline(always)]
pub fn vget_low_s64(a: int64x2_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[i]))
}
#[inline(always)]
pub fn vget_high_s64(a: int64x2_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[1 + i]))
}
#[inline(always)]
pub fn vcombine_s64(a: int64x1_t, b: int64x1_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| if i < 1 { a.0[i] } else { b.0[i - 1] }))
}
#[inline(always)]
pub fn vcreate_s64(a: u64) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vmovn_s64(a: int64x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| x as i32))
}
#[inline(always)]
pub fn vqmovn_s64(a: int64x2_t) -> int32x2_t {
    int32x2_t(a.0.map(|x| x.clamp(i32::MIN as i64, i32::MAX as i64) as i32))
}
#[inline(always)]
pub fn vmovl_s32(a: int32x2_t) -> int64x2_t {
    int64x2_t(a.0.map(|x| x as i64))
}
#[inline(always)]
pub fn vpaddl_s32(a: int32x2_t) -> int64x1_t {
    int64x1_t(std::array::from_fn(|i| a.0[2 * i] as i64 + a.0[2 * i + 1] as i64))
}
#[inline(always)]
pub fn vpaddlq_s32(a: int32x4_t) -> int64x2_t {
    int64x2_t(std::array::from_fn(|i| a.0[2 * i] as i64 + a.0[2 * i + 1] as i64))
}
#[inline(always)]
pub fn vreinterpret_s8_u8(a: uint8x8_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_u8(a: uint8x8_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_u8(a: uint8x8_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_u8(a: uint8x8_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_u8(a: uint8x8_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_u8(a: uint8x8_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_u8(a: uint8x8_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_u8(a: uint8x16_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_u8(a: uint8x16_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_u8(a: uint8x16_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_u8(a: uint8x16_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_u8(a: uint8x16_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_u8(a: uint8x16_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_u8(a: uint8x16_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_s8(a: int8x8_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_s8(a: int8x8_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_s8(a: int8x8_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_s8(a: int8x8_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_s8(a: int8x8_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_s8(a: int8x8_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_s8(a: int8x8_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_s8(a: int8x16_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_s8(a: int8x16_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_s8(a: int8x16_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_s8(a: int8x16_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_s8(a: int8x16_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_s8(a: int8x16_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_s8(a: int8x16_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_u16(a: uint16x4_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_u16(a: uint16x4_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_u16(a: uint16x4_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_u16(a: uint16x4_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_u16(a: uint16x4_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_u16(a: uint16x4_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_u16(a: uint16x4_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_u16(a: uint16x8_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_u16(a: uint16x8_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_u16(a: uint16x8_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_u16(a: uint16x8_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_u16(a: uint16x8_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_u16(a: uint16x8_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_u16(a: uint16x8_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_s16(a: int16x4_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_s16(a: int16x4_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_s16(a: int16x4_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_s16(a: int16x4_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_s16(a: int16x4_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_s16(a: int16x4_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_s16(a: int16x4_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_s16(a: int16x8_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_s16(a: int16x8_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_s16(a: int16x8_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_s16(a: int16x8_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_s16(a: int16x8_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_s16(a: int16x8_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_s16(a: int16x8_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_u32(a: uint32x2_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_u32(a: uint32x2_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_u32(a: uint32x2_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_u32(a: uint32x2_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_u32(a: uint32x2_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_u32(a: uint32x2_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_u32(a: uint32x2_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_u32(a: uint32x4_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_u32(a: uint32x4_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_u32(a: uint32x4_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_u32(a: uint32x4_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_u32(a: uint32x4_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_u32(a: uint32x4_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_u32(a: uint32x4_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_s32(a: int32x2_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_s32(a: int32x2_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_s32(a: int32x2_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_s32(a: int32x2_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_s32(a: int32x2_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_s32(a: int32x2_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_s32(a: int32x2_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_s32(a: int32x4_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_s32(a: int32x4_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_s32(a: int32x4_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_s32(a: int32x4_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_s32(a: int32x4_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_s32(a: int32x4_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_s32(a: int32x4_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_u64(a: uint64x1_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_u64(a: uint64x1_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_u64(a: uint64x1_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_u64(a: uint64x1_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_u64(a: uint64x1_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_u64(a: uint64x1_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s64_u64(a: uint64x1_t) -> int64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_u64(a: uint64x2_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_u64(a: uint64x2_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_u64(a: uint64x2_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_u64(a: uint64x2_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_u64(a: uint64x2_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_u64(a: uint64x2_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s64_u64(a: uint64x2_t) -> int64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u8_s64(a: int64x1_t) -> uint8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s8_s64(a: int64x1_t) -> int8x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u16_s64(a: int64x1_t) -> uint16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s16_s64(a: int64x1_t) -> int16x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u32_s64(a: int64x1_t) -> uint32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_s32_s64(a: int64x1_t) -> int32x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpret_u64_s64(a: int64x1_t) -> uint64x1_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u8_s64(a: int64x2_t) -> uint8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s8_s64(a: int64x2_t) -> int8x16_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u16_s64(a: int64x2_t) -> uint16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s16_s64(a: int64x2_t) -> int16x8_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u32_s64(a: int64x2_t) -> uint32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_s32_s64(a: int64x2_t) -> int32x4_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vreinterpretq_u64_s64(a: int64x2_t) -> uint64x2_t {
    unsafe { std::mem::transmute(a) }
}
#[inline(always)]
pub fn vaddvq_u64_(a: uint64x2_t) -> u64 {
    a.0[0].wrapping_add(a.0[1])
}
#[inline(always)]
pub fn vaddd_u64(a: u64, b: u64) -> u64 {
    a.wrapping_add(b)
}
#[inline(always)]
pub fn vsubd_u64(a: u64, b: u64) -> u64 {
    a.wrapping_sub(b)
}
#[inline(always)]
pub fn vpaddd_u64(a: uint64x2_t) -> u64 {
    a.0[0].wrapping_add(a.0[1])
}
#[inline(always)]
pub fn vpmaxqd_u64_(a: uint64x2_t) -> u64 {
    a.0[0].max(a.0[1])
}
#[inline(always)]
pub fn vaddlvq_u8(a: uint8x16_t) -> u16 {
    a.0.iter().map(|x| *x as u16).sum()
}
#[inline(always)]
pub fn vaddlv_u8(a: uint8x8_t) -> u16 {
    a.0.iter().map(|x| *x as u16).sum()
}
}
