// shifts and masks for multiplication, division and remainder
mod shifts {
use super::*;
pub broadcast proof fn shr_usize_1(x: usize) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn shr_usize_2(x: usize) ensures #[trigger] (x >> 2) == x / 4 { assert((x >> 2) == x / 4) by (bit_vector); }
pub broadcast proof fn shr_usize_3(x: usize) ensures #[trigger] (x >> 3) == x / 8 { assert((x >> 3) == x / 8) by (bit_vector); }
pub broadcast proof fn shr_usize_4(x: usize) ensures #[trigger] (x >> 4) == x / 16 { assert((x >> 4) == x / 16) by (bit_vector); }
pub broadcast proof fn and_usize_1(x: usize) ensures #[trigger] (x & 1) == x % 2 { assert((x & 1) == x % 2) by (bit_vector); }
pub broadcast proof fn and_usize_3(x: usize) ensures #[trigger] (x & 3) == x % 4 { assert((x & 3) == x % 4) by (bit_vector); }
pub broadcast proof fn and_usize_7(x: usize) ensures #[trigger] (x & 7) == x % 8 { assert((x & 7) == x % 8) by (bit_vector); }
pub broadcast proof fn shl_usize_1(x: usize) requires x <= 0xfff_ffff_ffff_ffff ensures #[trigger] (x << 1) == x * 2 { assert((x << 1) == x * 2) by (bit_vector) requires x <= 0xfff_ffff_ffff_ffff; }
pub broadcast proof fn shl_usize_2(x: usize) requires x <= 0xfff_ffff_ffff_ffff ensures #[trigger] (x << 2) == x * 4 { assert((x << 2) == x * 4) by (bit_vector) requires x <= 0xfff_ffff_ffff_ffff; }
pub broadcast proof fn shl_usize_3(x: usize) requires x <= 0xfff_ffff_ffff_ffff ensures #[trigger] (x << 3) == x * 8 { assert((x << 3) == x * 8) by (bit_vector) requires x <= 0xfff_ffff_ffff_ffff; }
pub broadcast proof fn shr_i32_1(x: i32) requires 0 <= x ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn shr_i32_2(x: i32) requires 0 <= x ensures #[trigger] (x >> 2) == x / 4 { assert((x >> 2) == x / 4) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn shr_i32_3(x: i32) requires 0 <= x ensures #[trigger] (x >> 3) == x / 8 { assert((x >> 3) == x / 8) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn shr_i32_4(x: i32) requires 0 <= x ensures #[trigger] (x >> 4) == x / 16 { assert((x >> 4) == x / 16) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn and_i32_1(x: i32) requires 0 <= x ensures #[trigger] (x & 1) == x % 2 { assert((x & 1) == x % 2) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn and_i32_3(x: i32) requires 0 <= x ensures #[trigger] (x & 3) == x % 4 { assert((x & 3) == x % 4) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn and_i32_7(x: i32) requires 0 <= x ensures #[trigger] (x & 7) == x % 8 { assert((x & 7) == x % 8) by (bit_vector) requires 0 <= x; }
pub broadcast proof fn shl_i32_1(x: i32) requires 0 <= x <= 0xfff_ffff ensures #[trigger] (x << 1) == x * 2 { assert((x << 1) == x * 2) by (bit_vector) requires 0 <= x <= 0xfff_ffff; }
pub broadcast proof fn shl_i32_2(x: i32) requires 0 <= x <= 0xfff_ffff ensures #[trigger] (x << 2) == x * 4 { assert((x << 2) == x * 4) by (bit_vector) requires 0 <= x <= 0xfff_ffff; }
pub broadcast proof fn shl_i32_3(x: i32) requires 0 <= x <= 0xfff_ffff ensures #[trigger] (x << 3) == x * 8 { assert((x << 3) == x * 8) by (bit_vector) requires 0 <= x <= 0xfff_ffff; }
pub broadcast proof fn shr_u16_1(x: u16) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn shr_u16_2(x: u16) ensures #[trigger] (x >> 2) == x / 4 { assert((x >> 2) == x / 4) by (bit_vector); }
pub broadcast proof fn shr_u16_3(x: u16) ensures #[trigger] (x >> 3) == x / 8 { assert((x >> 3) == x / 8) by (bit_vector); }
pub broadcast proof fn shr_u16_4(x: u16) ensures #[trigger] (x >> 4) == x / 16 { assert((x >> 4) == x / 16) by (bit_vector); }
pub broadcast proof fn shr_u16_5(x: u16) ensures #[trigger] (x >> 5) == x / 32 { assert((x >> 5) == x / 32) by (bit_vector); }
pub broadcast proof fn shr_u16_6(x: u16) ensures #[trigger] (x >> 6) == x / 64 { assert((x >> 6) == x / 64) by (bit_vector); }
pub broadcast proof fn shr_u16_7(x: u16) ensures #[trigger] (x >> 7) == x / 128 { assert((x >> 7) == x / 128) by (bit_vector); }
pub broadcast proof fn and_u16_1(x: u16) ensures #[trigger] (x & 1) == x % 2 { assert((x & 1) == x % 2) by (bit_vector); }
pub broadcast proof fn and_u16_3(x: u16) ensures #[trigger] (x & 3) == x % 4 { assert((x & 3) == x % 4) by (bit_vector); }
pub broadcast proof fn and_u16_7(x: u16) ensures #[trigger] (x & 7) == x % 8 { assert((x & 7) == x % 8) by (bit_vector); }
pub broadcast proof fn shl_u16_1(x: u16) requires x <= 0x7fff ensures #[trigger] (x << 1) == x * 2 { assert((x << 1) == x * 2) by (bit_vector) requires x <= 0x7fff; }
pub broadcast proof fn or_u16(x: u16, b: u16) requires x % 2 == 0, b <= 1 ensures #[trigger] (x | b) == x + b { assert((x | b) == x + b) by (bit_vector) requires x % 2 == 0, b <= 1; }
pub broadcast group forms { shr_usize_1, shr_usize_2, shr_usize_3, shr_usize_4, and_usize_1, and_usize_3, and_usize_7, shl_usize_1, shl_usize_2, shl_usize_3, shr_i32_1, shr_i32_2, shr_i32_3, shr_i32_4, and_i32_1, and_i32_3, and_i32_7, shl_i32_1, shl_i32_2, shl_i32_3, shr_u16_1, shr_u16_2, shr_u16_3, shr_u16_4, shr_u16_5, shr_u16_6, shr_u16_7, and_u16_1, and_u16_3, and_u16_7, shl_u16_1, or_u16 }
}
broadcast use shifts::forms;
