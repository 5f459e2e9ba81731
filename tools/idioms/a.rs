//! pairs of functions NAME_a / NAME_b that agree on all inputs without panicking; see ../idioms.py
#![allow(dead_code, clippy::all)]
#![no_std]

// ---- integers
pub fn min_a(x: u32, y: u32) -> u32 { x.min(y) }
pub fn min_b(x: u32, y: u32) -> u32 { if x < y { x } else { y } }
pub fn max8_a(x: u8, y: u8) -> u8 { core::cmp::max(x, y) }
pub fn max8_b(x: u8, y: u8) -> u8 { if x > y { x } else { y } }
pub fn clamp_a(x: u32) -> u32 { x.clamp(3, 99) }
pub fn clamp_b(x: u32) -> u32 { if x < 3 { 3 } else if x > 99 { 99 } else { x } }
pub fn absdiff_a(x: u8, y: u8) -> u8 { x.abs_diff(y) }
pub fn absdiff_b(x: u8, y: u8) -> u8 { if x > y { x - y } else { y - x } }
pub fn satadd_a(x: u8, y: u8) -> u8 { x.saturating_add(y) }
pub fn satadd_b(x: u8, y: u8) -> u8 { let s = x as u16 + y as u16; if s > 255 { 255 } else { s as u8 } }
pub fn satmul_a(x: u8) -> u8 { x.saturating_mul(4) }
pub fn satmul_b(x: u8) -> u8 { if x > 63 { 255 } else { x << 2 } }
pub fn chkadd_a(x: u32, y: u32) -> Option<u32> { x.checked_add(y) }
pub fn chkadd_b(x: u32, y: u32) -> Option<u32> { let s = x as u64 + y as u64; if s >> 32 != 0 { None } else { Some(s as u32) } }
pub fn chksub_a(x: u32, y: u32) -> Option<u32> { x.checked_sub(y) }
pub fn chksub_b(x: u32, y: u32) -> Option<u32> { if x < y { None } else { Some(x - y) } }
pub fn chkmul_a(x: u16, y: u16) -> Option<u16> { x.checked_mul(y) }
pub fn chkmul_b(x: u16, y: u16) -> Option<u16> { let s = x as u32 * y as u32; if s >> 16 != 0 { None } else { Some(s as u16) } }
pub fn chkshl_a(x: u32, n: u32) -> Option<u32> { x.checked_shl(n) }
pub fn chkshl_b(x: u32, n: u32) -> Option<u32> { if n < 32 { Some(x << n) } else { None } }
pub fn wrap_a(x: u32, y: u32) -> u32 { x.wrapping_add(y).wrapping_sub(1).wrapping_neg() }
pub fn wrap_b(x: u32, y: u32) -> u32 { !(x.wrapping_add(y)).wrapping_sub(2) }
pub fn wrapshl_a(x: u32, n: u32) -> u32 { x.wrapping_shl(n) }
pub fn wrapshl_b(x: u32, n: u32) -> u32 { x << (n & 31) }
pub fn ovf_a(x: u32, y: u32) -> (u32, bool) { x.overflowing_add(y) }
pub fn ovf_b(x: u32, y: u32) -> (u32, bool) { (x.wrapping_add(y), x.checked_add(y).is_none()) }
pub fn pow2_a(n: u32) -> u32 { 2u32.pow(n & 15) }
pub fn pow2_b(n: u32) -> u32 { 1 << (n & 15) }
pub fn ispow_a(x: u32) -> bool { x.is_power_of_two() }
pub fn ispow_b(x: u32) -> bool { x.count_ones() == 1 }
pub fn tz_a(x: u8) -> u32 { x.trailing_zeros() }
pub fn tz_b(x: u8) -> u32 { let mut n = 0; while n < 8 && x >> n & 1 == 0 { n += 1 } n }
pub fn lz_a(x: u8) -> u32 { x.leading_zeros() }
pub fn lz_b(x: u8) -> u32 { let mut n = 0; while n < 8 && x << n & 0x80 == 0 { n += 1 } n }
pub fn rot_a(x: u32) -> u32 { x.rotate_right(8) }
pub fn rot_b(x: u32) -> u32 { x >> 8 | x << 24 }
pub fn swap_a(x: u32) -> u32 { x.swap_bytes() }
pub fn swap_b(x: u32) -> u32 { x >> 24 | x >> 8 & 0xff00 | x << 8 & 0xff0000 | x << 24 }
pub fn rev_a(x: u8) -> u8 { x.reverse_bits() }
pub fn rev_b(x: u8) -> u8 { let mut r = 0; for i in 0..8 { if x >> i & 1 == 1 { r |= 0x80 >> i } } r }
pub fn le_a(x: u32) -> [u8; 4] { x.to_le_bytes() }
pub fn le_b(x: u32) -> [u8; 4] { [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] }
pub fn be_a(x: u32) -> [u8; 4] { x.to_be_bytes() }
pub fn be_b(x: u32) -> [u8; 4] { [(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
pub fn fromle_a(x: [u8; 4]) -> u32 { u32::from_le_bytes(x) }
pub fn fromle_b(x: [u8; 4]) -> u32 { x[0] as u32 | (x[1] as u32) << 8 | (x[2] as u32) << 16 | (x[3] as u32) << 24 }
pub fn nebytes_a(x: u32) -> [u8; 4] { x.to_ne_bytes() }
pub fn nebytes_b(x: u32) -> [u8; 4] { x.to_le_bytes() }
pub fn tryfrom_a(x: u32) -> Option<u8> { u8::try_from(x).ok() }
pub fn tryfrom_b(x: u32) -> Option<u8> { if x < 256 { Some(x as u8) } else { None } }
pub fn tryinto_a(x: u32) -> u16 { let r: Result<u16, _> = (x & 0xffff).try_into(); r.unwrap() }
pub fn tryinto_b(x: u32) -> u16 { x as u16 }
pub fn into_a(x: u8) -> u64 { u64::from(x) + <u64 as From<u8>>::from(x) }
pub fn into_b(x: u8) -> u64 { let y: u64 = x.into(); y * 2 }
pub fn frombool_a(x: bool) -> u32 { u32::from(x) }
pub fn frombool_b(x: bool) -> u32 { if x { 1 } else { 0 } }
pub fn divceil_a(x: u32) -> u32 { x.div_ceil(8) }
pub fn divceil_b(x: u32) -> u32 { (x >> 3) + (x & 7 != 0) as u32 }
pub fn isolate_a(x: u32) -> u32 { x & x.wrapping_neg() }
pub fn isolate_b(x: u32) -> u32 { x & !x.wrapping_sub(1) }
pub fn nonzero_a(x: u32) -> Option<u32> { core::num::NonZeroU32::new(x).map(|n| n.get()) }
pub fn nonzero_b(x: u32) -> Option<u32> { if x == 0 { None } else { Some(x) } }
pub fn nextpow_a(x: u8) -> u16 { (x as u16).next_power_of_two() }
pub fn nextpow_b(x: u8) -> u16 { let mut p = 1; while p < x as u16 { p *= 2 } p }
pub fn cmp_a(x: u32, y: u32) -> u8 { match x.cmp(&y) { core::cmp::Ordering::Less => 0, core::cmp::Ordering::Equal => 1, core::cmp::Ordering::Greater => 2 } }
pub fn cmp_b(x: u32, y: u32) -> u8 { if x < y { 0 } else if x == y { 1 } else { 2 } }
pub fn ilog_a(x: u8) -> u32 { if x == 0 { 0 } else { x.ilog2() } }
pub fn ilog_b(x: u8) -> u32 { let mut r = 0; let mut i = 0; while i < 8 { if x >> i & 1 == 1 { r = i } i += 1 } r }
pub fn signed_a(x: u8) -> i16 { x as i8 as i16 }
pub fn signed_b(x: u8) -> i16 { if x & 0x80 != 0 { x as i16 - 256 } else { x as i16 } }
pub fn bitand_a(mut x: u32) -> u32 { x &= 0xff; x |= 0x100; x ^= 1; x <<= 2; x >>= 1; x += 1; x }
pub fn bitand_b(x: u32) -> u32 { ((((x & 0xff) | 0x100) ^ 1) << 1) + 1 }
pub fn rem_a(x: u32) -> u32 { x % 8 + x.rem_euclid(4) + x / 16 }
pub fn rem_b(x: u32) -> u32 { (x & 7) + (x & 3) + (x >> 4) }
pub fn mulconst_a(x: u16) -> u32 { x as u32 * 100 }
pub fn mulconst_b(x: u16) -> u32 { let x = x as u32; (x << 6) + (x << 5) + (x << 2) }
pub fn unsigned_a(x: u32) -> bool { (x as i32) < 0 }
pub fn unsigned_b(x: u32) -> bool { x >> 31 == 1 }
pub fn midp_a(x: u32) -> (u32, u32) { let m = u64::from(x) << 4; (m as u32, (m >> 32) as u32) }
pub fn midp_b(x: u32) -> (u32, u32) { (x << 4, x >> 28) }

// ---- Option / Result / bool
pub fn then_a(x: u32) -> Option<u32> { (x > 3).then(|| x + 0) }
pub fn then_b(x: u32) -> Option<u32> { if x > 3 { Some(x) } else { None } }
pub fn thensome_a(x: u32) -> Option<u32> { (x > 3).then_some(x) }
pub fn thensome_b(x: u32) -> Option<u32> { if x > 3 { Some(x) } else { None } }
pub fn filter_a(x: u32) -> Option<u32> { Some(x).filter(|&v| v != 0) }
pub fn filter_b(x: u32) -> Option<u32> { if x != 0 { Some(x) } else { None } }
fn may(x: u32) -> Option<u32> { if x & 1 == 1 { Some(x) } else { None } }
fn res(x: u32) -> Result<u32, u8> { if x & 1 == 1 { Ok(x) } else { Err(x as u8) } }
pub fn question_a(x: u32) -> Option<u32> { let v = may(x)?; Some(v ^ 1) }
pub fn question_b(x: u32) -> Option<u32> { match may(x) { Some(v) => Some(v ^ 1), None => None } }
pub fn qres_a(x: u32) -> Result<u32, u8> { let v = res(x)?; Ok(v ^ 1) }
pub fn qres_b(x: u32) -> Result<u32, u8> { match res(x) { Ok(v) => Ok(v ^ 1), Err(e) => Err(e) } }
pub fn comb_a(x: u32) -> u32 { may(x).map(|v| v ^ 2).or_else(|| may(x ^ 1)).unwrap_or(0) }
pub fn comb_b(x: u32) -> u32 { if x & 1 == 1 { x ^ 2 } else { x ^ 1 } }
pub fn andthen_a(x: u32) -> Option<u32> { may(x).and_then(|v| may(v >> 1)) }
pub fn andthen_b(x: u32) -> Option<u32> { if x & 3 == 3 { Some(x >> 1) } else { None } }
pub fn mapor_a(x: u32) -> u32 { may(x).map_or(7, |v| v >> 1) + may(x).map_or_else(|| 0, |v| v >> 2) }
pub fn mapor_b(x: u32) -> u32 { if x & 1 == 1 { (x >> 1) + (x >> 2) } else { 7 } }
pub fn issome_a(x: u32) -> bool { may(x).is_some_and(|v| v > 9) || may(x).is_none() }
pub fn issome_b(x: u32) -> bool { x & 1 == 0 || x > 9 }
pub fn letelse_a(x: u32) -> u32 { let Some(v) = may(x) else { return 5 }; v }
pub fn letelse_b(x: u32) -> u32 { if x & 1 == 0 { 5 } else { x } }
pub fn okor_a(x: u32) -> Result<u32, u8> { may(x).ok_or(3) }
pub fn okor_b(x: u32) -> Result<u32, u8> { if x & 1 == 1 { Ok(x) } else { Err(3) } }
pub fn resok_a(x: u32) -> Option<u32> { res(x).ok().or(Some(1)).xor(None) }
pub fn resok_b(x: u32) -> Option<u32> { Some(if x & 1 == 1 { x } else { 1 }) }
pub fn zip_a(x: u32, y: u32) -> Option<(u32, u32)> { may(x).zip(may(y)) }
pub fn zip_b(x: u32, y: u32) -> Option<(u32, u32)> { if x & y & 1 == 1 { Some((x, y)) } else { None } }
pub fn copied_a(x: u32) -> Option<u32> { may(x).as_ref().copied() }
pub fn copied_b(x: u32) -> Option<u32> { may(x).as_ref().cloned() }
pub fn take_a(x: u32) -> (Option<u32>, Option<u32>) { let mut o = may(x); let t = o.take(); (o, t) }
pub fn take_b(x: u32) -> (Option<u32>, Option<u32>) { (None, may(x)) }
pub fn insert_a(x: u32) -> u32 { let mut o = may(x); *o.get_or_insert(4) }
pub fn insert_b(x: u32) -> u32 { may(x).unwrap_or(4) }
pub fn default_a(x: u32) -> u32 { may(x).unwrap_or_default() }
pub fn default_b(x: u32) -> u32 { if x & 1 == 1 { x } else { 0 } }
pub fn flat_a(x: u32) -> Option<u32> { Some(may(x)).flatten() }
pub fn flat_b(x: u32) -> Option<u32> { may(x) }
pub fn expect_a(x: u32) -> u32 { may(x | 1).expect("odd") }
pub fn expect_b(x: u32) -> u32 { x | 1 }
pub fn unwrapres_a(x: u32) -> u32 { res(x).unwrap_or_else(|e| u32::from(e)) }
pub fn unwrapres_b(x: u32) -> u32 { if x & 1 == 1 { x } else { x & 0xff } }
pub fn optcmp_a(x: u32) -> bool { may(x) == Some(7) || may(x) < Some(3) }
pub fn optcmp_b(x: u32) -> bool { x & 1 == 0 || x == 7 || x == 1 }
pub fn boolops_a(x: bool, y: bool) -> bool { (x ^ y) & !(x && y) | (x == y) }
pub fn boolops_b(_x: bool, _y: bool) -> bool { true }
pub fn inspect_a(x: u32) -> Option<u32> { may(x).into_iter().next() }
pub fn inspect_b(x: u32) -> Option<u32> { may(x) }
