#![allow(dead_code, unused)]
use core::convert::TryFrom;
pub fn ainth_a(x: u8) -> u32 { let t = [3u32, 5, 7, 9]; IntoIterator::into_iter(t).nth(x as usize).unwrap_or(0) }
pub fn ainth_b(x: u8) -> u32 { match x { 0 => 3, 1 => 5, 2 => 7, 3 => 9, _ => 0 } }
pub fn ailast_a(a: u32, b: u32) -> u32 { [a, b].into_iter().last().unwrap() }
pub fn ailast_b(a: u32, b: u32) -> u32 { b }
pub fn airev_a(a: u32, b: u32, c: u32) -> u32 { [a, b, c].into_iter().rev().fold(0u32, |s, x| s.rotate_left(8) ^ x) }
pub fn airev_b(a: u32, b: u32, c: u32) -> u32 { c.rotate_left(16) ^ b.rotate_left(8) ^ a }
pub fn nthback_a(a: u32, b: u32, c: u32) -> u32 { *[a, b, c].iter().nth_back(1).unwrap() }
pub fn nthback_b(a: u32, b: u32, c: u32) -> u32 { b }
pub fn rpos_a(a: u8, b: u8, c: u8) -> Option<usize> { [a, b, c].iter().rposition(|x| *x == 0) }
pub fn rpos_b(a: u8, b: u8, c: u8) -> Option<usize> { if c == 0 { Some(2) } else if b == 0 { Some(1) } else if a == 0 { Some(0) } else { None } }
pub fn rfind_a(a: u8, b: u8, c: u8) -> Option<u8> { [a, b, c].iter().copied().rfind(|x| *x > 9) }
pub fn rfind_b(a: u8, b: u8, c: u8) -> Option<u8> { if c > 9 { Some(c) } else if b > 9 { Some(b) } else if a > 9 { Some(a) } else { None } }
pub fn reven_a(a: u32, b: u32) -> u32 { let mut s = 0; for (i, x) in [a, b].iter().rev().enumerate() { s ^= x.rotate_left(i as u32); } s }
pub fn reven_b(a: u32, b: u32) -> u32 { b ^ a.rotate_left(1) }
pub fn enrev_a(a: u32, b: u32) -> u32 { let mut s = 0; for (i, x) in [a, b].iter().enumerate().rev() { s ^= x.rotate_left(i as u32); } s }
pub fn enrev_b(a: u32, b: u32) -> u32 { a ^ b.rotate_left(1) }
pub fn splitf_a(a: u32, b: u32, c: u32) -> u32 { let t = [a, b, c]; let (h, r) = t.split_first().unwrap(); h ^ r[1] }
pub fn splitf_b(a: u32, b: u32, c: u32) -> u32 { a ^ c }
pub fn splitl_a(a: u32, b: u32, c: u32) -> u32 { let t = [a, b, c]; let (h, r) = t.split_last().unwrap(); h ^ r[1] }
pub fn splitl_b(a: u32, b: u32, c: u32) -> u32 { c ^ b }
pub fn fchunk_a(a: u32) -> u16 { let t = a.to_le_bytes(); u16::from_le_bytes(*t.first_chunk().unwrap()) }
pub fn fchunk_b(a: u32) -> u16 { a as u16 }
pub fn eachref_a(a: u32, b: u32) -> u32 { let t = [a, b]; let [x, y] = t.each_ref(); x & y }
pub fn eachref_b(a: u32, b: u32) -> u32 { a & b }
pub fn arrtry_a(a: u32) -> u16 { let t = a.to_le_bytes(); u16::from_le_bytes(<[u8; 2]>::try_from(&t[2..]).unwrap()) }
pub fn arrtry_b(a: u32) -> u16 { (a >> 16) as u16 }
pub fn mapelse_a(x: Option<u32>) -> u32 { x.map_or_else(|| 9, |v| v ^ 1) }
pub fn mapelse_b(x: Option<u32>) -> u32 { match x { Some(v) => v ^ 1, None => 9 } }
pub fn someand_a(x: Option<u32>) -> bool { x.is_some_and(|v| v > 4) }
pub fn someand_b(x: Option<u32>) -> bool { matches!(x, Some(v) if v > 4) }
pub fn oxor_a(x: Option<u32>, y: Option<u32>) -> Option<u32> { x.xor(y) }
pub fn oxor_b(x: Option<u32>, y: Option<u32>) -> Option<u32> { match (x, y) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn orelse_a(x: Option<u32>, y: u32) -> Option<u32> { x.or_else(|| Some(y)) }
pub fn orelse_b(x: Option<u32>, y: u32) -> Option<u32> { Some(match x { Some(v) => v, None => y }) }
pub fn replace_a(x: Option<u32>, y: u32) -> (Option<u32>, Option<u32>) { let mut z = x; let o = z.replace(y); (o, z) }
pub fn replace_b(x: Option<u32>, y: u32) -> (Option<u32>, Option<u32>) { (x, Some(y)) }
pub fn goi_a(x: Option<u32>, y: u32) -> u32 { let mut z = x; *z.get_or_insert_with(|| y) }
pub fn goi_b(x: Option<u32>, y: u32) -> u32 { if let Some(v) = x { v } else { y } }
pub fn asmut_a(x: Option<u32>) -> Option<u32> { let mut z = x; if let Some(v) = z.as_mut() { *v ^= 3; } z }
pub fn asmut_b(x: Option<u32>) -> Option<u32> { x.map(|v| v ^ 3) }
pub fn oiter_a(x: Option<u32>) -> u32 { let mut s = 1; for v in x { s ^= v; } s }
pub fn oiter_b(x: Option<u32>) -> u32 { match x { Some(v) => v ^ 1, None => 1 } }
pub fn oflat_a(x: Option<u32>, y: Option<u32>) -> u32 { [x, y].into_iter().flatten().fold(0, |a, b| a ^ b) }
pub fn oflat_b(x: Option<u32>, y: Option<u32>) -> u32 { x.unwrap_or(0) ^ y.unwrap_or(0) }
pub fn transp_a(x: Option<Result<u32, u8>>) -> Result<Option<u32>, u8> { x.transpose() }
pub fn transp_b(x: Option<Result<u32, u8>>) -> Result<Option<u32>, u8> { match x { Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn chkilog_a(x: u32) -> Option<u32> { x.checked_ilog2() }
pub fn chkilog_b(x: u32) -> Option<u32> { if x == 0 { None } else { Some(31 - x.leading_zeros()) } }
pub fn ubshl_a(x: u32, n: u32) -> u32 { x.checked_shl(n).unwrap_or(0) }
pub fn ubshl_b(x: u32, n: u32) -> u32 { if n < 32 { x << n } else { 0 } }
pub fn sext_a(x: u8) -> u32 { x as i8 as i32 as u32 }
pub fn sext_b(x: u8) -> u32 { if x & 0x80 != 0 { 0xffff_ff00 | x as u32 } else { x as u32 } }
fn bits<const LO: u32, const HI: u32>(x: u32) -> u32 { (x >> LO) & (u32::MAX >> (31 - (HI - LO))) }
pub fn cgen_a(x: u32) -> u32 { bits::<3, 9>(x) }
pub fn cgen_b(x: u32) -> u32 { (x & 0x3ff) >> 3 }
trait Field { const LO: u32; const N: u32; fn of(x: u32) -> u32 { (x >> Self::LO) & ((1 << Self::N) - 1) } }
struct Mid; impl Field for Mid { const LO: u32 = 8; const N: u32 = 8; }
pub fn assoc_a(x: u32) -> u32 { Mid::of(x) }
pub fn assoc_b(x: u32) -> u32 { x.to_le_bytes()[1] as u32 }
fn evens(x: u32) -> impl Iterator<Item = u32> { (0..4u32).filter(|i| i % 2 == 0).map(move |i| x.rotate_left(i)) }
pub fn retit_a(x: u32) -> u32 { evens(x).fold(0, |a, b| a ^ b) }
pub fn retit_b(x: u32) -> u32 { x ^ x.rotate_left(2) }
pub fn tern_a(x: u32) -> u32 { use core::cmp::Ordering::*; match x.cmp(&7) { Less => 1, Equal => 2, Greater => 3 } }
pub fn tern_b(x: u32) -> u32 { if x < 7 { 1 } else if x == 7 { 2 } else { 3 } }
pub fn repeat_a(x: u32) -> u32 { core::iter::repeat(x).take(3).enumerate().fold(0, |a, (i, b)| a ^ b.rotate_left(i as u32)) }
pub fn repeat_b(x: u32) -> u32 { x ^ x.rotate_left(1) ^ x.rotate_left(2) }
pub fn zipfn_a(a: u32, b: u32) -> u32 { core::iter::zip([a, b], [b, a]).map(|(x, y)| x & y).fold(0, |p, q| p | q) }
pub fn zipfn_b(a: u32, b: u32) -> u32 { a & b }
pub fn transm_a(a: u32, b: u32) -> u8 { let t: [u8; 8] = unsafe { core::mem::transmute([a, b]) }; t[5] }
pub fn transm_b(a: u32, b: u32) -> u8 { (b >> 8) as u8 }
pub fn ascii_a(x: u8) -> bool { x.is_ascii_graphic() }
pub fn ascii_b(x: u8) -> bool { x > 0x20 && x < 0x7f }
pub fn upper_a(x: u8) -> u8 { x.to_ascii_uppercase() }
pub fn upper_b(x: u8) -> u8 { if x >= b'a' && x <= b'z' { x - 32 } else { x } }
pub fn nmul_a(x: u8) -> u32 { (x as u32).next_multiple_of(8) }
pub fn nmul_b(x: u8) -> u32 { (x as u32 + 7) / 8 * 8 }
pub fn u128le_a(a: u32, b: u32) -> u128 { let mut t = [0u8; 16]; t[..4].copy_from_slice(&a.to_le_bytes()); t[8..12].copy_from_slice(&b.to_le_bytes()); u128::from_le_bytes(t) }
pub fn u128le_b(a: u32, b: u32) -> u128 { a as u128 | (b as u128) << 64 }
pub fn steprev_a(x: u32) -> u32 { let mut s = 0; for i in (0..6).rev().step_by(2) { s ^= x.rotate_left(i); } s }
pub fn steprev_b(x: u32) -> u32 { x.rotate_left(5) ^ x.rotate_left(3) ^ x.rotate_left(1) }
pub fn loopbr_a(x: u32) -> u32 { let mut i = 0; let r = loop { if x & (1 << i) != 0 { break i; } i += 1; if i == 4 { break 9; } }; r }
pub fn loopbr_b(x: u32) -> u32 { if x & 15 == 0 { 9 } else { x.trailing_zeros() } }
pub fn whlet_a(a: u8, b: u8) -> u32 { let t = [a, b]; let mut it = t.iter(); let mut s = 0u32; while let Some(&x) = it.next() { s += x as u32; } s }
pub fn whlet_b(a: u8, b: u8) -> u32 { a as u32 + b as u32 }
pub fn bits32_a(x: u32) -> u32 { (0..32).filter(|i| x >> i & 1 == 1).count() as u32 }
pub fn bits32_b(x: u32) -> u32 { x.count_ones() }
pub fn minbyk_a(a: u8, b: u8) -> u8 { *[a, b].iter().min_by_key(|x| **x).unwrap() }
pub fn minbyk_b(a: u8, b: u8) -> u8 { if b < a { b } else { a } }
pub fn partn_a(a: u8) -> bool { (1..=3).contains(&a) || a == 9 }
pub fn partn_b(a: u8) -> bool { matches!(a, 1..=3 | 9) }
pub fn trysum_a(a: u8, b: u8) -> Option<u8> { [a, b].iter().try_fold(0u8, |s, x| s.checked_add(*x)) }
pub fn trysum_b(a: u8, b: u8) -> Option<u8> { a.checked_add(b) }
pub fn isall_a(a: u32, b: u32) -> bool { [a, b] == [0; 2] }
pub fn isall_b(a: u32, b: u32) -> bool { a | b == 0 }
pub fn tupcmp_a(a: u8, b: u8, c: u8, d: u8) -> bool { (a, b) < (c, d) }
pub fn tupcmp_b(a: u8, b: u8, c: u8, d: u8) -> bool { a < c || (a == c && b < d) }
#[derive(Clone, Copy, PartialEq, PartialOrd, Eq, Ord)] enum L { A, B, C }
pub fn enord_a(x: u8) -> bool { let l = match x { 0 => L::A, 1 => L::B, _ => L::C }; l >= L::B }
pub fn enord_b(x: u8) -> bool { x != 0 }
#[derive(Clone, Default)] struct Acc { n: u32, seen: Option<u8> }
impl Acc { fn with(mut self, x: u8) -> Self { self.n += x as u32; self.seen = Some(x); self } }
pub fn build_a(a: u8, b: u8) -> (u32, Option<u8>) { let t = Acc::default().with(a).with(b); (t.n, t.seen) }
pub fn build_b(a: u8, b: u8) -> (u32, Option<u8>) { (a as u32 + b as u32, Some(b)) }
pub fn upd_a(a: u8) -> (u32, Option<u8>) { let t = Acc { seen: Some(a), ..Default::default() }; (t.n, t.seen) }
pub fn upd_b(a: u8) -> (u32, Option<u8>) { (0, Some(a)) }
pub fn ctrl_a(a: u8) -> u32 { use core::ops::ControlFlow; let r = (0..8u32).try_for_each(|i| if a >> i & 1 == 1 { ControlFlow::Break(i) } else { ControlFlow::Continue(()) }); match r { ControlFlow::Break(i) => i, _ => 8 } }
pub fn ctrl_b(a: u8) -> u32 { a.trailing_zeros() }
pub fn strpre_a(x: u8) -> bool { let s = match x { 0 => "Genuine", 1 => "Auth", _ => "" }; s.starts_with("Gen") }
pub fn strpre_b(x: u8) -> bool { x == 0 }
pub fn swapix_a(a: u32, b: u32, c: u32) -> [u32; 3] { let mut t = [a, b, c]; t.swap(0, 2); t }
pub fn swapix_b(a: u32, b: u32, c: u32) -> [u32; 3] { [c, b, a] }
pub fn reva_a(a: u32, b: u32, c: u32) -> [u32; 3] { let mut t = [a, b, c]; t.reverse(); t }
pub fn reva_b(a: u32, b: u32, c: u32) -> [u32; 3] { [c, b, a] }
pub fn fill_a(a: u8) -> [u8; 4] { let mut t = [1u8; 4]; t[1..3].fill(a); t }
pub fn fill_b(a: u8) -> [u8; 4] { [1, a, a, 1] }
pub fn rotl_a(a: u8, b: u8, c: u8) -> [u8; 3] { let mut t = [a, b, c]; t.rotate_left(1); t }
pub fn rotl_b(a: u8, b: u8, c: u8) -> [u8; 3] { [b, c, a] }
pub fn concat_a(a: u8) -> u8 { let [_, .., y] = [1, 2, a]; y }
pub fn concat_b(a: u8) -> u8 { a }
pub fn nzu_a(a: u32) -> Option<u32> { core::num::NonZeroU32::new(a & 7).map(|x| x.get()) }
pub fn nzu_b(a: u32) -> Option<u32> { match a & 7 { 0 => None, x => Some(x) } }
pub fn cell_a(a: u32) -> u32 { let c = core::cell::Cell::new(a); c.set(c.get() ^ 1); c.replace(0) }
pub fn cell_b(a: u32) -> u32 { a ^ 1 }
pub fn dynfn_a(a: u32, k: bool) -> u32 { let f = |x: u32| x ^ 1; let g = |x: u32| x & 3; let h: &dyn Fn(u32) -> u32 = if k { &f } else { &g }; h(a) }
pub fn dynfn_b(a: u32, k: bool) -> u32 { if k { a ^ 1 } else { a & 3 } }
pub fn bpre_a(x: u32) -> bool { x.to_le_bytes().starts_with(b"Ge") }
pub fn bpre_b(x: u32) -> bool { x & 0xffff == 0x6547 }
pub fn bsuf_a(x: u32) -> bool { x.to_le_bytes()[..].ends_with(&[7, 0]) }
pub fn bsuf_b(x: u32) -> bool { x >> 16 == 7 }
pub fn arrenumfind_a(x: u8) -> u8 { IntoIterator::into_iter([7u8, 9, 11]).enumerate().find(|(n, _)| *n + 1 == x as usize).map(|(_, t)| t).unwrap_or(0) }
pub fn arrenumfind_b(x: u8) -> u8 { match x { 1 => 7, 2 => 9, 3 => 11, _ => 0 } }
pub fn arrtryrev_a(x: u8) -> u8 { IntoIterator::into_iter([7u8, 9, 11]).enumerate().rev().find(|(_, t)| *t <= x).map(|(n, _)| n as u8).unwrap_or(9) }
pub fn arrtryrev_b(x: u8) -> u8 { if x >= 11 { 2 } else if x >= 9 { 1 } else if x >= 7 { 0 } else { 9 } }
pub fn arrtryfold_a(x: u32) -> Option<u32> { IntoIterator::into_iter([x, 1, 2]).try_fold(0u32, |a, v| a.checked_add(v)) }
pub fn arrtryfold_b(x: u32) -> Option<u32> { x.checked_add(1)?.checked_add(2) }
