#![allow(dead_code, clippy::all)]
#![no_std]
// ---- arrays, slices, iterators
static TAB: [(u8, u16); 6] = [(1, 10), (2, 20), (4, 40), (0x20, 99), (0x80, 77), (0xff, 5)];
const CTAB: [u8; 4] = [3, 9, 0x40, 0xf0];
pub fn contains_a(x: u8) -> bool { [1u8, 5, 9].contains(&x) }
pub fn contains_b(x: u8) -> bool { x == 1 || x == 5 || x == 9 }
pub fn strcontains_a(x: bool) -> bool { let s = if x { "ab" } else { "abc" }; ["ab", "c"].contains(&s) }
pub fn strcontains_b(x: bool) -> bool { x }
pub fn rangec_a(x: u32) -> bool { (2..=4).contains(&x) || (7..9).contains(&x) || (100..).contains(&x) }
pub fn rangec_b(x: u32) -> bool { matches!(x, 2 | 3 | 4 | 7 | 8 | 100..=u32::MAX) }
pub fn find_a(x: u8) -> Option<u16> { TAB.iter().find(|e| e.0 == x).map(|e| e.1) }
pub fn find_b(x: u8) -> Option<u16> { match x { 1 => Some(10), 2 => Some(20), 4 => Some(40), 0x20 => Some(99), 0x80 => Some(77), 0xff => Some(5), _ => None } }
pub fn findmap_a(x: u8) -> Option<u16> { TAB.iter().find_map(|&(k, v)| if k == x { Some(v) } else { None }) }
pub fn findmap_b(x: u8) -> Option<u16> { for (k, v) in TAB.iter() { if *k == x { return Some(*v); } } None }
pub fn position_a(x: u8) -> Option<usize> { CTAB.iter().position(|&e| e == x) }
pub fn position_b(x: u8) -> Option<usize> { let mut i = 0; while i < CTAB.len() { if CTAB[i] == x { return Some(i); } i += 1; } None }
pub fn bsearch_a(x: u8) -> bool { CTAB.binary_search(&x).is_ok() }
pub fn bsearch_b(x: u8) -> bool { CTAB.contains(&x) }
pub fn get_a(x: usize) -> u8 { CTAB.get(x).copied().unwrap_or(0) }
pub fn get_b(x: usize) -> u8 { if x < 4 { CTAB[x] } else { 0 } }
pub fn index_a(x: u32) -> u8 { CTAB[(x & 3) as usize] }
pub fn index_b(x: u32) -> u8 { match x % 4 { 0 => 3, 1 => 9, 2 => 0x40, _ => 0xf0 } }
pub fn dynarr_a(a: u32, b: u32, i: u32) -> u32 { let r = [a, b, 7, a ^ b]; r[i as usize % 4] }
pub fn dynarr_b(a: u32, b: u32, i: u32) -> u32 { match i & 3 { 0 => a, 1 => b, 2 => 7, _ => a ^ b } }
pub fn any_a(x: [u8; 4]) -> bool { x.iter().any(|&b| b == 0) }
pub fn any_b(x: [u8; 4]) -> bool { x[0] == 0 || x[1] == 0 || x[2] == 0 || x[3] == 0 }
pub fn all_a(x: [u8; 4]) -> bool { x.iter().all(|b| *b != 0) }
pub fn all_b(x: [u8; 4]) -> bool { !any_b(x) }
pub fn fold_a(x: [u8; 4]) -> u32 { x.iter().rev().fold(0, |a, &b| a << 8 | b as u32) }
pub fn fold_b(x: [u8; 4]) -> u32 { u32::from_le_bytes(x) }
pub fn enum_a(x: [u8; 4]) -> u32 { let mut r = 0; for (i, b) in x.iter().enumerate() { r |= (*b as u32) << (8 * i); } r }
pub fn enum_b(x: [u8; 4]) -> u32 { u32::from_le_bytes(x) }
pub fn intoiter_a(x: [u8; 4]) -> u32 { let mut r = 0; for b in x { r = r << 8 | u32::from(b); } r }
pub fn intoiter_b(x: [u8; 4]) -> u32 { u32::from_be_bytes(x) }
pub fn zipit_a(x: [u8; 3], y: [u8; 3]) -> bool { x.iter().zip(y.iter()).all(|(a, b)| a == b) }
pub fn zipit_b(x: [u8; 3], y: [u8; 3]) -> bool { x == y }
pub fn sum_a(x: [u8; 4]) -> u32 { x.iter().map(|&b| b as u32).sum() }
pub fn sum_b(x: [u8; 4]) -> u32 { x[0] as u32 + x[1] as u32 + x[2] as u32 + x[3] as u32 }
pub fn count_a(x: u8) -> usize { (0..8).filter(|i| x >> i & 1 == 1).count() }
pub fn count_b(x: u8) -> usize { x.count_ones() as usize }
pub fn rangefind_a(x: u8) -> Option<u32> { (0..8u32).find(|i| x >> i & 1 == 1) }
pub fn rangefind_b(x: u8) -> Option<u32> { if x == 0 { None } else { Some(x.trailing_zeros()) } }
pub fn rangerev_a(x: u8) -> Option<u32> { (0..8u32).rev().find(|i| x >> i & 1 == 1) }
pub fn rangerev_b(x: u8) -> Option<u32> { if x == 0 { None } else { Some(7 - x.leading_zeros()) } }
pub fn stepby_a(x: u32) -> u32 { let mut r = 0; for s in (0..32).step_by(8) { r ^= x >> s & 0xff; } r }
pub fn stepby_b(x: u32) -> u32 { (x ^ x >> 8 ^ x >> 16 ^ x >> 24) & 0xff }
pub fn rangeinc_a(x: u32) -> u32 { let mut r = 0; for i in 0..=3 { r += x >> (i * 8) & 1; } r }
pub fn rangeinc_b(x: u32) -> u32 { (x & 1) + (x >> 8 & 1) + (x >> 16 & 1) + (x >> 24 & 1) }
pub fn slicepat_a(x: [u8; 4]) -> u8 { match x { [1, _, _, d] => d, [a, .., 2] => a, _ => 9 } }
pub fn slicepat_b(x: [u8; 4]) -> u8 { if x[0] == 1 { x[3] } else if x[3] == 2 { x[0] } else { 9 } }
pub fn subslice_a(x: [u8; 4]) -> u8 { let s = &x[1..3]; s[0] ^ s[s.len() - 1] }
pub fn subslice_b(x: [u8; 4]) -> u8 { x[1] ^ x[2] }
pub fn chunks_a(x: [u8; 4]) -> u16 { x.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).fold(0, |a, b| a ^ b) }
pub fn chunks_b(x: [u8; 4]) -> u16 { (x[0] ^ x[2]) as u16 | ((x[1] ^ x[3]) as u16) << 8 }
pub fn chunksex_a(x: [u8; 4]) -> u16 { let mut r = 0; for c in x.chunks_exact(2) { r ^= u16::from_le_bytes([c[0], c[1]]); } r }
pub fn chunksex_b(x: [u8; 4]) -> u16 { (x[0] ^ x[2]) as u16 | ((x[1] ^ x[3]) as u16) << 8 }
pub fn windows_a(x: [u8; 3]) -> bool { x.windows(2).all(|w| w[0] <= w[1]) }
pub fn windows_b(x: [u8; 3]) -> bool { x[0] <= x[1] && x[1] <= x[2] }
pub fn copyfrom_a(a: u32, b: u32) -> [u8; 8] { let mut r = [0u8; 8]; r[..4].copy_from_slice(&a.to_le_bytes()); r[4..].copy_from_slice(&b.to_le_bytes()); r }
pub fn copyfrom_b(a: u32, b: u32) -> [u8; 8] { let (a, b) = (a.to_le_bytes(), b.to_le_bytes()); [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]] }
pub fn itermut_a(a: u32, b: u32) -> [u32; 2] { let mut r = [a, b]; for x in r.iter_mut() { *x ^= 1; } r }
pub fn itermut_b(a: u32, b: u32) -> [u32; 2] { [a ^ 1, b ^ 1] }
pub fn map_a(x: [u32; 2]) -> [u32; 2] { x.map(|v| v >> 4) }
pub fn map_b(x: [u32; 2]) -> [u32; 2] { [x[0] >> 4, x[1] >> 4] }
pub fn fromfn_a(x: u32) -> [u8; 4] { core::array::from_fn(|i| (x >> (8 * i)) as u8) }
pub fn fromfn_b(x: u32) -> [u8; 4] { x.to_le_bytes() }
pub fn iterfn_a(x: u8) -> u32 { let mut v = x; core::iter::from_fn(|| if v == 0 { None } else { let b = v & v.wrapping_neg(); v ^= b; Some(b) }).count() as u32 }
pub fn iterfn_b(x: u8) -> u32 { x.count_ones() }
pub fn last_a(x: [u8; 4]) -> u8 { *x.last().unwrap() ^ *x.first().unwrap() }
pub fn last_b(x: [u8; 4]) -> u8 { x[3] ^ x[0] }
pub fn skip_a(x: [u8; 4]) -> u8 { x.iter().skip(1).take(2).fold(0, |a, b| a ^ b) }
pub fn skip_b(x: [u8; 4]) -> u8 { x[1] ^ x[2] }
pub fn chain_a(x: [u8; 2], y: [u8; 2]) -> u8 { x.iter().chain(y.iter()).fold(0, |a, b| a ^ b) }
pub fn chain_b(x: [u8; 2], y: [u8; 2]) -> u8 { x[0] ^ x[1] ^ y[0] ^ y[1] }
pub fn maxit_a(x: [u8; 3]) -> u8 { x.iter().copied().max().unwrap() }
pub fn maxit_b(x: [u8; 3]) -> u8 { x[0].max(x[1]).max(x[2]) }
pub fn eqarr_a(x: [u8; 4]) -> bool { x == *b"amd!" }
pub fn eqarr_b(x: [u8; 4]) -> bool { u32::from_le_bytes(x) == 0x21646d61 }
pub fn eqslice_a(x: [u8; 4]) -> bool { &x[..] == b"amd!" }
pub fn eqslice_b(x: [u8; 4]) -> bool { u32::from_le_bytes(x) == 0x21646d61 }
pub fn takewhile_a(x: [u8; 4]) -> usize { x.iter().take_while(|&&b| b != 0).count() }
pub fn takewhile_b(x: [u8; 4]) -> usize { x.iter().position(|&b| b == 0).unwrap_or(4) }
pub fn nth_a(x: [u8; 4]) -> Option<u8> { x.iter().nth(2).copied() }
pub fn nth_b(x: [u8; 4]) -> Option<u8> { Some(x[2]) }
pub fn peek_a(x: [u8; 2]) -> u8 { let mut p = x.iter().peekable(); let f = **p.peek().unwrap(); f ^ *p.next().unwrap() ^ *p.next().unwrap() }
pub fn peek_b(x: [u8; 2]) -> u8 { x[1] }
pub fn splitat_a(x: [u8; 4]) -> u8 { let (a, b) = x.split_at(1); a[0] ^ b[2] }
pub fn splitat_b(x: [u8; 4]) -> u8 { x[0] ^ x[3] }
pub fn flatmap_a(a: u16, b: u16) -> u8 { [a, b].iter().flat_map(|w| w.to_le_bytes()).fold(0, |x, y| x ^ y) }
pub fn flatmap_b(a: u16, b: u16) -> u8 { (a ^ b ^ (a >> 8) ^ (b >> 8)) as u8 }
pub fn foreach_a(x: [u8; 3]) -> u8 { let mut r = 0; x.iter().for_each(|b| r ^= b); r }
pub fn foreach_b(x: [u8; 3]) -> u8 { x[0] ^ x[1] ^ x[2] }
pub fn labeled_a(x: u8) -> u32 { let mut n = 0; 'o: for i in 0..4 { for j in 0..2 { if x >> (2 * i + j) & 1 == 1 { break 'o; } n += 1; } } n }
pub fn labeled_b(x: u8) -> u32 { x.trailing_zeros() }
pub fn filtermap_a(x: [u8; 3]) -> u32 { x.iter().filter_map(|&b| if b > 9 { Some(b as u32) } else { None }).sum() }
pub fn filtermap_b(x: [u8; 3]) -> u32 { let mut s = 0; for b in x { if b > 9 { s += b as u32 } } s }
pub fn successors_a(x: u8) -> u32 { core::iter::successors(Some(x), |v| if *v > 1 { Some(v >> 1) } else { None }).count() as u32 }
pub fn successors_b(x: u8) -> u32 { if x == 0 { 1 } else { 8 - x.leading_zeros() } }
// ---- structs, enums, generics, closures
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct P { a: u32, b: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
enum E { A = 0, B = 1, C = 4 }
impl From<u32> for E { fn from(x: u32) -> E { match x & 7 { 0 => E::A, 1 => E::B, _ => E::C } } }
pub fn update_a(x: u32) -> (u32, u8) { let p = P { a: x, ..Default::default() }; (p.a, p.b) }
pub fn update_b(x: u32) -> (u32, u8) { (x, 0) }
pub fn enumcast_a(x: u32) -> u8 { E::from(x) as u8 }
pub fn enumcast_b(x: u32) -> u8 { let e: E = x.into(); match e { E::A => 0, E::B => 1, E::C => 4 } }
pub fn enumeq_a(x: u32) -> bool { E::from(x) == E::B }
pub fn enumeq_b(x: u32) -> bool { matches!(E::from(x), E::B) }
pub fn structeq_a(x: u32, y: u8) -> bool { P { a: x, b: y } == P { a: 3, b: 4 } }
pub fn structeq_b(x: u32, y: u8) -> bool { x == 3 && y == 4 }
fn apply<F: Fn(u32) -> u32>(f: F, x: u32) -> u32 { f(x) }
pub fn closure_a(x: u32, k: u32) -> u32 { apply(|v| v ^ k, x) }
pub fn closure_b(x: u32, k: u32) -> u32 { x ^ k }
pub fn fnptr_a(x: u32, c: bool) -> u32 { let f: fn(u32) -> u32 = if c { low } else { high }; f(x) }
fn low(x: u32) -> u32 { x & 0xffff }
fn high(x: u32) -> u32 { x >> 16 }
pub fn fnptr_b(x: u32, c: bool) -> u32 { if c { x & 0xffff } else { x >> 16 } }
pub fn fnitem_a(x: u32) -> Option<u32> { Some(x).map(low) }
pub fn fnitem_b(x: u32) -> Option<u32> { Some(x & 0xffff) }
pub fn ctorfn_a(x: u32) -> Option<Option<u32>> { Some(x).map(Some) }
pub fn ctorfn_b(x: u32) -> Option<Option<u32>> { Some(Some(x)) }
trait T { fn v(&self) -> u32; fn w(&self) -> u32 { self.v() ^ 1 } }
impl T for P { fn v(&self) -> u32 { self.a } }
pub fn dynd_a(x: u32) -> u32 { let p = P { a: x, b: 0 }; let d: &dyn T = &p; d.w() }
pub fn dynd_b(x: u32) -> u32 { x ^ 1 }
pub fn matchtuple_a(x: u8, y: u8) -> u8 { match (x, y) { (0, b) => b, (a, 0) => a, (a @ 1..=9, _) => a, _ if x > y => x, _ => y } }
pub fn matchtuple_b(x: u8, y: u8) -> u8 { if x == 0 { y } else if y == 0 { x } else if x < 10 { x } else if x > y { x } else { y } }
pub fn memswap_a(mut x: u32, mut y: u32) -> (u32, u32) { core::mem::swap(&mut x, &mut y); (x, core::mem::take(&mut y)) }
pub fn memswap_b(x: u32, y: u32) -> (u32, u32) { (y, x) }
pub fn memrep_a(mut x: u32) -> (u32, u32) { let o = core::mem::replace(&mut x, 3); (o, x) }
pub fn memrep_b(x: u32) -> (u32, u32) { (x, 3) }
pub fn refmut_a(x: u32, c: bool) -> (u32, u32) { let (mut a, mut b) = (x, x); let r = if c { &mut a } else { &mut b }; *r ^= 1; (a, b) }
pub fn refmut_b(x: u32, c: bool) -> (u32, u32) { if c { (x ^ 1, x) } else { (x, x ^ 1) } }
pub fn constblk_a(x: u32) -> u32 { const M: u32 = mask(4, 11); x & M }
const fn mask(lo: u32, hi: u32) -> u32 { ((1 << (hi - lo + 1)) - 1) << lo }
pub fn constblk_b(x: u32) -> u32 { x & 0xff0 }
pub fn shadow_a(x: u32) -> u32 { let x = x >> 1; let x = { let y = x; y & 7 }; x }
pub fn shadow_b(x: u32) -> u32 { x >> 1 & 7 }
pub fn gen_a(x: u32) -> u32 { bits::<4, 7>(x) }
fn bits<const L: u32, const H: u32>(x: u32) -> u32 { x >> L & ((1 << (H - L + 1)) - 1) }
pub fn gen_b(x: u32) -> u32 { x >> 4 & 15 }
struct Bits(u32);
impl core::ops::Index<usize> for Bits { type Output = bool; fn index(&self, i: usize) -> &bool { if self.0 >> i & 1 == 1 { &true } else { &false } } }
pub fn indexop_a(x: u32) -> bool { Bits(x)[3] }
pub fn indexop_b(x: u32) -> bool { x & 8 != 0 }
struct It { c: u32, m: u32 }
impl Iterator for It { type Item = u32; fn next(&mut self) -> Option<u32> { while self.c < 8 { let i = self.c; self.c += 1; if self.m >> i & 1 == 1 { return Some(i); } } None } }
pub fn custom_a(x: u8) -> u32 { It { c: 0, m: x as u32 }.map(|i| 1 << i).fold(0, |a, b| a | b) }
pub fn custom_b(x: u8) -> u32 { x as u32 }
pub fn scan_a(x: u8) -> u32 { let mut it = It { c: 0, m: x as u32 }; let mut r = 0; while let Some(i) = it.next() { r |= 1 << i; } r }
pub fn scan_b(x: u8) -> u32 { x as u32 }
pub fn rec_a(x: u8) -> u32 { fn go(x: u8, n: u32) -> u32 { if n == 8 { 0 } else { (x >> n & 1) as u32 + go(x, n + 1) } } go(x, 0) }
pub fn rec_b(x: u8) -> u32 { x.count_ones() }
// ---- strings
pub fn strmatch_a(x: [u8; 4]) -> u8 { match core::str::from_utf8(&x) { Ok("Inte") => 1, Ok("Auth") => 2, _ => 3 } }
pub fn strmatch_b(x: [u8; 4]) -> u8 { match &x { b"Inte" => 1, b"Auth" => 2, _ => 3 } }
pub fn strbytes_a(c: bool) -> u8 { let s = if c { "hello" } else { "abc" }; s.as_bytes()[1] }
pub fn strbytes_b(c: bool) -> u8 { if c { b'e' } else { b'b' } }
pub fn strlen_a(c: bool) -> usize { let s = if c { "hello" } else { "abc" }; if s.is_empty() { 0 } else { s.len() } }
pub fn strlen_b(c: bool) -> usize { if c { 5 } else { 3 } }
pub fn strpick_a(x: u8) -> &'static str { match x { 0 => "zero", 1 => "one", _ => "many" } }
pub fn strpick_b(x: u8) -> &'static str { ["zero", "one", "many"][x.min(2) as usize] }
pub fn strtab_a(x: u8) -> &'static str { const T: [(u8, &str); 3] = [(1, "a"), (2, "bb"), (9, "c")]; for (k, s) in T { if k == x { return s; } } "?" }
pub fn strtab_b(x: u8) -> &'static str { match x { 1 => "a", 2 => "bb", 9 => "c", _ => "?" } }
pub fn bytesrc_a(x: [u8; 4]) -> usize { let n = x.iter().position(|&b| b == 0).unwrap_or(x.len()); x[..n].len() }
pub fn bytesrc_b(x: [u8; 4]) -> usize { x.split(|&b| b == 0).next().unwrap().len() }
pub fn unsafe_a(x: u32) -> [u8; 4] { unsafe { core::mem::transmute(x) } }
pub fn unsafe_b(x: u32) -> [u8; 4] { x.to_ne_bytes() }
pub fn ptrcast_a(x: [u32; 2]) -> u8 { let s = unsafe { core::slice::from_raw_parts(x.as_ptr() as *const u8, 8) }; s[5] }
pub fn ptrcast_b(x: [u32; 2]) -> u8 { (x[1] >> 8) as u8 }
pub fn ptrread_a(x: u32) -> u32 { let p = &x as *const u32; unsafe { *p } }
pub fn ptrread_b(x: u32) -> u32 { x }
pub fn aiany_a(x: u8) -> bool { [1u8, 5, 9].into_iter().any(|v| v == x) }
pub fn aiany_b(x: u8) -> bool { x == 1 || x == 5 || x == 9 }
pub fn aipos_a(x: u8) -> Option<usize> { [1u8, 5, 9].into_iter().position(|v| v == x) }
pub fn aipos_b(x: u8) -> Option<usize> { match x { 1 => Some(0), 5 => Some(1), 9 => Some(2), _ => None } }
pub fn aifold_a(x: [u8; 3]) -> u8 { x.into_iter().map(|b| b & 3).fold(0, |a, b| a ^ b) }
pub fn aifold_b(x: [u8; 3]) -> u8 { (x[0] ^ x[1] ^ x[2]) & 3 }
pub fn aienum_a(x: [u8; 3]) -> u32 { let mut r = 0; for (i, b) in x.into_iter().enumerate() { r |= (b as u32) << (8 * i); } r }
pub fn aienum_b(x: [u8; 3]) -> u32 { x[0] as u32 | (x[1] as u32) << 8 | (x[2] as u32) << 16 }
pub fn aifind_a(x: u8) -> Option<(u8, u32)> { [(1u8, 10u32), (2, 20)].into_iter().find(|(k, _)| *k == x) }
pub fn aifind_b(x: u8) -> Option<(u8, u32)> { match x { 1 => Some((1, 10)), 2 => Some((2, 20)), _ => None } }
pub fn unionbytes_a(x: u32) -> u8 { #[repr(C)] #[derive(Clone, Copy)] union U { w: u32, b: [u8; 4] } let u = U { w: x }; unsafe { u.b[1] } }
pub fn unionbytes_b(x: u32) -> u8 { (x >> 8) as u8 }
#[derive(PartialEq)] pub struct Nt(pub u32); #[derive(PartialEq)] pub enum Ev { A, B(u32), C(u8, u8) }
pub fn ctor2_a(x: u32, y: bool) -> Option<Nt> { y.then_some(x).map(Nt) }
pub fn ctor2_b(x: u32, y: bool) -> Option<Nt> { if y { Some(Nt(x)) } else { None } }
pub fn ctor3_a(x: u32, y: bool) -> Option<Ev> { y.then_some(x).map(Ev::B) }
pub fn ctor3_b(x: u32, y: bool) -> Option<Ev> { if y { Some(Ev::B(x)) } else { None } }
pub fn ctor4_a(x: u8) -> Ev { let f = Ev::C; f(x, 1) }
pub fn ctor4_b(x: u8) -> Ev { Ev::C(x, 1) }
static TAC: [(u8, u32); 5] = [(1, 10), (3, 30), (7, 70), (9, 90), (200, 5)];
pub fn bskey_a(x: u8) -> Option<u32> { TAC.binary_search_by_key(&x, |e| e.0).ok().map(|i| TAC[i].1) }
pub fn bskey_b(x: u8) -> Option<u32> { TAC.iter().find(|e| e.0 == x).map(|e| e.1) }
pub fn partpt_a(x: u8) -> usize { TAC.partition_point(|e| e.0 < x) }
pub fn partpt_b(x: u8) -> usize { TAC.iter().filter(|e| e.0 < x).count() }
const FT: [fn(u32) -> u32; 3] = [|x| x & 1, low, |x| x >> 31];
pub fn fntab_a(x: u32) -> u32 { FT[0](x) ^ FT[1](x) ^ FT[2](x) }
pub fn fntab_b(x: u32) -> u32 { (x & 1) ^ low(x) ^ (x >> 31) }
pub fn fntab2_a(x: u32, i: u8) -> u32 { FT[(i & 1) as usize](x) }
pub fn fntab2_b(x: u32, i: u8) -> u32 { if i & 1 == 1 { low(x) } else { x & 1 } }
pub fn fnclo_a(x: u32, c: bool) -> u32 { let f: fn(u32) -> u32 = if c { |v| v + 0 } else { |v| !v }; f(x) }
pub fn fnclo_b(x: u32, c: bool) -> u32 { if c { x } else { !x } }
pub fn fnarg_a(x: u32) -> u32 { fn ap(f: fn(u32) -> u32, v: u32) -> u32 { f(v) } ap(low, x) ^ ap(|v| v >> 7, x) }
pub fn fnarg_b(x: u32) -> u32 { low(x) ^ (x >> 7) }
pub fn fnmap_a(x: Option<u32>) -> Option<u32> { let f: fn(u32) -> u32 = low; x.map(f) }
pub fn fnmap_b(x: Option<u32>) -> Option<u32> { x.map(|v| low(v)) }
static DT: [(u8, fn(u32) -> Option<Nt>); 2] = [(3, |x| Some(Nt(x))), (4, |_| None)];
pub fn fnsel_a(k: u8, x: u32) -> Option<Nt> { DT.iter().find(|e| e.0 == k).and_then(|e| (e.1)(x)) }
pub fn fnsel_b(k: u8, x: u32) -> Option<Nt> { if k == 3 { Some(Nt(x)) } else { None } }