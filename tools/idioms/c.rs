#![allow(dead_code)]
pub fn refiter_a(x: [u32; 3]) -> u128 { (&[x[2], x[1], x[0]]).into_iter().fold(0u128, |acc, w| acc << 32 | u128::from(*w)) }
pub fn refiter_b(x: [u32; 3]) -> u128 { x[0] as u128 | (x[1] as u128) << 32 | (x[2] as u128) << 64 }
pub fn revfold_a(x: [u32; 3]) -> u128 { x.iter().rev().fold(0u128, |acc, w| acc << 32 | u128::from(*w)) }
pub fn revfold_b(x: [u32; 3]) -> u128 { x[0] as u128 | (x[1] as u128) << 32 | (x[2] as u128) << 64 }
pub fn rfold_a(x: [u32; 3]) -> u128 { x.iter().rfold(0u128, |acc, w| acc << 32 | u128::from(*w)) }
pub fn rfold_b(x: [u32; 3]) -> u128 { x[0] as u128 | (x[1] as u128) << 32 | (x[2] as u128) << 64 }
pub fn tryfold_a(x: [u8; 3]) -> Option<u8> { x.iter().try_fold(0u8, |a, b| a.checked_add(*b & 0x3f)) }
pub fn tryfold_b(x: [u8; 3]) -> Option<u8> { (0u8).checked_add(x[0] & 0x3f)?.checked_add(x[1] & 0x3f)?.checked_add(x[2] & 0x3f) }
pub fn sumit_a(x: [u8; 3]) -> u32 { x.iter().map(|b| u32::from(*b)).sum() }
pub fn sumit_b(x: [u8; 3]) -> u32 { x[0] as u32 + x[1] as u32 + x[2] as u32 }
pub fn maxit2_a(x: [u8; 2]) -> Option<u8> { x.iter().copied().max() }
pub fn maxit2_b(x: [u8; 2]) -> Option<u8> { Some(if x[0] > x[1] { x[0] } else { x[1] }) }
pub fn revpos_a(x: [u8; 3]) -> Option<usize> { x.iter().rposition(|b| *b == 0) }
pub fn revpos_b(x: [u8; 3]) -> Option<usize> { if x[2] == 0 { Some(2) } else if x[1] == 0 { Some(1) } else if x[0] == 0 { Some(0) } else { None } }
pub fn takew_a(x: [u8; 3]) -> usize { x.iter().take_while(|b| **b != 0).count() }
pub fn takew_b(x: [u8; 3]) -> usize { if x[0] == 0 { 0 } else if x[1] == 0 { 1 } else if x[2] == 0 { 2 } else { 3 } }
pub fn skipw_a(x: [u8; 3]) -> Option<u8> { x.iter().skip_while(|b| **b == 0).next().copied() }
pub fn skipw_b(x: [u8; 3]) -> Option<u8> { if x[0] != 0 { Some(x[0]) } else if x[1] != 0 { Some(x[1]) } else if x[2] != 0 { Some(x[2]) } else { None } }
pub fn fmap_a(x: [u8; 3]) -> u8 { x.iter().filter_map(|b| if *b > 9 { Some(*b & 1) } else { None }).fold(0, |a, b| a ^ b) }
pub fn fmap_b(x: [u8; 3]) -> u8 { let mut r = 0; for b in &x { if *b > 9 { r ^= *b & 1; } } r }
pub fn itereq_a(x: [u8; 3], y: [u8; 3]) -> bool { x.iter().eq(y.iter()) }
pub fn itereq_b(x: [u8; 3], y: [u8; 3]) -> bool { x == y }
pub fn chunks2_a(x: [u8; 4]) -> u8 { x.chunks(2).fold(0, |a, c| a ^ c[0]) }
pub fn chunks2_b(x: [u8; 4]) -> u8 { x[0] ^ x[2] }
pub fn windows2_a(x: [u8; 3]) -> bool { x.windows(2).all(|w| w[0] <= w[1]) }
pub fn windows2_b(x: [u8; 3]) -> bool { x[0] <= x[1] && x[1] <= x[2] }
pub fn splitat2_a(x: [u8; 4]) -> u8 { let (l, r) = x.split_at(1); l[0] ^ r[2] }
pub fn splitat2_b(x: [u8; 4]) -> u8 { x[0] ^ x[3] }
pub fn getr_a(x: [u8; 4], i: usize) -> Option<u8> { x.get(1..).and_then(|s| s.get(i)).copied() }
pub fn getr_b(x: [u8; 4], i: usize) -> Option<u8> { match i { 0 => Some(x[1]), 1 => Some(x[2]), 2 => Some(x[3]), _ => None } }
pub fn stepby2_a(x: [u8; 4]) -> u8 { x.iter().step_by(2).fold(0, |a, b| a ^ b) }
pub fn stepby2_b(x: [u8; 4]) -> u8 { x[0] ^ x[2] }
pub fn cycle_a(x: [u8; 2]) -> u8 { let mut r = 0; for (i, b) in x.iter().cycle().take(4).enumerate() { r ^= b.rotate_left(i as u32); } r }
pub fn cycle_b(x: [u8; 2]) -> u8 { x[0] ^ x[1].rotate_left(1) ^ x[0].rotate_left(2) ^ x[1].rotate_left(3) }
pub fn once_a(x: u8, c: bool) -> u8 { core::iter::once(x).chain(c.then_some(1)).fold(0, |a, b| a ^ b) }
pub fn once_b(x: u8, c: bool) -> u8 { if c { x ^ 1 } else { x } }
pub fn succ_a() -> u32 { core::iter::successors(Some(1u32), |x| if *x < 16 { Some(x * 2) } else { None }).fold(0, |a, b| a | b) }
pub fn succ_b() -> u32 { 31 }
pub fn scan2_a(x: [u8; 3]) -> u8 { x.iter().scan(0u8, |s, b| { *s ^= b; Some(*s) }).last().unwrap() }
pub fn scan2_b(x: [u8; 3]) -> u8 { x[0] ^ x[1] ^ x[2] }
pub fn inspect2_a(x: [u8; 2]) -> u8 { let mut n = 0u8; x.iter().inspect(|b| n ^= **b).for_each(|_| ()); n }
pub fn inspect2_b(x: [u8; 2]) -> u8 { x[0] ^ x[1] }
pub fn mapwhile_a(x: [u8; 3]) -> u8 { x.iter().map_while(|b| b.checked_sub(1)).fold(0, |a, b| a ^ b) }
pub fn mapwhile_b(x: [u8; 3]) -> u8 { let mut r = 0; for b in &x { if *b == 0 { break; } r ^= *b - 1; } r }
pub fn peek2_a(x: [u8; 3]) -> u8 { let mut it = x.iter().peekable(); let mut r = 0; while let Some(b) = it.next() { if it.peek().is_some() { r ^= b; } } r }
pub fn peek2_b(x: [u8; 3]) -> u8 { x[0] ^ x[1] }
pub fn rangestep_a(x: u32) -> u32 { (0..32u32).step_by(8).map(|s| (x >> s) & 0xff).fold(0, |a, b| a ^ b) }
pub fn rangestep_b(x: u32) -> u32 { (x ^ (x >> 8) ^ (x >> 16) ^ (x >> 24)) & 0xff }
pub fn ranrev_a(x: u32) -> u32 { let mut r = 0u32; for i in (0..4).rev() { r = r << 8 | (x >> (8 * i)) & 0xff; } r }
pub fn ranrev_b(x: u32) -> u32 { x }
pub fn raninc_a(x: u32) -> u32 { (0..=31).filter(|i| x >> i & 1 == 1).map(|i| 1u32 << i).fold(0, |a, b| a | b) }
pub fn raninc_b(x: u32) -> u32 { x }
