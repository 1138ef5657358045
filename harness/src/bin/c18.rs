//! C18: degree tables after any growth history.
use rustyalgebra::lie::vp_hooks::{DegreeRangeMap, DegreeRangeMapError};
use vp_harness::ctx::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

/// Sizes by the necklace recursion.
fn sizes(n: u32, deg: usize) -> Vec<u128> {
    let mut l = vec![0u128; deg + 1];
    let mut s = vec![0u128];
    for d in 1..=deg {
        let mut x = (n as u128).pow(d as u32);
        for e in 1..d {
            if d % e == 0 {
                x -= e as u128 * l[e];
            }
        }
        l[d] = x / d as u128;
        s.push(s[d - 1] + l[d]);
    }
    s
}
/// The table holds degrees 0..len.
fn check<const N: u32>(m: &DegreeRangeMap<N>, s: &[u128], len: usize, all_keys: u128) -> Result<(), String> {
    for d in 0..s.len() + 3 {
        step(1);
        match m.get(d as u32) {
            Ok(v) if d < len && v as u128 == s[d] => {}
            Ok(v) => return Err(format!("size up to degree {} is {} (the table should hold {} degrees)", d, v, len)),
            Err(DegreeRangeMapError::DegreeOutOfBounds) if d >= len => {}
            Err(e) => return Err(format!("size up to degree {}: {} (the table should hold {} degrees)", d, e, len)),
        }
    }
    for d in [1000, u32::MAX - 1, u32::MAX] {
        if m.get(d).is_ok() {
            return Err(format!("size up to degree {} is answered", d));
        }
    }
    // Keys: all of them up to a bound, and around every boundary.
    let mut keys: Vec<u128> = (0..=all_keys).collect();
    for &b in s {
        for o in 0..3u128 {
            keys.push(b + o);
            keys.push(b.saturating_sub(o));
        }
    }
    keys.extend([1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, u64::MAX as u128 / 2]);
    for k in keys {
        let want = if len == 0 { None } else { s[..len].iter().position(|&x| x >= k) };
        step(1);
        match m.find_deg(k as u64) {
            Ok(d) if want == Some(d as usize) => {
                outcome(&(N, d));
            }
            Err(DegreeRangeMapError::MapIsEmpty) if len == 0 => {}
            Err(DegreeRangeMapError::DegreeOutOfBounds) if len != 0 && want.is_none() => {}
            Ok(d) => return Err(format!("degree of key {} is {} instead of {:?} (table of {} degrees)", k, d, want, len)),
            Err(e) => return Err(format!("degree of key {}: {:?} instead of {:?} (table of {} degrees)", k, e, want, len)),
        }
    }
    Ok(())
}
fn run<const N: u32>(tier: Tier) {
    let mut top = 1usize;
    while top < tier.pick(7, 12) && (N as u128).pow(top as u32 + 1) < 1 << 61 {
        top += 1;
    }
    let s = sizes(N, top);
    let keys = tier.pick(300, 3_000).min(s[top] + 2);
    for init in 0..=top as u32 + 1 {
        // Depth-first over all growth sequences; a table is rebuilt for each.
        let mut stack: Vec<Vec<u32>> = vec![vec![]];
        while let Some(seq) = stack.pop() {
            state(&(N, init, &seq));
            case(|| format!("width {}: table for {} degrees grown by {:?}", N, init, seq), || {
                let mut m = DegreeRangeMap::<N>::new(init);
                let mut len = init as usize;
                if seq.is_empty() {
                    check(&m, &s, len, keys)?;
                }
                for (i, &g) in seq.iter().enumerate() {
                    m.grow(g).map_err(|e| format!("growth to {}: {}", g, e))?;
                    step(1);
                    len = len.max(g as usize + 1);
                    // Prefixes were checked in full as sequences of their own.
                    if i + 1 == seq.len() {
                        check(&m, &s, len, keys)?;
                    }
                }
                Ok(())
            });
            if seq.len() < tier.pick(3, 4) {
                for g in 0..=top as u32 {
                    let mut n = seq.clone();
                    n.push(g);
                    stack.push(n);
                }
            }
        }
    }
}
/// A table of its full depth.
fn deep<const N: u32>(_: Tier) {
    let mut top = 1usize;
    while top < 60 && (N as u128).pow(top as u32 + 1) < 1 << 61 {
        top += 1;
    }
    let s = sizes(N, top);
    for init in 0..=top as u32 + 1 {
        for g in 0..=top as u32 {
            case(|| format!("width {}: table for {} degrees grown to {}", N, init, g), || {
                let mut m = DegreeRangeMap::<N>::new(init);
                m.grow(g).map_err(|e| e.to_string())?;
                check(&m, &s, (init as usize).max(g as usize + 1), 20)
            });
        }
    }
}
fn main() {
    let b = "every initial size and every sequence of up to 3 (thorough 4) growth requests to degrees up to 7 (12); after each: every degree asked, every key up to 300 (3000) and around every boundary";
    let mut g = vp_harness::words::width_groups(b, vp_harness::width_table!(run; 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 20, 21, 32, 100, 255, 1000, 65535, 1048576, 4294967295));
    for (n, f) in vp_harness::width_table!(deep; 1, 2, 3, 4, 5, 7, 10, 12, 30, 100, 65536) {
        g.push(group(format!("deep-{}", n), "every initial size and one growth request, at all degrees up to width^degree = 2^61", f));
    }
    vp_harness::ctx::main(g);
}
