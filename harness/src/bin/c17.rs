//! C17: Hall set sizes are the dimensions of the free Lie algebra.
use rustyalgebra::lie::vp_hooks::DegreeRangeMap;
use vp_harness::ctx::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

/// Lyndon words of each length up to `deg`, by enumeration (Duval).
fn lyndon(n: u32, deg: usize) -> Vec<u128> {
    let mut c = vec![0u128; deg + 1];
    if deg == 0 {
        return c;
    }
    let mut w: Vec<i64> = vec![-1];
    while !w.is_empty() {
        *w.last_mut().unwrap() += 1;
        let m = w.len();
        c[m] += 1;
        while w.len() < deg {
            let x = w[w.len() - m];
            w.push(x);
        }
        while w.last() == Some(&(n as i64 - 1)) {
            w.pop();
        }
    }
    c
}
/// The same by the necklace recursion: width^d is the sum of e * L(e) over the divisors e of d.
fn levels(n: u32, deg: usize) -> Vec<u128> {
    let mut l = vec![0u128; deg + 1];
    for d in 1..=deg {
        let mut s = (n as u128).pow(d as u32);
        for e in 1..d {
            if d % e == 0 {
                s -= e as u128 * l[e];
            }
        }
        assert!(s % d as u128 == 0);
        l[d] = s / d as u128;
    }
    l
}
fn limit(n: u32) -> usize {
    if n == 1 {
        return 150;
    }
    // Room for the intermediate sums in 63 bits.
    let mut d = 0;
    while (n as u128).pow(d as u32 + 1) <= 1 << 61 {
        d += 1;
    }
    d
}
fn run<const N: u32>(tier: Tier) {
    let top = limit(N);
    let mut want = vec![0u128];
    for l in &levels(N, top)[1..] {
        want.push(want.last().unwrap() + l);
    }
    // The recursion against plain enumeration, as far as that goes.
    let mut few = 0;
    while few < top.min(24) && (N as u128).pow(few as u32 + 1) <= tier.pick(20_000, 5_000_000) {
        few += 1;
    }
    let c = lyndon(N, few);
    assert!((1..=few).all(|d| c[d] == want[d] - want[d - 1]), "reference sizes disagree");
    // Tables of every size.
    for n in 0..=top as u32 + 1 {
        case(|| format!("width {}: sizes of a table for {} degrees", N, n), || {
            let m = DegreeRangeMap::<N>::new(n);
            for d in 0..n {
                let got = m.get(d).map_err(|e| format!("degree {}: {}", d, e))?;
                step(1);
                state(&(N, d));
                outcome(&got);
                if got as u128 != want[d as usize] {
                    return Err(format!("size up to degree {} is {} instead of {}", d, got, want[d as usize]));
                }
            }
            Ok(())
        });
        if n > 0 {
            case(|| format!("width {}: sizes of a table grown to degree {}", N, n - 1), || {
                let mut m = DegreeRangeMap::<N>::new(0);
                m.grow(n - 1).map_err(|e| e.to_string())?;
                for d in 0..n {
                    let got = m.get(d).map_err(|e| format!("degree {}: {}", d, e))?;
                    step(1);
                    if got as u128 != want[d as usize] {
                        return Err(format!("size up to degree {} is {} instead of {}", d, got, want[d as usize]));
                    }
                }
                Ok(())
            });
        }
    }
}
fn two<const N: u32, const M: u32>(_: Tier) {
    let sums = |n| levels(n, limit(N).min(limit(M))).iter().scan(0, |a, l| { *a += l; Some(*a) }).collect::<Vec<u128>>();
    let (x, y) = (sums(N), sums(M));
    for n in 0..=x.len() as u32 {
        for grow in [false, true] {
            case(|| format!("widths {} and {} in turn: sizes of tables for {} degrees{}", N, M, n, if grow { ", grown" } else { "" }), || {
                state(&(N, M, n, grow));
                let (mut a, mut b, c);
                if grow && n > 0 {
                    a = DegreeRangeMap::<N>::new(0);
                    b = DegreeRangeMap::<M>::new(0);
                    for d in 0..n {
                        a.grow(d).map_err(|e| e.to_string())?;
                        b.grow(d).map_err(|e| e.to_string())?;
                    }
                } else {
                    a = DegreeRangeMap::<N>::new(n);
                    b = DegreeRangeMap::<M>::new(n);
                }
                c = DegreeRangeMap::<N>::new(n);
                for d in 0..n {
                    let i = d as usize;
                    let f = |r: Option<usize>| r.map(|s| s as u128).ok_or_else(|| format!("degree {}: no size", d));
                    let got = (f(a.get(d).ok())?, f(b.get(d).ok())?, f(c.get(d).ok())?);
                    step(3);
                    if got != (x[i], y[i], x[i]) {
                        return Err(format!("sizes up to degree {} are {:?} instead of {:?}", d, got, (x[i], y[i], x[i])));
                    }
                }
                Ok(())
            });
        }
    }
}
fn main() {
    let mut g = vp_harness::words::width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; every degree with width^degree up to 2^61 (width 1: up to 150); the reference itself is checked against plain enumeration of Lyndon words",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
