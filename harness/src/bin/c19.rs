//! C19: Hall keys of letters, and the letters of a Hall set.
use rustyalgebra::lie::vp_hooks::{get_hall_set, HallKey, HallSet};
use vp_harness::ctx::*;
use vp_harness::words::letters;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, w: T) -> Result<(), String> {
    step(1);
    if got != w {
        return Err(format!("{} is {:?} instead of {:?}", what, got, w));
    }
    Ok(())
}
fn run<const N: u32>(tier: Tier) {
    case(|| format!("width {}: the null key", N), || {
        let k = HallKey::<N>::new();
        want("validity", k.is_valid(), false)?;
        want("being a letter", k.is_letter(), false)
    });
    if N < 1 << 18 {
        for l in letters(N, tier.pick(3_000, u32::MAX)) {
            state(&(N, l));
            case(|| format!("width {}: Hall key of letter {}", N, l), || {
                let k = HallKey::<N>::from_letter(l);
                want("validity", k.is_valid(), true)?;
                want("being a letter", k.is_letter(), true)?;
                want("degree", k.size(), 1)?;
                want("index", k.to_index(), l as usize - 1)?;
                want("left parent", k.get_lparent(), 0)?;
                want("right parent", k.get_rparent(), l)?;
                outcome(&l);
                want("text", format!("{}", k), l.to_string())
            });
        }
    }
    case(|| format!("width {}: letters of the Hall set", N), || {
        let hs = get_hall_set::<N>(None);
        let mut keys: Vec<u64> = (0..tier.pick(3_000, 300_000)).collect();
        for b in 0..64 {
            for o in 0..3u64 {
                keys.push((1u64 << b).wrapping_add(o));
                keys.push((1u64 << b).wrapping_sub(o));
            }
        }
        for o in 0..5 {
            keys.push(N as u64 + o);
            keys.push((N as u64).saturating_sub(o));
            keys.push((N as u64 + o) | 1 << 32);
        }
        for k in keys {
            state(&(N, "key", k));
            let got = hs.is_letter(k).map_err(|e| format!("key {}: {}", k, e))?;
            want(&format!("whether key {} is a letter", k), got, k >= 1 && k <= N as u64)?;
        }
        Ok(())
    });
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    if M < 1 << 18 {
        for l in letters(N.min(M), tier.pick(300, 3_000)) {
            case(|| format!("widths {} and {} in turn: Hall keys of letter {}", N, M, l), || {
                let (a, b, c) = (HallKey::<N>::from_letter(l), HallKey::<M>::from_letter(l), HallKey::<N>::from_letter(l));
                want("degrees", (a.size(), b.size(), c.size()), (1, 1, 1))?;
                let i = l as usize - 1;
                want("indices", (a.to_index(), b.to_index(), c.to_index()), (i, i, i))?;
                want("left parents", (a.get_lparent(), b.get_lparent(), c.get_lparent()), (0, 0, 0))?;
                want("right parents", (a.get_rparent(), b.get_rparent(), c.get_rparent()), (l, l, l))?;
                let t = l.to_string();
                want("texts", (format!("{}", a), format!("{}", b), format!("{}", c)), (t.clone(), t.clone(), t))
            });
        }
    }
    case(|| format!("widths {} and {} in turn: letters of the Hall sets", N, M), || {
        let (x, y) = (get_hall_set::<N>(None), get_hall_set::<M>(None));
        let mut keys: Vec<u64> = (0..600).collect();
        for o in 0..5 {
            for n in [N as u64, M as u64] {
                keys.extend([n + o, n.saturating_sub(o), n + o | 1 << 32]);
            }
        }
        for k in keys {
            let f = |r: Option<bool>| r.ok_or_else(|| format!("key {}: no answer", k));
            let got = (f(x.is_letter(k).ok())?, f(y.is_letter(k).ok())?, f(x.is_letter(k).ok())?);
            state(&(N, M, k));
            let is = |n: u32| k >= 1 && k <= n as u64;
            want(&format!("whether key {} is a letter", k), got, (is(N), is(M), is(N)))?;
        }
        Ok(())
    });
}
fn main() {
    let mut g = vp_harness::words::width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; letters: all of alphabets up to 3000 (thorough: of every alphabet below 2^18), else boundaries; Hall set keys below 3000 (300000) and around every power of two",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
