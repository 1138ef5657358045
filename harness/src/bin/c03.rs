//! C03: comparing words is the total order of their indices.
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use std::cmp::Ordering;
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn order(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then(a.cmp(b))
}
fn pair<const N: u32>(a: &[u32], x: &(TensorKey<N>, usize), b: &[u32]) -> Result<(), String> {
    let (x, i) = (&x.0, x.1);
    let y = key::<N>(b);
    let want = order(a, b);
    let got = (TensorBasis::<N>::compare(x, &y), TensorBasis::<N>::compare(&y, x));
    step(2);
    if got != (want, want.reverse()) {
        return Err(format!("against {:?}: {:?} and, the other way round, {:?}", b, got.0, got.1));
    }
    if (got.0 == Ordering::Equal) != (*x == y) {
        return Err(format!("against {:?}: {:?} but equality says {}", b, got.0, *x == y));
    }
    let j = if b.len() <= 6 || i % 8 == 0 { TensorBasis::<N>::key_to_index(&y) } else { rank(N, b) as usize };
    if i.cmp(&j) != got.0 {
        return Err(format!("against {:?}: {:?} but indices {} and {}", b, got.0, i, j));
    }
    Ok(())
}
fn keyed<const N: u32>(w: &[u32]) -> (TensorKey<N>, usize) {
    let k = key::<N>(w);
    let i = TensorBasis::<N>::key_to_index(&k);
    (k, i)
}
fn run<const N: u32>(tier: Tier) {
    let d = depth::<N>();
    let vals = letters(N, tier.pick(5, 12));
    let few = [1, N / 2 + 1, N];
    explore_words(N, d, tier, &mut |w| {
        if !state(&(N, w)) {
            return;
        }
        case(|| format!("width {} word {:?} against its neighbours", N, w), || {
            let x = keyed::<N>(w);
            pair(w, &x, w)?;
            pair(w, &x, &[])?;
            let mut v = w.to_vec();
            for i in 0..w.len() {
                for &l in if w.len() <= 8 { &vals[..] } else { &few[..] } {
                    v[i] = l;
                    pair(w, &x, &v)?;
                }
                v[i] = w[i];
            }
            // Swapped letters, prefixes, suffixes, extensions, constant words of each length.
            for i in 0..w.len() {
                for j in [i + 1, w.len() - 1] {
                    if j < w.len() {
                        v.swap(i, j);
                        pair(w, &x, &v)?;
                        v.swap(i, j);
                    }
                }
                pair(w, &x, &w[..i])?;
                pair(w, &x, &w[i..])?;
            }
            v.reverse();
            pair(w, &x, &v)?;
            v.reverse();
            if w.len() < d {
                for &l in &few {
                    v.push(l);
                    pair(w, &x, &v)?;
                    v.pop();
                    v.insert(0, l);
                    pair(w, &x, &v)?;
                    v.remove(0);
                }
            }
            for len in 0..=d {
                if tier == Tier::Thorough || len < 4 || len + 2 > d || (len as i64 - w.len() as i64).abs() < 2 {
                    for &l in &few {
                        pair(w, &x, &vec![l; len])?;
                    }
                }
            }
            Ok(())
        });
    });
    let short = all_short(N, d.min(12), tier.pick(260, 2_500));
    for a in &short {
        case(|| format!("width {} word {:?} against all short words", N, a), || {
            let x = keyed::<N>(a);
            for b in &short {
                pair(a, &x, b)?;
            }
            Ok(())
        });
    }
}
fn main() {
    vp_harness::ctx::main(width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: all pairs of short words (as many as 260, thorough 2500), and each word of C01's word set against every one-letter change, exchange of letters, prefix, suffix, extension and constant word",
        vp_harness::all_widths!(run),
    ));
}
