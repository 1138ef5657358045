//! C02: words and indices correspond one to one.
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::TensorBasis;
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn both<const N: u32>(w: &[u32], r: u128) -> Result<(), String> {
    let k = key::<N>(w);
    let i = TensorBasis::<N>::key_to_index(&k);
    if i as u128 != r {
        return Err(format!("index of the word is {} instead of {}", i, r));
    }
    let back = TensorBasis::<N>::index_to_key(r as usize);
    if read(&back) != w || back != k {
        return Err(format!("word number {} is {:?}", r, read(&back)));
    }
    let again = TensorBasis::<N>::key_to_index(&back);
    if again as u128 != r {
        return Err(format!("index of the word of index {} is {}", r, again));
    }
    step(3);
    Ok(())
}
fn run<const N: u32>(tier: Tier) {
    let d = depth::<N>();
    let end = start(N, d as u32 + 1);
    assert!(end <= u64::MAX as u128);
    explore_words(N, d, tier, &mut |w| {
        let r = rank(N, w);
        if state(&(N, r)) {
            case(|| format!("width {} word {:?}", N, w), || both::<N>(w, r));
        }
    });
    let mut index = |r: u128| {
        if r < end && state(&(N, r)) {
            let w = unrank(N, r);
            case(|| format!("width {} index {}", N, r), || both::<N>(&w, r));
        }
    };
    // The first indices, and those around the start of every degree, the last index included.
    for r in 0..tier.pick(2_000, 400_000) {
        index(r);
    }
    for e in 1..=d as u32 + 1 {
        let s = start(N, e);
        for o in 0..tier.pick(40, 2_000) {
            index(s + o);
            if s > o {
                index(s - 1 - o);
            }
        }
        // Fractions of the degree.
        let len = start(N, e + 1).saturating_sub(s);
        for q in 1..tier.pick(8u128, 64) {
            for o in 0..3 {
                index(s + len * q / tier.pick(8, 64) + o);
            }
        }
    }
    for b in 0..64 {
        for o in 0..3u128 {
            index((1 << b) + o);
            index(((1u128 << b) + 1).saturating_sub(o));
        }
    }
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    for (w, x) in pair_words::<N, M>(tier.pick(400, 3000)) {
        case(|| format!("widths {} and {} in turn: words {:?} and {:?}", N, M, w, x), || {
            let (k, j) = (key::<N>(&w), key::<M>(&x));
            let got = (TensorBasis::<N>::key_to_index(&k), TensorBasis::<M>::key_to_index(&j), TensorBasis::<N>::key_to_index(&k));
            let want = (rank(N, &w) as usize, rank(M, &x) as usize, rank(N, &w) as usize);
            step(3);
            if got != want {
                return Err(format!("indices {:?} instead of {:?}", got, want));
            }
            Ok(())
        });
    }
    let (en, em) = (start(N, depth::<N>() as u32 + 1), start(M, depth::<M>() as u32 + 1));
    let mut rs: Vec<u128> = (0..tier.pick(600, 20_000)).collect();
    for e in 0..=depth::<N>().max(depth::<M>()) as u32 {
        for s in [start(N, e.min(depth::<N>() as u32)), start(M, e.min(depth::<M>() as u32))] {
            rs.extend([s, s + 1, s + 2, s.saturating_sub(1)]);
        }
    }
    for r in rs {
        if r < en && r < em {
            case(|| format!("widths {} and {} in turn: index {}", N, M, r), || {
                let (a, b, c) = (TensorBasis::<N>::index_to_key(r as usize), TensorBasis::<M>::index_to_key(r as usize), TensorBasis::<N>::index_to_key(r as usize));
                step(3);
                let (u, v) = (unrank(N, r), unrank(M, r));
                if read(&a) != u || read(&b) != v || read(&c) != u {
                    return Err(format!("words {:?}, {:?}, {:?} instead of {:?}, {:?}", read(&a), read(&b), read(&c), u, v));
                }
                Ok(())
            });
        }
    }
}
fn main() {
    let mut g = width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: the word set of C01, all indices below 2000 (thorough 400000), around the start of each degree up to the last word, fractions of each degree, both sides of every power of two",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
