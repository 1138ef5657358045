//! C22: invalid words are refused with a panic; valid requests are not.
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

/// The operations that make words, with the width erased so that the explorer is compiled once.
struct Ops {
    n: u32,
    depth: fn() -> usize,
    letter: fn(u32) -> Word,
    list: fn(&[u32]) -> Word,
    push: fn(&[u32], u32) -> Word,
    pushes: fn(&[u32]) -> Word,
    cat: fn(&[u32], &[u32]) -> Word,
    index: fn(usize) -> Word,
}
fn look<const N: u32>(k: TensorKey<N>) -> Word {
    if k.size() <= 64 {
        read(&k)
    } else {
        vec![k.size()]
    }
}
fn ops<const N: u32>() -> Ops {
    Ops {
        n: N,
        depth: depth::<N>,
        letter: |l| look(TensorKey::<N>::from_letter(l)),
        list: |w| look(TensorKey::<N>::from_letters(w)),
        push: |w, l| {
            let mut k = key::<N>(w);
            k.push_front(l);
            look(k)
        },
        pushes: |w| {
            let mut k = TensorKey::<N>::new();
            for l in w.iter().rev() {
                k.push_front(*l);
            }
            look(k)
        },
        cat: |a, b| look(key::<N>(a).concatenate(&key::<N>(b))),
        index: |i| look(TensorBasis::<N>::index_to_key(i)),
    }
}
fn refused(n: u32, what: &dyn Fn() -> String, f: &dyn Fn() -> Word) {
    case(
        || format!("width {}: {}", n, what()),
        || {
            step(1);
            match caught(f) {
                Err(_) => Ok(()),
                Ok(w) => Err(format!("accepted: the word {:?}", w)),
            }
        },
    );
}
fn accepted(n: u32, what: &dyn Fn() -> String, w: &[u32], f: &dyn Fn() -> Word) {
    case(
        || format!("width {}: {}", n, what()),
        || {
            step(1);
            match caught(f) {
                Err(e) => Err(format!("refused: {}", e)),
                Ok(k) if k == w => Ok(()),
                Ok(k) => Err(format!("gave the word {:?}", k)),
            }
        },
    );
}
fn run<const N: u32>(tier: Tier) {
    explore(&ops::<N>(), tier)
}
fn explore(o: &Ops, tier: Tier) {
    let n = o.n;
    let d = (o.depth)();
    // Letters outside the alphabet: the nearest, those that look valid when packed, the largest.
    let mut bad: Vec<u32> = vec![0, u32::MAX, u32::MAX - 1];
    let mut more = |x: u64| {
        if x > n as u64 && x <= u32::MAX as u64 {
            bad.push(x as u32)
        }
    };
    for i in 1..tier.pick(6, 200) {
        more(n as u64 + i);
    }
    more(2 * n as u64);
    more(2 * n as u64 + 1);
    for b in 0..32u32 {
        for o in 0..3 {
            more((1u64 << b) + o);
            more((1u64 << b) - 1);
        }
    }
    bad.retain(|x| *x == 0 || *x > n);
    bad.sort();
    bad.dedup();
    let few = [1, n / 2 + 1, n];
    for &b in &bad {
        state(&(n, "letter", b));
        refused(n, &|| format!("letter {}", b), &|| (o.letter)(b));
        for len in 0..d {
            for &l in &few {
                let w = vec![l; len];
                refused(n, &|| format!("{} put in front of {:?}", b, w), &|| (o.push)(&w, b));
            }
        }
        // In a list, at each position.
        for len in 1..=d {
            for p in 0..len {
                if tier == Tier::Quick && len > 10 && len < d && p > 1 && p + 2 < len {
                    continue;
                }
                let mut w = vec![few[p % 3]; len];
                w[p] = b;
                refused(n, &|| format!("list {:?}", w), &|| (o.list)(&w));
            }
        }
    }
    // Too many letters.
    for &l in &few {
        for len in (d + 1..d + 6).chain([32, 33, 63, 64, 65, 66, 100, 128, 129, 256, 300]) {
            if len > d {
                state(&(n, "length", len));
                refused(n, &|| format!("list of {} letters {}", len, l), &|| (o.list)(&vec![l; len]));
            }
        }
        for &m in &few {
            refused(n, &|| format!("{} put in front of {} letters {}", m, d, l), &|| (o.push)(&vec![l; d], m));
            for a in 0..=d {
                for b in 0..=d {
                    state(&(n, "concatenate", a, b));
                    if a + b > d {
                        refused(n, &|| format!("{} letters {} followed by {} letters {}", a, l, b, m), &|| (o.cat)(&vec![l; a], &vec![m; b]));
                    } else {
                        let mut w = vec![l; a];
                        w.extend(vec![m; b]);
                        accepted(n, &|| format!("{} letters {} followed by {} letters {}", a, l, b, m), &w, &|| (o.cat)(&vec![l; a], &vec![m; b]));
                    }
                }
            }
        }
    }
    // Indices past the last word.
    let end = start(n, d as u32 + 1);
    let mut past: Vec<u128> = (0..tier.pick(20, 500)).map(|i| end + i).collect();
    past.extend((0..4).map(|i| u64::MAX as u128 - i));
    past.extend((0..64).map(|i| end + (1u128 << i)));
    past.extend((0..64).map(|i| 1u128 << i));
    past.extend((1..8).map(|i| end * (i + 1)));
    past.extend((d as u32 + 2..80).map(|e| (n as u128).checked_pow(e).unwrap_or(u128::MAX)));
    past.sort();
    past.dedup();
    for p in past {
        if p >= end && p <= u64::MAX as u128 {
            state(&(n, "index", p));
            refused(n, &|| format!("index {}", p), &|| (o.index)(p as usize));
        }
    }
    // Valid requests.
    for l in letters(n, tier.pick(64, 2000)) {
        accepted(n, &|| format!("letter {}", l), &[l], &|| (o.letter)(l));
    }
    for i in 1..tier.pick(40u128, 400) {
        if i <= end {
            let w = unrank(n, end - i);
            accepted(n, &|| format!("index {}", end - i), &w, &|| (o.index)((end - i) as usize));
        }
    }
    explore_words(n, d, tier, &mut |w| {
        accepted(n, &|| format!("list {:?}", w), w, &|| (o.list)(w));
        accepted(n, &|| format!("{:?} letter by letter", w), w, &|| (o.pushes)(w));
    });
}
fn main() {
    vp_harness::ctx::main(width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: letters outside the alphabet at every position of every length, lengths beyond the maximum, all pairs of lengths for concatenation, indices past the last word; valid requests from C01's word set",
        vp_harness::all_widths!(run),
    ));
}
