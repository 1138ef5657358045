//! C04: enumerating the basis visits every word once, in index order, then stops.
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::TensorBasis;
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

type It<const N: u32> = <TensorBasis<N> as OrderedBasis>::KeyIterator;

/// Follow the enumeration from w for up to `steps` words.
fn follow<const N: u32>(it: &mut It<N>, w: &[u32], d: usize, steps: usize) -> Result<(), String> {
    let mut m = w.to_vec();
    for i in 0..steps {
        let got = it.next();
        step(1);
        if i < 3 || i % 1024 == 0 || m.len() > d {
            let left = if m.len() > d { 0 } else { start(N, d as u32 + 1) - rank(N, &m) - 1 };
            let (lo, hi) = it.size_hint();
            if lo as u128 > left || hi.map_or(false, |h| (h as u128) < left) {
                return Err(format!("step {}: announces {:?} words, {} are left", i, (lo, hi), left));
            }
        }
        if m.len() > d {
            if let Some(k) = got {
                return Err(format!("step {}: {:?} after the last word", i, read(&k)));
            }
            // Stays ended.
            for _ in 0..4 {
                step(1);
                if let Some(k) = it.next() {
                    return Err(format!("step {}: {:?} after the enumeration had ended", i, read(&k)));
                }
            }
            return Ok(());
        }
        match got {
            None => return Err(format!("step {}: ended instead of {:?}", i, m)),
            Some(k) => {
                if read(&k) != m || k != key::<N>(&m) {
                    return Err(format!("step {}: {:?} instead of {:?}", i, read(&k), m));
                }
            }
        }
        m = succ(N, &m);
        if i % 4096 == 0 {
            alive();
        }
    }
    Ok(())
}
/// The other ways to drive an iterator: skipping, announcing its length, running to the end.
fn drive<const N: u32>(make: impl Fn() -> It<N>, w: &[u32], d: usize, skips: &[usize]) -> Result<(), String> {
    let left = start(N, d as u32 + 1) - rank(N, w);
    let (lo, hi) = make().size_hint();
    if lo as u128 > left || hi.map_or(false, |h| (h as u128) < left) {
        return Err(format!("announces {:?} words, {} are left", (lo, hi), left));
    }
    let first = rank(N, w);
    let at = |i: usize| if (i as u128) < left { Some(unrank(N, first + i as u128)) } else { None };
    for &n in skips {
        let mut it = make();
        let got = (it.nth(n).map(|k| read(&k)), it.next().map(|k| read(&k)));
        step(2);
        if got != (at(n), at(n + 1)) {
            return Err(format!("skipping {} words gives {:?}", n, got));
        }
        let mut it = make().skip(n).step_by(3);
        let got = (it.next().map(|k| read(&k)), it.next().map(|k| read(&k)));
        step(2);
        if got != (at(n), at(n + 3)) {
            return Err(format!("skipping {} words and stepping by 3 gives {:?}", n, got));
        }
    }
    if left <= 400 {
        step(3);
        let (c, l) = (make().count(), make().last().map(|k| read(&k)));
        if c as u128 != left || l != at(left as usize - 1) {
            return Err(format!("counts {} words up to {:?}, {} are left", c, l, left));
        }
        let all = make().fold(vec![], |mut v, k| { v.push(read(&k)); v });
        if all.len() as u128 != left || all.iter().enumerate().any(|(i, x)| at(i).as_ref() != Some(x)) {
            return Err("folding gives other words".into());
        }
    }
    Ok(())
}
fn run<const N: u32>(tier: Tier) {
    let d = depth::<N>();
    case(|| format!("width {}: enumeration from the beginning", N), || {
        let n = tier.pick(20_000, 1_000_000);
        follow::<N>(&mut TensorBasis::<N>::iter_keys(), &[], d, n)?;
        follow::<N>(&mut It::<N>::new(), &[], d, 40)
    });
    case(|| format!("width {}: skipping from the beginning", N), || {
        let n = N as usize;
        let mut skips: Vec<usize> = vec![0, 1, 2, 3, 10, 100, 1000];
        if n < 70_000 {
            skips.extend([n - 1, n, n + 1, (n + n * n).min(5000)]);
        }
        drive::<N>(TensorBasis::<N>::iter_keys, &[], d, &skips)
    });
    let n = tier.pick(4, 12);
    explore_words(N, d, tier, &mut |w| {
        if state(&(N, w)) {
            case(|| format!("width {}: enumeration from {:?}", N, w), || {
                follow::<N>(&mut It::<N>::starting_from(key::<N>(w)), w, d, n)?;
                drive::<N>(|| It::<N>::starting_from(key::<N>(w)), w, d, &[0, 1, 2])
            });
        }
    });
    // Carries: every length, every number of trailing last letters, every letter before them.
    let vals = letters(N, tier.pick(8, 70));
    for len in 1..=d {
        for tail in 0..=len {
            for &l in if tail == len { &vals[..1] } else { &vals[..] } {
                for head in [1, N / 2 + 1, N] {
                    let mut w = vec![N; len];
                    if tail < len {
                        for x in w[..len - tail].iter_mut() {
                            *x = head;
                        }
                        w[len - tail - 1] = l;
                    }
                    if state(&(N, &w)) {
                        case(|| format!("width {}: enumeration from {:?}", N, w), || follow::<N>(&mut It::<N>::starting_from(key::<N>(&w)), &w, d, n));
                    }
                }
            }
        }
    }
    // The end of the enumeration, from everywhere near it.
    let end = start(N, d as u32 + 1);
    for back in 1..tier.pick(30u128, 300) {
        if back <= end {
            let w = unrank(N, end - back);
            case(|| format!("width {}: enumeration from {:?}, {} words before the end", N, w, back), || {
                follow::<N>(&mut It::<N>::starting_from(key::<N>(&w)), &w, d, back as usize + 1)?;
                drive::<N>(|| It::<N>::starting_from(key::<N>(&w)), &w, d, &[0, 1, back as usize - 1, back as usize, back as usize + 1])
            });
        }
    }
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    let mut pairs = vec![(vec![], vec![])];
    pairs.extend(pair_words::<N, M>(tier.pick(60, 600)));
    for (i, (w, x)) in pairs.into_iter().enumerate() {
        let steps = if i == 0 { tier.pick(3_000, 30_000) } else { 6 };
        case(|| format!("widths {} and {}: enumerations from {:?} and {:?} in turn", N, M, w, x), || {
            let (mut a, mut b) = (It::<N>::starting_from(key::<N>(&w)), It::<M>::starting_from(key::<M>(&x)));
            let (mut u, mut v) = (w.clone(), x.clone());
            for s in 0..steps {
                if u.len() <= depth::<N>() {
                    step(1);
                    let got = a.next();
                    if got.as_ref().map(read) != Some(u.clone()) {
                        return Err(format!("width {} step {}: {:?} instead of {:?}", N, s, got.as_ref().map(read), u));
                    }
                    u = succ(N, &u);
                }
                if v.len() <= depth::<M>() {
                    step(1);
                    let got = b.next();
                    if got.as_ref().map(read) != Some(v.clone()) {
                        return Err(format!("width {} step {}: {:?} instead of {:?}", M, s, got.as_ref().map(read), v));
                    }
                    v = succ(M, &v);
                }
            }
            Ok(())
        });
    }
}
/// Several enumerations of one alphabet at once, at every small distance from each other.
fn beside<const N: u32>() {
    for a in 0..4 {
        for b in 0..4 {
            case(|| format!("width {}: enumerations {} and {} words ahead of a third", N, a, b), || {
                let mut its = [TensorBasis::<N>::iter_keys(), TensorBasis::<N>::iter_keys(), TensorBasis::<N>::iter_keys()];
                let mut at = [0u128, 0, 0];
                let mut go = |i: usize| {
                    let want = if at[i] < start(N, depth::<N>() as u32 + 1) { Some(unrank(N, at[i])) } else { None };
                    let got = its[i].next().map(|k| read(&k));
                    at[i] += 1;
                    step(1);
                    if got != want {
                        return Err(format!("enumeration {} gives {:?} instead of {:?}", i, got, want));
                    }
                    Ok(())
                };
                state(&(N, a, b));
                for _ in 0..a {
                    go(0)?;
                }
                for _ in 0..b {
                    go(1)?;
                }
                for _ in 0..400 {
                    for i in 0..3 {
                        go(i)?;
                    }
                }
                Ok(())
            });
        }
    }
}
fn main() {
    let mut g = width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: the first 20000 (thorough 1000000) words, 4 (12) steps from each word of C01's word set and from every carry pattern of every length, and the end of the enumeration",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    g.push(group("side-by-side", "three enumerations of one alphabet in turn, up to 3 words apart, 400 words each, 8 widths", |_| {
        beside::<1>();
        beside::<2>();
        beside::<3>();
        beside::<4>();
        beside::<5>();
        beside::<20>();
        beside::<256>();
        beside::<4294967295>();
    }));
    vp_harness::ctx::main(g);
}
