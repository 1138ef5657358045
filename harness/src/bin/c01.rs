//! C01: a packed word keeps exactly the letters it was built from.
use rustyalgebra::free_tensor::TensorKey;
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn holds<const N: u32>(k: &TensorKey<N>, w: &[u32], how: &str) -> Result<(), String> {
    let len = w.len();
    step(3 + len as u64);
    if k.size() as usize != len {
        return Err(format!("{}: length {} instead of {}", how, k.size(), len));
    }
    for i in 0..len {
        if k.get_letter(i as u32) != w[len - 1 - i] {
            return Err(format!("{}: letter {} from the end is {} instead of {}", how, i, k.get_letter(i as u32), w[len - 1 - i]));
        }
    }
    let mut l = k.to_letters();
    l.reverse();
    if l != w {
        return Err(format!("{}: letters (reversed) {:?}", how, l));
    }
    #[cfg(feature = "hooks")]
    {
        use rustyalgebra::free_tensor::TensorKeyIterator;
        let mut it = TensorKeyIterator::<N>::vp_new(k);
        for (i, x) in w.iter().enumerate() {
            let got = it.next();
            if got != Some(*x) {
                return Err(format!("{}: letter iterator gives {:?} at {}", how, got, i));
            }
            let ((lo, hi), left) = (it.size_hint(), len - 1 - i);
            if lo > left || hi.map_or(false, |h| h < left) {
                return Err(format!("{}: letter iterator announces {:?} letters, {} are left", how, (lo, hi), left));
            }
        }
        for _ in 0..2 {
            if let Some(x) = it.next() {
                return Err(format!("{}: letter iterator goes on after the end with {}", how, x));
            }
        }
        let it = || TensorKeyIterator::<N>::vp_new(k);
        let (lo, hi) = it().size_hint();
        if lo > len || hi.map_or(false, |h| h < len) {
            return Err(format!("{}: letter iterator announces {:?} letters", how, (lo, hi)));
        }
        if it().count() != len || it().last() != w.last().copied() || it().fold(vec![], |mut v, x| { v.push(x); v }) != w {
            return Err(format!("{}: letter iterator counts, ends or folds wrongly", how));
        }
        for i in [0, 1, 2, len / 2, len.saturating_sub(1), len, len + 1] {
            let mut j = it();
            let got = (j.nth(i), j.next());
            if got != (w.get(i).copied(), w.get(i + 1).copied()) {
                return Err(format!("{}: letter iterator skipping {} gives {:?}", how, i, got));
            }
        }
    }
    Ok(())
}

fn same<const N: u32>(a: &TensorKey<N>, b: &TensorKey<N>, equal: bool, how: &str) -> Result<(), String> {
    if (a == b) != equal || (b == a) != equal || (a != b) == equal {
        return Err(format!("{}: words {} equal", how, if equal { "are not" } else { "are" }));
    }
    Ok(())
}

fn check_word<const N: u32>(w: &[u32], d: usize, vals: &[u32], tier: Tier) -> Result<(), String> {
    let len = w.len();
    let k = TensorKey::<N>::from_letters(w);
    holds(&k, w, "from a list")?;
    let again = k.clone();
    holds(&again, w, "clone")?;
    same(&k, &again, true, "clone")?;
    same(&k, k.as_ref(), true, "as_ref")?;
    let mut over = TensorKey::<N>::from_letter(N);
    over.clone_from(&k);
    holds(&over, w, "clone over another word")?;
    if len == 0 {
        let e = TensorKey::<N>::new();
        holds(&e, w, "new")?;
        same(&k, &e, true, "new")?;
    }
    // Putting letters in front, one at a time.
    let mut p = TensorKey::<N>::new();
    for (i, &l) in w.iter().enumerate().rev() {
        p.push_front(l);
        if i == 0 || len <= 4 {
            holds(&p, &w[i..], "letters put in front")?;
        }
    }
    same(&k, &p, true, "letters put in front")?;
    // Single letters concatenated from either side, and every split.
    let mut a = TensorKey::<N>::new();
    let mut b = TensorKey::<N>::new();
    for i in 0..len {
        a = a.concatenate(&TensorKey::<N>::from_letter(w[i]));
        b = TensorKey::<N>::from_letter(w[len - 1 - i]).concatenate(&b);
    }
    holds(&a, w, "letters appended")?;
    same(&k, &a, true, "letters appended")?;
    same(&k, &b, true, "letters prepended")?;
    step(4 * len as u64);
    for s in 0..=len {
        if tier == Tier::Quick && len > 12 && s % 5 != 0 && s != len && s != len / 2 {
            continue;
        }
        let (x, y) = (key::<N>(&w[..s]), key::<N>(&w[s..]));
        let c = x.concatenate(&y);
        step(3);
        holds(&c, w, "concatenation")?;
        same(&k, &c, true, "concatenation")?;
        holds(&x, &w[..s], "left operand of concatenation")?;
        holds(&y, &w[s..], "right operand of concatenation")?;
    }
    // Different words are different: any other letter anywhere, one letter more or less.
    let few = [1, N, N / 2 + 1];
    let others: &[u32] = if len <= 3 { vals } else { &few };
    for i in 0..len {
        for &v in others {
            if v != w[i] {
                let mut x = w.to_vec();
                x[i] = v;
                same(&k, &key::<N>(&x), false, "one letter changed")?;
                step(1);
            }
        }
        if tier == Tier::Thorough || i == 0 || i + 1 == len {
            let mut x = w.to_vec();
            x.remove(i);
            same(&k, &key::<N>(&x), false, "one letter less")?;
            step(1);
        }
    }
    if len < d {
        for &v in &few {
            let mut x = w.to_vec();
            x.push(v);
            same(&k, &key::<N>(&x), false, "one letter appended")?;
            x.pop();
            x.insert(0, v);
            same(&k, &key::<N>(&x), false, "one letter prepended")?;
            step(2);
        }
    }
    Ok(())
}

fn run<const N: u32>(tier: Tier) {
    let d = {
        let mut d = 0;
        case(|| format!("width {}: maximum depth", N), || {
            d = depth::<N>();
            if d < 1 || d > 64 || max_degree::<N>() as usize != d {
                return Err(format!("maximum depth {} (basis: {})", d, max_degree::<N>()));
            }
            Ok(())
        });
        d
    };
    let vals = letters(N, 6);
    explore_words(N, d, tier, &mut |w| {
        if state(&(N, w)) {
            case(|| format!("width {} word {:?}", N, w), || check_word::<N>(w, d, &vals, tier));
        }
    });
    // All pairs of short words.
    let short = all_short(N, d.min(4), 130);
    for a in &short {
        case(|| format!("width {} word {:?} against all short words", N, a), || {
            let x = key::<N>(a);
            for b in &short {
                same(&x, &key::<N>(b), a == b, &format!("{:?}", b))?;
            }
            step(2 * short.len() as u64);
            Ok(())
        });
    }
    // Every letter of the alphabet as a word (all of them up to a bound).
    for l in 1..=N.min(tier.pick(300, 70_000)) {
        case(|| format!("width {} letter {}", N, l), || {
            let k = TensorKey::<N>::from_letter(l);
            holds(&k, &[l], "single letter")?;
            same(&k, &key::<N>(&[l]), true, "single letter")
        });
    }
}

/// One operation over one alphabet, the same over another, the first again.
fn turn<A, B>(what: &str, a: impl Fn() -> A, b: impl Fn() -> B, ok: impl Fn(&A) -> Result<(), String>, okb: impl Fn(&B) -> Result<(), String>) -> Result<(), String> {
    let (x, y, z) = (a(), b(), a());
    step(3);
    ok(&x).map_err(|e| format!("{}, first: {}", what, e))?;
    okb(&y).map_err(|e| format!("{}, second alphabet: {}", what, e))?;
    ok(&z).map_err(|e| format!("{}, again: {}", what, e))
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    let (dn, dm) = (depth::<N>(), depth::<M>());
    case(|| format!("widths {} and {}: maximum depth in turn", N, M), || {
        let (x, y, z) = (depth::<N>(), depth::<M>(), depth::<N>());
        if (x, y, z) != (dn, dm, dn) || max_degree::<N>() as usize != dn || max_degree::<M>() as usize != dm {
            return Err(format!("maximum depths {:?} and {:?}", (x, y, z), (dn, dm)));
        }
        Ok(())
    });
    let vals = letters(N.min(M), 4);
    for (w, x) in pair_words::<N, M>(tier.pick(120, 1500)) {
        case(|| format!("widths {} and {} in turn: words {:?} and {:?}", N, M, w, x), || {
            let h = |l: &[u32], k: &TensorKey<N>| holds(k, l, "word");
            let g = |l: &[u32], k: &TensorKey<M>| holds(k, l, "word");
            turn("from a list", || key::<N>(&w), || key::<M>(&x), |k| h(&w, k), |k| g(&x, k))?;
            let (k, j) = (key::<N>(&w), key::<M>(&x));
            turn("clone", || k.clone(), || j.clone(), |k| h(&w, k), |k| g(&x, k))?;
            let rev = |l: &[u32]| l.iter().rev().copied().collect::<Vec<u32>>();
            let eq = |a: &Vec<u32>, b: Vec<u32>| if *a == b { Ok(()) } else { Err(format!("letters {:?} instead of {:?}", a, b)) };
            turn("letters", || k.to_letters(), || j.to_letters(), |a| eq(a, rev(&w)), |a| eq(a, rev(&x)))?;
            for i in 0..w.len().min(x.len()) {
                let at = |l: &[u32]| l[l.len() - 1 - i];
                let one = |a: &u32, b: u32| if *a == b { Ok(()) } else { Err(format!("letter {} instead of {}", a, b)) };
                turn("one letter", || k.get_letter(i as u32), || j.get_letter(i as u32), |a| one(a, at(&w)), |a| one(a, at(&x)))?;
            }
            for s in [0, 1, w.len() / 2] {
                if s <= w.len() && s <= x.len() {
                    let (a, b) = (key::<N>(&w[..s]), key::<N>(&w[s..]));
                    let (c, d) = (key::<M>(&x[..s]), key::<M>(&x[s..]));
                    turn("concatenation", || a.concatenate(&b), || c.concatenate(&d), |k| h(&w, k), |k| g(&x, k))?;
                }
            }
            if w.len() < dn && x.len() < dm {
                for &l in &vals {
                    let (fw, fx) = ([&[l][..], &w].concat(), [&[l][..], &x].concat());
                    let p = || { let mut a = k.clone(); a.push_front(l); a };
                    let q = || { let mut a = j.clone(); a.push_front(l); a };
                    turn("letter put in front", p, q, |k| h(&fw, k), |k| g(&fx, k))?;
                    turn("one letter", || TensorKey::<N>::from_letter(l), || TensorKey::<M>::from_letter(l), |k| h(&[l], k), |k| g(&[l], k))?;
                }
            }
            Ok(())
        });
    }
}
fn main() {
    let mut g = width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: all words while fewer than 250 (thorough 6000), and all lengths up to the maximum depth with every word deviating from a constant word in at most 1 or 2 letters",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
