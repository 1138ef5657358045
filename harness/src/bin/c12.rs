//! C12: tensor multiplication is the truncated concatenation product.
use rustyalgebra::algebra::Algebra;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens::*;
use std::hash::Hash;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn product<const N: u32, S: Sc, V: Ten<N, S>>(a: &[S], b: &[S], d: u32) -> Result<(), String> {
    let (x, y) = (V::mk(a), V::mk(b));
    let da = degree(N, a.len());
    let db = degree(N, b.len());
    let want = mul(N, a, b, d.min(da + db));
    let r = x.multiply(&y, Some(d));
    step(1);
    same("product", r.sl(), &want)?;
    kept("left factor", x.sl(), a)?;
    kept("right factor", y.sl(), b)?;
    same("square", x.multiply(&x, Some(d)).sl(), &mul(N, a, a, d.min(2 * da)))?;
    kept("the factor of a square", x.sl(), a)?;
    step(2);
    same("product with an owned factor", x.multiply(y, Some(d)).sl(), &want)?;
    outcome(&want.iter().map(|s| s.enc()).collect::<Vec<u64>>());
    Ok(())
}
fn degree(n: u32, len: usize) -> u32 {
    (0..).find(|d| dim(n, *d) >= len).unwrap()
}
fn run_on<const N: u32, S: Sc, V: Ten<N, S>>(label: &str, a: &[S], b: &[S], d: u32) {
    let h: (Vec<u64>, Vec<u64>) = (a.iter().map(|s| s.enc()).collect(), b.iter().map(|s| s.enc()).collect());
    state(&(label, N, h, d));
    case(|| format!("{} width {}, {}: {} times {} to degree {}", label, N, V::WHAT, text(a), text(b), d), || product::<N, S, V>(a, b, d));
}
fn run<const N: u32, S: Sc>(label: &str, a: &[S], b: &[S], d: u32) {
    run_on::<N, S, T<N, S>>(label, a, b, d)
}
/// Factors that are zero in any set of degrees, complete or cut within a degree.
fn by_levels<const N: u32>(da: u32, db: u32, cuts: &[(usize, usize)]) {
    for &(ca, cb) in cuts {
        for ka in 0..1 << (da + 1) {
            for kb in 0..1 << (db + 1) {
                let a = levels(N, &generic::<0>(dim(N, da) - ca, 0), ka);
                let b = levels(N, &generic::<0>(dim(N, db) - cb, 100), kb);
                for d in 0..=da + db + 1 {
                    run::<N, Poly<0>>("levels", &a, &b, d);
                }
            }
        }
    }
}
/// Tensor types of a user.
fn users<const N: u32>(max: usize) {
    let top = 2 * degree(N, max) + 1;
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=top {
                let (a, b) = (generic::<0>(la, 0), generic::<0>(lb, 100));
                run_on::<N, Poly<0>, User<N, Poly<0>>>("users", &a, &b, d);
                run_on::<N, Poly<0>, vp_harness::vecs::Wrap<T<N, Poly<0>>>>("users", &a, &b, d);
            }
        }
    }
}
/// Indeterminate coefficients: every pair of sizes, every truncation.
fn indeterminate<const N: u32>(max: usize, t: Tier, step_by: usize) {
    let top = 2 * degree(N, max) + 1;
    for la in 0..=max {
        for lb in 0..=max {
            if step_by > 1 && la % step_by > 1 && lb % step_by > 1 && t == Tier::Quick {
                continue;
            }
            for d in (0..=top).chain([1000, u32::MAX]) {
                run::<N, Poly<0>>("indeterminate", &generic(la, 0), &generic(lb, 100), d);
            }
            // Constant terms that invite shortcuts.
            for (p, q) in [(Some(0), None), (Some(1), None), (None, Some(0)), (None, Some(1)), (Some(1), Some(1)), (Some(-1), Some(0)), (Some(0), Some(0))] {
                let (a, b) = (with_constant(&generic::<0>(la, 0), p), with_constant(&generic::<0>(lb, 100), q));
                for d in [top / 2, top] {
                    run::<N, Poly<0>>("indeterminate", &a, &b, d);
                }
            }
        }
    }
}
fn every<const N: u32, S: Sc + Hash>(vals: &[S], len: usize, top: u32) {
    let all = all_upto(len, vals);
    for a in &all {
        for b in &all {
            for d in 0..=top {
                run::<N, S>("every", a, b, d);
            }
        }
    }
}
/// Deep and wide products over a large field.
fn large<const N: u32>(degs: &[u32], top: u32) {
    for &da in degs {
        for &db in degs {
            for (ca, cb) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                let la = dim(N, da) - ca.min(dim(N, da) / 2);
                let lb = dim(N, db) - cb.min(dim(N, db) / 2);
                for d in [0, 1, da, db, da + db, top.min(da + db).saturating_sub(1)] {
                    if d <= top {
                        run::<N, Big>("large", &nths(la, 3), &nths(lb, 4000), d);
                    }
                }
            }
        }
    }
}
/// One factor of every length, cut anywhere, the other of a few lengths; all truncations.
fn cuts<const N: u32>(max: usize, others: &[usize]) {
    for l in 0..=max {
        for &o in others {
            for (la, lb) in [(l, o), (o, l)] {
                for d in 0..=degree(N, la) + degree(N, lb) {
                    run::<N, Big>("cuts", &nths(la, 3), &nths(lb, 4000), d);
                }
            }
        }
    }
}
/// Single words: all pairs, so every place of every product on its own.
fn words<const N: u32>(len: usize) {
    for i in 0..len {
        for j in 0..len {
            let mut a = vec![Big::int(0); len];
            let mut b = vec![Big::int(0); len];
            a[i] = Big::int(3);
            b[j] = Big::int(5);
            let d = degree(N, len);
            for d in [d, 2 * d] {
                run::<N, Big>("words", &a[..i + 1], &b[..j + 1], d);
                run::<N, Big>("words", &a, &b, d);
            }
        }
    }
}
/// Special values in any of the usual places.
fn special<const N: u32>(lens: &[usize]) {
    for &la in lens {
        for &lb in lens {
            for a in marked::<Big>(N, la, 3) {
                for b in marked::<Big>(N, lb, 4000) {
                    let d = degree(N, la) + degree(N, lb);
                    for d in [d, d.saturating_sub(1)] {
                        run::<N, Big>("special", &a, &b, d);
                    }
                }
            }
        }
    }
}
/// Very long factors: products of many thousands of coefficients.
fn huge<const N: u32>(d: u32) {
    for (la, lb) in long_pairs(N, d) {
        for d in [d, d - 1] {
            run::<N, Big>("huge", &nths(la, 3), &nths(lb, 4000), d);
            alive();
        }
    }
}
fn floats<const N: u32>(max: usize) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=5 {
                run::<N, f64>("f64", &nths(la, 1), &nths(lb, 20), d);
                run::<N, f32>("f32", &nths(la, 2), &nths(lb, 30), d);
            }
        }
    }
}

/// Two alphabets in turn, with factors of the same sizes.
fn turn<const N: u32, const M: u32>(max: usize, top: u32) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=(degree(N, la) + degree(N, lb)).max(degree(M, la) + degree(M, lb)).min(top) {
                run::<N, Big>("turn", &nths(la, 3), &nths(lb, 4000), d);
                run::<M, Big>("turn", &nths(la, 3), &nths(lb, 4000), d);
                run::<N, Big>("turn", &nths(la, 3), &nths(lb, 4000), d);
            }
        }
    }
}
fn main() {
    let ind = "indeterminate coefficients, all pairs of sizes (partial degrees and empty included), all truncation degrees";
    vp_harness::ctx::main(vec![
        group("indeterminate-1", ind, |t| indeterminate::<1>(t.pick(14, 20), t, 1)),
        group("indeterminate-2", ind, |t| indeterminate::<2>(t.pick(20, 40), t, 1)),
        group("indeterminate-3", ind, |t| indeterminate::<3>(t.pick(18, 44), t, 1)),
        group("indeterminate-4", ind, |t| indeterminate::<4>(t.pick(21, 30), t, 7)),
        group("indeterminate-5", ind, |t| indeterminate::<5>(t.pick(12, 35), t, 1)),
        group("indeterminate-7", ind, |t| indeterminate::<7>(t.pick(12, 24), t, 1)),
        group("indeterminate-10", ind, |t| indeterminate::<10>(t.pick(11, 15), t, 4)),
        group("every-F3-width-2", "all tensors up to degree 1 over F_3, all truncations", |_| every::<2, F3>(&[Fp(0), Fp(1), Fp(2)], 3, 3)),
        group("every-F3-width-1", "all tensors of up to 4 coefficients over F_3", |t| every::<1, F3>(&[Fp(0), Fp(1), Fp(2)], t.pick(4, 5), 5)),
        group("every-F2-width-2", "all tensors of up to 7 (thorough 8) coefficients over F_2", |t| every::<2, F2>(&[Fp(0), Fp(1)], t.pick(7, 8), 4)),
        group("every-F2-width-3", "all tensors of up to 6 (thorough 8) coefficients over F_2", |t| every::<3, F2>(&[Fp(0), Fp(1)], t.pick(6, 8), 3)),
        group("levels", "indeterminate coefficients, every set of zero degrees in each factor, complete and partial top degrees, all truncations", |t| {
            by_levels::<1>(4, 4, &[(0, 0)]);
            by_levels::<2>(3, 3, t.pick(&[(0, 0), (1, 0), (5, 3)][..], &[(0, 0), (1, 0), (0, 1), (5, 3), (2, 7), (7, 2)]));
            by_levels::<2>(4, t.pick(2, 3), &[(0, 0), (1, 2), (2, 0)]);
            by_levels::<3>(2, 2, &[(0, 0), (1, 0), (0, 4)]);
            by_levels::<4>(2, 2, &[(0, 0), (3, 0)]);
        }),
        group("user-types", "a user's own tensor type and a user's wrapper, indeterminate coefficients, all pairs of sizes, all truncations", |t| {
            users::<1>(8);
            users::<2>(15);
            users::<3>(t.pick(13, 20));
        }),
        group("words", "all pairs of single words", |t| {
            words::<1>(12);
            words::<2>(t.pick(40, 127));
            words::<3>(t.pick(40, 121));
            words::<5>(31);
            words::<6>(43);
        }),
        group("large-1-2", "deep products over F_1000003", |t| {
            large::<1>(&[0, 1, 5, 13, 20, 29], 58);
            large::<2>(t.pick(&[0, 1, 3, 5, 6], &[0, 1, 2, 3, 4, 5, 6, 7]), 12);
        }),
        group("large-3-8", "deep products over F_1000003", |t| {
            large::<3>(&[0, 1, 2, 3, 4], 7);
            large::<4>(&[0, 1, 2, 3], t.pick(5, 6));
            large::<8>(&[0, 1, 2], 4);
        }),
        group("cuts", "one factor of every length up to 364 (thorough 1100), the other of a few lengths, all truncations, over F_1000003", |t| {
            cuts::<1>(58, &[0, 1, 2, 17]);
            cuts::<2>(t.pick(300, 1030), &[1, 2, 6, 11, 31, 70]);
            cuts::<3>(t.pick(364, 1100), &[1, 3, 9, 13, 41]);
            cuts::<5>(t.pick(157, 790), &[1, 4, 6, 17, 35]);
            cuts::<9>(91, &[1, 6, 12]);
            cuts::<33>(34, &[2, 20, 34]);
        }),
        group("special-1-2", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<1>(&[1, 4, 12]);
            special::<2>(t.pick(&[1, 3, 7, 20, 40][..], &[1, 2, 3, 5, 7, 12, 15, 20, 31, 40, 70]));
        }),
        group("special-3-5", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<3>(t.pick(&[4, 13, 31][..], &[1, 4, 5, 13, 22, 40, 45]));
            special::<5>(t.pick(&[6, 31][..], &[6, 20, 31, 40]));
            special::<20>(&[21]);
        }),
        group("huge-1-3", "factors and products of up to 98000 (thorough 800000) coefficients over F_1000003", |t| {
            huge::<1>(t.pick(2000, 6000));
            huge::<2>(t.pick(15, 18));
            huge::<3>(t.pick(10, 12));
        }),
        group("huge-5-1000", "factors and products of up to 98000 (thorough 1001001) coefficients over F_1000003", |t| {
            huge::<5>(t.pick(7, 8));
            huge::<16>(4);
            huge::<40>(3);
            huge::<256>(2);
            huge::<1000>(t.pick(1, 2));
        }),
        group("large-wide", "wide alphabets", |_| {
            large::<16>(&[0, 1, 2], 3);
            large::<17>(&[0, 1, 2], 3);
            large::<26>(&[0, 1], 2);
            large::<64>(&[0, 1], 2);
            large::<100>(&[0, 1], 2);
        }),
        group("floats", "small integers as f64 and f32", |_| {
            floats::<1>(6);
            floats::<2>(15);
            floats::<3>(13);
        }),
        group("two-alphabets", "pairs of widths in turn, factors of the same sizes up to 15, all truncations, over F_1000003", |_| {
            turn::<1, 2>(12, 6);
            turn::<2, 3>(15, 6);
            turn::<2, 4>(13, 6);
            turn::<3, 4>(13, 6);
            turn::<3, 5>(10, 6);
            turn::<8, 9>(12, 3);
            turn::<2, 258>(9, 2);
            turn::<3, 259>(9, 2);
            turn::<255, 256>(6, 2);
        }),
    ]);
}
