//! C13: accumulating products and commutators add exactly the product.
use rustyalgebra::algebra::Algebra;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn degree(n: u32, len: usize) -> u32 {
    (0..).find(|d| dim(n, *d) >= len).unwrap()
}
fn check<const N: u32, S: Sc, V: Ten<N, S>>(t: &[S], a: &[S], b: &[S], d: u32, f: &S) -> Result<(), String> {
    let (x, y) = (V::mk(a), V::mk(b));
    let e = d.min(degree(N, a.len()) + degree(N, b.len()));
    let p = mul(N, a, b, e);
    let q = mul(N, b, a, e);
    let mut r = V::mk(t);
    r.add_mul(&x, &y, Some(d));
    same("target plus product", r.sl(), &add(t, &p))?;
    let mut r = V::mk(t);
    r.sub_mul(&x, &y, Some(d));
    same("target minus product", r.sl(), &sub(t, &p))?;
    let mut r = V::mk(t);
    r.multiply_and_add_into_impl(&x, &y, |v| v.mmul(f), Some(d));
    let fp: Vec<S> = p.iter().map(|v| v.mmul(f)).collect();
    same("target plus function of product", r.sl(), &add(t, &fp))?;
    // Twice into the same target.
    r.add_mul(&y, &x, Some(d));
    same("second product into the same target", r.sl(), &add(&add(t, &fp), &q))?;
    same("commutator", x.commutator(&y, Some(d)).sl(), &sub(&p, &q))?;
    same("commutator with itself", x.commutator(&x, Some(d)).sl(), &[])?;
    let mut r = V::mk(t);
    r.add_mul(&x, &x, Some(d));
    same("target plus square", r.sl(), &add(t, &mul(N, a, a, d.min(2 * degree(N, a.len())))))?;
    step(7);
    kept("left factor", x.sl(), a)?;
    kept("right factor", y.sl(), b)?;
    let mut r = V::mk(t);
    r.add_mul(x, y, Some(d));
    step(1);
    same("target plus product of owned factors", r.sl(), &add(t, &p))?;
    outcome(&p.iter().map(|s| s.enc()).collect::<Vec<u64>>());
    Ok(())
}
fn run_on<const N: u32, S: Sc, V: Ten<N, S>>(label: &str, t: &[S], a: &[S], b: &[S], d: u32, f: &S) {
    let e = |x: &[S]| x.iter().map(|s| s.enc()).collect::<Vec<u64>>();
    state(&(label, N, e(t), e(a), e(b), d));
    case(|| format!("{} width {}, {}: target {}, factors {} and {}, degree {}, function times {:?}", label, N, V::WHAT, text(t), text(a), text(b), d, f), || check::<N, S, V>(t, a, b, d, f));
}
fn run<const N: u32, S: Sc>(label: &str, t: &[S], a: &[S], b: &[S], d: u32, f: &S) {
    run_on::<N, S, T<N, S>>(label, t, a, b, d, f)
}
/// Target and factors that are zero in any set of degrees, complete or cut within a degree.
fn by_levels<const N: u32>(dt: u32, da: u32, db: u32, cuts: &[(usize, usize, usize)]) {
    for &(ct, ca, cb) in cuts {
        for kt in 0..1 << (dt + 1) {
            for ka in 0..1 << (da + 1) {
                for kb in 0..1 << (db + 1) {
                    let t = levels(N, &generic::<0>(dim(N, dt) - ct, 200), kt);
                    let a = levels(N, &generic::<0>(dim(N, da) - ca, 0), ka);
                    let b = levels(N, &generic::<0>(dim(N, db) - cb, 100), kb);
                    for d in 0..=da + db {
                        run::<N, Poly<0>>("levels", &t, &a, &b, d, &Poly::int(-3));
                    }
                }
            }
        }
    }
}
/// Tensor types of a user.
fn users<const N: u32>(tmax: usize, max: usize) {
    let top = 2 * degree(N, max) + 1;
    for lt in 0..=tmax {
        for la in 0..=max {
            for lb in 0..=max {
                for d in 0..=top {
                    let (t, a, b) = (generic::<0>(lt, 200), generic::<0>(la, 0), generic::<0>(lb, 100));
                    run_on::<N, Poly<0>, User<N, Poly<0>>>("users", &t, &a, &b, d, &Poly::var(300));
                    run_on::<N, Poly<0>, vp_harness::vecs::Wrap<T<N, Poly<0>>>>("users", &t, &a, &b, d, &Poly::var(300));
                }
            }
        }
    }
}
/// Every size of target and factors with indeterminate coefficients.
fn indeterminate<const N: u32>(tmax: usize, max: usize) {
    let top = 2 * degree(N, max) + 1;
    for lt in 0..=tmax {
        for la in 0..=max {
            for lb in 0..=max {
                for d in (0..=top).chain([u32::MAX]) {
                    run::<N, Poly<0>>("indeterminate", &generic(lt, 200), &generic(la, 0), &generic(lb, 100), d, &Poly::var(300));
                }
            }
        }
    }
}
fn targets<const N: u32>(lens: &[usize], max: usize) {
    let top = 2 * degree(N, max) + 1;
    for &lt in lens {
        for la in 0..=max {
            for lb in 0..=max {
                for d in [0, 1, 2, top - 1, top] {
                    run::<N, Poly<0>>("indeterminate", &generic(lt, 200), &generic(la, 0), &generic(lb, 100), d, &Poly::var(300));
                }
            }
        }
    }
}
fn every<const N: u32, const P: u64>(tlen: usize, len: usize, top: u32) {
    let vals: Vec<Fp<P>> = (0..P).map(Fp).collect();
    let all = all_upto(len, &vals);
    for t in all_upto(tlen, &vals) {
        for a in &all {
            for b in &all {
                for d in 0..=top {
                    run::<N, Fp<P>>("every", &t, a, b, d, &Fp(P - 1));
                }
            }
        }
    }
}
fn large<const N: u32>(degs: &[u32], top: u32) {
    for &dt in degs {
        for &da in degs {
            for &db in degs {
                for cut in [0, 1] {
                    let l = |d: u32| dim(N, d) - cut.min(dim(N, d) / 2);
                    for d in [0, da, da + db, (da + db).saturating_sub(1), dt] {
                        if d <= top {
                            run::<N, Big>("large", &nths(l(dt), 7000), &nths(l(da), 3), &nths(l(db), 4000), d, &Fp(17));
                        }
                    }
                }
            }
        }
    }
}
/// One factor or the target of every length, cut anywhere, the others of a few lengths; all truncations.
fn cuts<const N: u32>(max: usize, others: &[usize]) {
    for l in 0..=max {
        for &o in others {
            for &p in others {
                for (lt, la, lb) in [(l, o, p), (o, l, p), (p, o, l)] {
                    for d in 0..=degree(N, la) + degree(N, lb) {
                        run::<N, Big>("cuts", &nths(lt, 7000), &nths(la, 3), &nths(lb, 4000), d, &Fp(17));
                    }
                }
            }
        }
    }
}
/// Special values in any of the usual places, special factors.
fn special<const N: u32>(lens: &[usize]) {
    for &la in lens {
        for &lb in lens {
            for a in marked::<Big>(N, la, 3) {
                for b in marked::<Big>(N, lb, 4000) {
                    let d = degree(N, la) + degree(N, lb);
                    for d in [d, d.saturating_sub(1)] {
                        for (t, f) in [(nths(la + lb, 7000), 17), (vec![], -1), (nths(1, 7000), 1)] {
                            run::<N, Big>("special", &t, &a, &b, d, &Big::int(f));
                        }
                    }
                }
            }
        }
    }
    // The target is special.
    for &lt in lens {
        for t in marked::<Big>(N, lt, 7000) {
            for &la in lens {
                for (a, b) in [(nths(la, 3), nths(la, 4000)), (nths(1, 3), nths(la, 4000)), (vec![Big::int(0); la], nths(la, 9))] {
                    for f in [17, 0, 1, -1] {
                        run::<N, Big>("special", &t, &a, &b, degree(N, la) + 1, &Big::int(f));
                    }
                }
            }
        }
    }
}
/// Very long factors and targets.
fn huge<const N: u32>(d: u32) {
    for (la, lb) in long_pairs(N, d) {
        for lt in [dim(N, d), 1, dim(N, d - 1) + 1] {
            run::<N, Big>("huge", &nths(lt, 7000), &nths(la, 3), &nths(lb, 4000), d, &Fp(17));
            alive();
        }
    }
}
fn floats<const N: u32>(max: usize) {
    for lt in [0, 1, 3, max, 2 * max] {
        for la in 0..=max {
            for lb in 0..=max {
                for d in 0..=4 {
                    run::<N, f64>("f64", &nths(lt, 7), &nths(la, 1), &nths(lb, 20), d, &0.5);
                    run::<N, f32>("f32", &nths(lt, 7), &nths(la, 1), &nths(lb, 20), d, &-2.0);
                }
            }
        }
    }
}
/// Two alphabets in turn, with factors of the same sizes.
fn turn<const N: u32, const M: u32>(max: usize, top: u32) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=(degree(N, la) + degree(N, lb)).max(degree(M, la) + degree(M, lb)).min(top) {
                run::<N, Big>("turn", &nths(lb, 7000), &nths(la, 3), &nths(lb, 4000), d, &Fp(17));
                run::<M, Big>("turn", &nths(lb, 7000), &nths(la, 3), &nths(lb, 4000), d, &Fp(17));
                run::<N, Big>("turn", &nths(lb, 7000), &nths(la, 3), &nths(lb, 4000), d, &Fp(17));
            }
        }
    }
}
fn main() {
    let ind = "indeterminate coefficients, sizes of target and factors, truncation degrees";
    vp_harness::ctx::main(vec![
        group("indeterminate-1", ind, |t| indeterminate::<1>(t.pick(12, 16), t.pick(6, 8))),
        group("indeterminate-2", ind, |t| indeterminate::<2>(t.pick(16, 20), t.pick(7, 9))),
        group("indeterminate-2-targets", ind, |t| targets::<2>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 31, 33, 63], t.pick(11, 20))),
        group("indeterminate-3", ind, |t| indeterminate::<3>(14, t.pick(6, 9))),
        group("indeterminate-3-targets", ind, |t| targets::<3>(&[0, 1, 4, 5, 13, 20, 40], t.pick(13, 20))),
        group("indeterminate-5-targets", ind, |t| targets::<5>(&[0, 1, 5, 6, 7, 31, 40], t.pick(9, 14))),
        group("levels", "indeterminate coefficients, every set of zero degrees in target and factors, complete and partial top degrees, all truncations", |t| {
            by_levels::<1>(3, 2, 2, &[(0, 0, 0)]);
            by_levels::<2>(2, 2, 2, &[(0, 0, 0), (1, 1, 1), (2, 0, 3), (3, 2, 0)]);
            by_levels::<2>(3, t.pick(1, 3), 2, &[(0, 0, 0), (4, 0, 1)]);
            by_levels::<3>(2, 2, t.pick(1, 2), &[(0, 0, 0), (0, 4, 1)]);
        }),
        group("user-types", "a user's own tensor type and a user's wrapper, indeterminate coefficients, all sizes, all truncations", |t| {
            users::<1>(5, 3);
            users::<2>(8, t.pick(5, 7));
            users::<3>(t.pick(6, 8), t.pick(5, 8));
        }),
        group("every-F2-width-2", "all tensors up to 4 (thorough 5) coefficients over F_2", |t| every::<2, 2>(4, t.pick(4, 5), 3)),
        group("every-F3-width-1", "all tensors up to 3 coefficients over F_3", |t| every::<1, 3>(3, 3, t.pick(3, 5))),
        group("large-1-2", "deep products over F_1000003", |_| {
            large::<1>(&[0, 1, 5, 20, 29], 58);
            large::<2>(&[0, 1, 3, 5, 6], 10);
        }),
        group("large-3-4", "deep products over F_1000003", |_| {
            large::<3>(&[0, 1, 2, 4], 6);
            large::<4>(&[0, 1, 2, 3], 5);
        }),
        group("cuts", "target or one factor of every length up to 140 (thorough 364), the others of a few lengths, all truncations, over F_1000003", |t| {
            cuts::<1>(40, &[0, 2, 17]);
            cuts::<2>(t.pick(140, 300), &[1, 6, 11]);
            cuts::<3>(t.pick(122, 364), &[3, 9, 14]);
            cuts::<5>(t.pick(60, 160), &[4, 17]);
            cuts::<33>(34, &[2, 34]);
        }),
        group("special-1-2", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<1>(&[1, 4, 12]);
            special::<2>(t.pick(&[3, 7, 20][..], &[1, 2, 3, 5, 7, 12, 15, 20, 31, 40]));
        }),
        group("special-3-5", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<3>(t.pick(&[4, 20][..], &[1, 4, 5, 13, 22, 40]));
            special::<5>(t.pick(&[31][..], &[6, 20, 31, 40]));
        }),
        group("huge-1-3", "target, factors and products of up to 98000 (thorough 270000) coefficients over F_1000003", |t| {
            huge::<1>(t.pick(1200, 4000));
            huge::<2>(t.pick(15, 17));
            huge::<3>(t.pick(10, 11));
        }),
        group("huge-5-1000", "target, factors and products of up to 98000 (thorough 1001001) coefficients over F_1000003", |t| {
            huge::<5>(7);
            huge::<16>(4);
            huge::<40>(3);
            huge::<256>(2);
            huge::<1000>(t.pick(1, 2));
        }),
        group("large-wide", "wide alphabets", |_| {
            large::<10>(&[0, 1, 2], 3);
            large::<16>(&[0, 1], 2);
            large::<100>(&[0, 1], 2);
        }),
        group("floats", "small integers as f64 and f32", |t| {
            floats::<1>(4);
            floats::<2>(t.pick(10, 15));
            floats::<3>(5);
        }),
        group("two-alphabets", "pairs of widths in turn, factors of the same sizes up to 15, all truncations, over F_1000003", |_| {
            turn::<1, 2>(12, 6);
            turn::<2, 3>(15, 6);
            turn::<2, 4>(13, 6);
            turn::<3, 4>(13, 6);
            turn::<3, 5>(10, 6);
            turn::<8, 9>(12, 3);
            turn::<2, 258>(9, 2);
            turn::<3, 259>(9, 2);
            turn::<255, 256>(6, 2);
        }),
    ]);
}
