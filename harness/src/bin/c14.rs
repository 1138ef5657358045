//! C14: in-place and scaled products equal the out-of-place product.
use rustyalgebra::algebra::Algebra;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn degree(n: u32, len: usize) -> u32 {
    (0..).find(|d| dim(n, *d) >= len).unwrap()
}
fn check<const N: u32, S: Sc, V: Ten<N, S>>(a: &[S], b: &[S], d: u32, f: &S, r: &S::R) -> Result<(), String> {
    let y = V::mk(b);
    let p = mul(N, a, b, d.min(degree(N, a.len()) + degree(N, b.len())));
    let times: Vec<S> = p.iter().map(|v| v.mmul(f)).collect();
    let over: Vec<S> = p.iter().map(|v| v.mdiv(r)).collect();
    macro_rules! go {
        ($what:literal, $x:ident, $e:expr, $want:expr) => {{
            #[allow(unused_mut)]
            let mut $x = V::mk(a);
            $e;
            step(1);
            same($what, $x.sl(), $want)?;
            kept("the other factor", y.sl(), b)?;
        }};
    }
    go!("in-place product", x, x.multiply_inplace(&y, Some(d)), &p);
    go!("left scaled product", x, x.mul_scal_lprod(&y, f.clone(), Some(d)), &times);
    go!("right scaled product", x, x.mul_scal_rprod(&y, f.clone(), Some(d)), &times);
    go!("left divided product", x, x.mul_rat_ldiv(&y, r.clone(), Some(d)), &over);
    go!("right divided product", x, x.mul_rat_rdiv(&y, r.clone(), Some(d)), &over);
    go!("function of the product", x, x.multiply_into_impl(&y, |v| v.mmul(f), Some(d)), &times);
    // The out-of-place product, by the library.
    let out = {
        let x = V::mk(a);
        let out = x.multiply(&y, Some(d));
        kept("the left factor", x.sl(), a)?;
        out
    };
    step(1);
    same("out-of-place product", out.sl(), &p)?;
    let mut x = V::mk(a);
    x.multiply_inplace(V::mk(b), Some(d));
    same("in-place product with an owned factor", x.sl(), &p)?;
    // In place twice.
    x.multiply_inplace(&y, Some(d));
    same("in-place product twice", x.sl(), &mul(N, &p, b, d.min(degree(N, p.len()) + degree(N, b.len()))))?;
    step(2);
    outcome(&p.iter().map(|s| s.enc()).collect::<Vec<u64>>());
    Ok(())
}
fn run_on<const N: u32, S: Sc, V: Ten<N, S>>(label: &str, a: &[S], b: &[S], d: u32, f: &S, r: &S::R) {
    let e = |x: &[S]| x.iter().map(|s| s.enc()).collect::<Vec<u64>>();
    state(&(label, N, e(a), e(b), d, f.enc()));
    case(|| format!("{} width {}: {} times {} to degree {}, scalar {:?}, rational {:?}", label, N, text(a), text(b), d, f, r), || check::<N, S, V>(a, b, d, f, r));
}
fn run<const N: u32, S: Sc>(label: &str, a: &[S], b: &[S], d: u32, f: &S, r: &S::R) {
    run_on::<N, S, T<N, S>>(label, a, b, d, f, r)
}
/// Factors that are zero in any set of degrees, complete or cut within a degree.
fn by_levels<const N: u32>(da: u32, db: u32, cuts: &[(usize, usize)]) {
    for &(ca, cb) in cuts {
        for ka in 0..1 << (da + 1) {
            for kb in 0..1 << (db + 1) {
                for c in [None, Some(1)] {
                    if c.is_some() && kb & 1 == 0 {
                        continue;
                    }
                    let a = levels(N, &generic::<0>(dim(N, da) - ca, 0), ka);
                    let b = with_constant(&levels(N, &generic::<0>(dim(N, db) - cb, 100), kb), c);
                    for d in 0..=da + db {
                        run::<N, Poly<0>>("levels", &a, &b, d, &Poly::int(-3), &Q(7, 3));
                    }
                }
            }
        }
    }
}
/// Tensor types of a user.
fn users<const N: u32>(max: usize) {
    let top = 2 * degree(N, max) + 1;
    for la in 0..=max {
        for lb in 0..=max {
            for c in [None, Some(0), Some(1)] {
                for d in 0..=top {
                    let (a, b) = (generic::<0>(la, 0), with_constant(&generic::<0>(lb, 100), c));
                    run_on::<N, Poly<0>, User<N, Poly<0>>>("users", &a, &b, d, &Poly::var(300), &Q(7, 3));
                    run_on::<N, Poly<0>, vp_harness::vecs::Wrap<T<N, Poly<0>>>>("users", &a, &b, d, &Poly::var(300), &Q(-2, 1));
                }
            }
        }
    }
}
fn indeterminate<const N: u32>(max: usize) {
    let top = (2 * degree(N, max) + 1).min(8);
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=top {
                run::<N, Poly<0>>("indeterminate", &generic(la, 0), &generic(lb, 100), d, &Poly::var(300), &Q(7, 3));
            }
            for p in [None, Some(0), Some(1), Some(-1)] {
                for q in [None, Some(0), Some(1), Some(-1), Some(2)] {
                    let (a, b) = (with_constant(&generic::<0>(la, 0), p), with_constant(&generic::<0>(lb, 100), q));
                    for d in [1, top / 2, top] {
                        run::<N, Poly<0>>("indeterminate", &a, &b, d, &Poly::var(300), &Q(-2, 1));
                    }
                }
            }
        }
    }
}
fn every<const N: u32, const P: u64>(len: usize, top: u32) {
    let vals: Vec<Fp<P>> = (0..P).map(Fp).collect();
    let all = all_upto(len, &vals);
    for a in &all {
        for b in &all {
            for d in 0..=top {
                for f in 0..P {
                    run::<N, Fp<P>>("every", a, b, d, &Fp(f), &FpR(if f == 0 { 1 } else { f }));
                }
            }
        }
    }
}
fn large<const N: u32>(degs: &[u32], top: u32) {
    for &da in degs {
        for &db in degs {
            for cut in [0, 1] {
                let l = |d: u32| dim(N, d) - cut.min(dim(N, d) / 2);
                for c in [None, Some(0), Some(1)] {
                    for d in [0, da, da + db, (da + db).saturating_sub(1)] {
                        if d <= top {
                            run::<N, Big>("large", &nths(l(da), 3), &with_constant(&nths(l(db), 4000), c), d, &Fp(17), &FpR(19));
                        }
                    }
                }
            }
        }
    }
}
/// One factor of every length, cut anywhere, the other of a few lengths; all truncations.
fn cuts<const N: u32>(max: usize, others: &[usize]) {
    for l in 0..=max {
        for &o in others {
            for (la, lb) in [(l, o), (o, l)] {
                for c in [None, Some(0), Some(1)] {
                    for d in 0..=degree(N, la) + degree(N, lb) {
                        run::<N, Big>("cuts", &nths(la, 3), &with_constant(&nths(lb, 4000), c), d, &Fp(17), &FpR(19));
                    }
                }
            }
        }
    }
}
/// Special values in any of the usual places, special factors.
fn special<const N: u32>(lens: &[usize]) {
    for &la in lens {
        for &lb in lens {
            for a in marked::<Big>(N, la, 3) {
                for b in marked::<Big>(N, lb, 4000) {
                    let d = degree(N, la) + degree(N, lb);
                    for (d, f, r) in [(d, 17, 19), (d.saturating_sub(1), -1, 1), (d, 1, -1)] {
                        run::<N, Big>("special", &a, &b, d, &Big::int(f), &Big::rat(r));
                    }
                }
            }
        }
    }
}
/// Very long factors: products of many thousands of coefficients.
fn huge<const N: u32>(d: u32) {
    for (la, lb) in long_pairs(N, d) {
        for (c, d) in [(None, d), (Some(1), d), (Some(0), d - 1)] {
            run::<N, Big>("huge", &nths(la, 3), &with_constant(&nths(lb, 4000), c), d, &Fp(17), &FpR(19));
            alive();
        }
    }
}
fn floats<const N: u32>(max: usize) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=4 {
                run::<N, f64>("f64", &nths(la, 1), &nths(lb, 20), d, &0.5, &4.0);
                run::<N, f32>("f32", &nths(la, 1), &nths(lb, 20), d, &-2.0, &-0.5);
            }
        }
    }
}
/// Two alphabets in turn, with factors of the same sizes.
fn turn<const N: u32, const M: u32>(max: usize, top: u32) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=(degree(N, la) + degree(N, lb)).max(degree(M, la) + degree(M, lb)).min(top) {
                run::<N, Big>("turn", &nths(la, 3), &nths(lb, 4000), d, &Fp(17), &FpR(19));
                run::<M, Big>("turn", &nths(la, 3), &nths(lb, 4000), d, &Fp(17), &FpR(19));
                run::<N, Big>("turn", &nths(la, 3), &nths(lb, 4000), d, &Fp(17), &FpR(19));
            }
        }
    }
}
fn main() {
    let ind = "indeterminate coefficients, all pairs of sizes, all truncation degrees, constant terms 0, 1, -1, 2 and indeterminate";
    vp_harness::ctx::main(vec![
        group("indeterminate-1", ind, |t| indeterminate::<1>(t.pick(8, 14))),
        group("indeterminate-2", ind, |t| indeterminate::<2>(t.pick(12, 22))),
        group("indeterminate-3", ind, |t| indeterminate::<3>(t.pick(9, 20))),
        group("indeterminate-4", ind, |t| indeterminate::<4>(t.pick(8, 21))),
        group("indeterminate-5", ind, |t| indeterminate::<5>(t.pick(8, 16))),
        group("levels", "indeterminate coefficients, every set of zero degrees in each factor, complete and partial top degrees, all truncations", |t| {
            by_levels::<1>(3, 3, &[(0, 0)]);
            by_levels::<2>(2, 2, &[(0, 0), (1, 0), (0, 1), (2, 3)]);
            by_levels::<2>(3, t.pick(2, 3), &[(0, 0)]);
            by_levels::<3>(2, 2, &[(0, 0), (4, 1)]);
        }),
        group("user-types", "a user's own tensor type and a user's wrapper, indeterminate coefficients, all pairs of sizes, all truncations", |t| {
            users::<1>(4);
            users::<2>(t.pick(8, 12));
            users::<3>(t.pick(7, 13));
        }),
        group("every-F3-width-2", "all tensors up to degree 1 over F_3, all scalars", |_| every::<2, 3>(3, 3)),
        group("every-F3-width-1", "all tensors up to 4 (thorough 5) coefficients over F_3, all scalars", |t| every::<1, 3>(t.pick(4, 5), 4)),
        group("every-F2-width-2", "all tensors up to 6 (thorough 8) coefficients over F_2", |t| every::<2, 2>(t.pick(6, 8), 4)),
        group("every-F5-width-1", "all tensors up to 3 coefficients over F_5, all scalars", |t| every::<1, 5>(3, t.pick(3, 4))),
        group("large-1-2", "deep products over F_1000003", |_| {
            large::<1>(&[0, 1, 3, 4, 8], 16);
            large::<2>(&[0, 1, 3, 4, 6], 9);
        }),
        group("large-3-4", "deep products over F_1000003", |_| {
            large::<3>(&[0, 1, 2, 3], 6);
            large::<4>(&[0, 1, 2], 5);
        }),
        group("cuts", "one factor of every length up to 100 (thorough 260), the other of a few lengths, all truncations, over F_1000003", |t| {
            cuts::<1>(58, &[0, 2, 17]);
            cuts::<2>(t.pick(70, 260), &[1, 2, 6, 11]);
            cuts::<3>(t.pick(100, 200), &[1, 3, 9]);
            cuts::<5>(t.pick(40, 156), &[1, 4, 17]);
            cuts::<33>(34, &[2, 34]);
        }),
        group("special-1-2", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<1>(&[1, 4, 12]);
            special::<2>(t.pick(&[3, 7, 20][..], &[1, 2, 3, 5, 7, 12, 15, 20, 31, 40]));
        }),
        group("special-3-5", "0, 1 or -1 in one, some or all places of each factor, a few sizes, over F_1000003", |t| {
            special::<3>(t.pick(&[4, 20][..], &[1, 4, 5, 13, 22, 40]));
            special::<5>(t.pick(&[31][..], &[6, 20, 31, 40]));
        }),
        group("huge-1-3", "factors and products of up to 98000 (thorough 270000) coefficients over F_1000003", |t| {
            huge::<1>(t.pick(1200, 4000));
            huge::<2>(t.pick(15, 17));
            huge::<3>(t.pick(10, 11));
        }),
        group("huge-5-1000", "factors and products of up to 98000 (thorough 1001001) coefficients over F_1000003", |t| {
            huge::<5>(7);
            huge::<16>(4);
            huge::<40>(3);
            huge::<256>(2);
            huge::<1000>(t.pick(1, 2));
        }),
        group("large-wide", "wide alphabets", |_| {
            large::<10>(&[0, 1, 2], 3);
            large::<16>(&[0, 1], 2);
            large::<100>(&[0, 1], 2);
        }),
        group("floats", "small integers as f64 and f32", |t| {
            floats::<1>(4);
            floats::<2>(t.pick(10, 15));
            floats::<3>(5);
        }),
        group("two-alphabets", "pairs of widths in turn, factors of the same sizes up to 15, all truncations, over F_1000003", |_| {
            turn::<1, 2>(12, 6);
            turn::<2, 3>(15, 6);
            turn::<2, 4>(13, 6);
            turn::<3, 4>(13, 6);
            turn::<3, 5>(10, 6);
            turn::<8, 9>(12, 3);
            turn::<2, 258>(9, 1);
            turn::<3, 259>(9, 1);
            turn::<255, 256>(6, 1);
        }),
    ]);
}
