//! C15: exp, log and fmexp are the truncated series.
use rustyalgebra::free_tensor::FreeTensor;
use rustyalgebra::vector::Vector;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn enc<S: Sc>(x: &[S]) -> Vec<u64> {
    x.iter().map(|s| s.enc()).collect()
}
fn check_exp_on<const N: u32, S: Sc, V: Ten<N, S> + FreeTensor<'static, S, N>>(x: &[S], d: u32) -> Result<(), String>
{
    let t = V::mk(x);
    let e = t.exp();
    step(1);
    let want = exp(N, x, d);
    same("exp", e.sl(), &want)?;
    kept("the argument of exp", t.sl(), x)?;
    outcome(&enc(&want));
    if x.is_empty() || x[0] == S::z() {
        let l = e.log();
        step(1);
        same("log of exp", l.sl(), &trunc(N, x, d))?;
        same("exp before log", e.sl(), &want)?;
    }
    Ok(())
}
fn check_log_on<const N: u32, S: Sc, V: Ten<N, S> + FreeTensor<'static, S, N>>(x: &[S], d: u32) -> Result<(), String>
{
    let t = V::mk(x);
    let l = t.log();
    step(1);
    let want = log(N, x, d);
    same("log", l.sl(), &want)?;
    kept("the argument of log", t.sl(), x)?;
    outcome(&enc(&want));
    let e = l.exp();
    step(1);
    same("exp of log", e.sl(), &trunc(N, x, d))
}
fn check_fmexp_on<const N: u32, S: Sc, V: Ten<N, S> + FreeTensor<'static, S, N>>(a: &[S], x: &[S], d: u32) -> Result<(), String>
{
    let mut t = V::mk(a);
    let y = V::mk(x);
    let mut x0 = x.to_vec();
    if !x0.is_empty() {
        x0[0] = S::z();
    }
    let want = mul(N, a, &exp(N, &x0, d), d);
    let r = t.fmexp(&y);
    step(1);
    same("the returned tensor of fmexp", r.sl(), &want)?;
    same("fmexp", t.sl(), &want)?;
    kept("the argument of fmexp", y.sl(), x)?;
    let mut t = V::mk(a);
    t.fmexp(y);
    step(1);
    same("fmexp with an owned argument", t.sl(), &want)?;
    outcome(&enc(&want));
    Ok(())
}
fn check_exp<const N: u32, S: Sc>(x: &[S], d: u32) -> Result<(), String>
where
    T<N, S>: FreeTensor<'static, S, N>,
{
    check_exp_on::<N, S, T<N, S>>(x, d)
}
fn check_log<const N: u32, S: Sc>(x: &[S], d: u32) -> Result<(), String>
where
    T<N, S>: FreeTensor<'static, S, N>,
{
    check_log_on::<N, S, T<N, S>>(x, d)
}
fn check_fmexp<const N: u32, S: Sc>(a: &[S], x: &[S], d: u32) -> Result<(), String>
where
    T<N, S>: FreeTensor<'static, S, N>,
{
    check_fmexp_on::<N, S, T<N, S>>(a, x, d)
}
/// All three on tensors that are zero in any set of degrees.
fn by_levels<const N: u32, const D: u32>(dx: u32, da: u32, cut: usize) {
    for kx in 0..1u32 << (dx + 1) {
        let x = levels(N, &generic::<D>(dim(N, dx) - cut, 0), kx);
        state(&("levels", N, D, enc(&x)));
        case(|| format!("width {} max degree {}: exp of {:?}", N, D, x), || check_exp::<N, Poly<D>>(&x, D));
        let y = with_constant(&x, Some(1));
        if kx & 1 == 1 {
            case(|| format!("width {} max degree {}: log of {:?}", N, D, y), || check_log::<N, Poly<D>>(&y, D));
        }
        for ka in 0..1u32 << (da + 1) {
            let a = levels(N, &generic::<D>(dim(N, da), 300), ka);
            state(&("levels", N, D, enc(&a), enc(&x)));
            case(|| format!("width {} max degree {}: {:?} times exp of {:?}", N, D, a, x), || check_fmexp::<N, Poly<D>>(&a, &x, D));
        }
    }
}
/// All three on tensor types of a user.
fn users<const N: u32, const D: u32, V: Ten<N, Poly<D>> + FreeTensor<'static, Poly<D>, N>>(max: usize) {
    for l in 0..=max {
        for c in [None, Some(0), Some(1)] {
            let x = with_constant(&generic::<D>(l, 0), c);
            state(&("users", N, D, enc(&x)));
            case(|| format!("width {} max degree {}, {}: exp of {:?}", N, D, V::WHAT, x), || check_exp_on::<N, Poly<D>, V>(&x, D));
            if l > 0 && c == Some(1) {
                case(|| format!("width {} max degree {}, {}: log of {:?}", N, D, V::WHAT, x), || check_log_on::<N, Poly<D>, V>(&x, D));
            }
            for s in 0..=max.min(dim(N, D)) {
                let a = generic::<D>(s, 300);
                case(|| format!("width {} max degree {}, {}: {:?} times exp of {:?}", N, D, V::WHAT, a, x), || check_fmexp_on::<N, Poly<D>, V>(&a, &x, D));
            }
        }
    }
}
/// High maximum degrees over large prime fields.
fn high<const N: u32, S: Sc, V: Ten<N, S> + FreeTensor<'static, S, N>>(degs: &[u32]) {
    let d = <V as FreeTensor<'static, S, N>>::MAX_DEGREE;
    for &e in degs {
        for c in [None, Some(0), Some(1)] {
            let x = with_constant(&nths::<S>(dim(N, e), 5), c);
            state(&("high", N, d, enc(&x)));
            case(|| format!("width {} max degree {}: exp of degree {}", N, d, e), || check_exp_on::<N, S, V>(&x, d));
            alive();
            if c == Some(1) {
                case(|| format!("width {} max degree {}: log of degree {}", N, d, e), || check_log_on::<N, S, V>(&x, d));
            }
            alive();
            for &g in degs {
                if g > d {
                    continue;
                }
                let a = nths::<S>(dim(N, g), 900);
                case(|| format!("width {} max degree {}: degree {} times exp of degree {}", N, d, g, e), || check_fmexp_on::<N, S, V>(&a, &x, d));
                alive();
            }
        }
    }
}
/// All three on all sizes.
fn indeterminate<const N: u32, const D: u32>(max_arg: usize, max_self: usize)
where
    T<N, Poly<D>>: FreeTensor<'static, Poly<D>, N>,
{
    for l in 0..=max_arg {
        for c in [None, Some(0), Some(1), Some(-1), Some(2)] {
            let x = with_constant(&generic::<D>(l, 0), c);
            state(&("exp", N, D, enc(&x)));
            case(|| format!("width {} max degree {}: exp of {:?}", N, D, x), || check_exp::<N, Poly<D>>(&x, D));
        }
        if l > 0 {
            let x = with_constant(&generic::<D>(l, 0), Some(1));
            state(&("log", N, D, enc(&x)));
            case(|| format!("width {} max degree {}: log of {:?}", N, D, x), || check_log::<N, Poly<D>>(&x, D));
        }
        for s in 0..=max_self.min(dim(N, D)) {
            for c in [None, Some(0), Some(1)] {
                for sc in [None, Some(0), Some(1)] {
                    let a = with_constant(&generic::<D>(s, 300), sc);
                    let x = with_constant(&generic::<D>(l, 0), c);
                    state(&("fmexp", N, D, enc(&a), enc(&x)));
                    case(|| format!("width {} max degree {}: {:?} times exp of {:?}", N, D, a, x), || check_fmexp::<N, Poly<D>>(&a, &x, D));
                }
            }
        }
    }
}
/// Every small rational tensor.
fn every<const N: u32, const D: u32>(len: usize, vals: &[i64], fused: usize)
where
    T<N, Q<D>>: FreeTensor<'static, Q<D>, N>,
{
    let vals: Vec<Q<D>> = vals.iter().map(|v| Q(*v as i128, 1)).collect();
    let all = all_upto(len, &vals);
    for x in &all {
        state(&("every", N, D, enc(x)));
        case(|| format!("width {} max degree {}: exp of {:?}", N, D, x), || check_exp::<N, Q<D>>(x, D));
        if !x.is_empty() && x[0] == Q(1, 1) {
            case(|| format!("width {} max degree {}: log of {:?}", N, D, x), || check_log::<N, Q<D>>(x, D));
        }
        for a in &all {
            if a.len() <= dim(N, D).min(fused) && x.len() <= fused {
                case(|| format!("width {} max degree {}: {:?} times exp of {:?}", N, D, a, x), || check_fmexp::<N, Q<D>>(a, x, D));
            }
        }
    }
}
/// Larger tensors and degrees over a large prime field (denominators up to 6! are units).
fn large<const N: u32>(degs: &[u32])
where
    T<N, Big>: FreeTensor<'static, Big, N>,
{
    const D: u32 = 6;
    for &d in degs {
        for cut in [0, 1] {
            let l = dim(N, d) - cut;
            for c in [None, Some(0), Some(1)] {
                let x = with_constant(&nths::<Big>(l, 5), c);
                state(&("large", N, enc(&x)));
                case(|| format!("width {} max degree {}: exp of {} coefficients", N, D, l), || check_exp::<N, Big>(&x, D));
                if c == Some(1) && l > 0 {
                    case(|| format!("width {} max degree {}: log of {} coefficients", N, D, l), || check_log::<N, Big>(&x, D));
                }
                for &e in degs {
                    if e > D {
                        continue;
                    }
                    let a = nths::<Big>(dim(N, e) - cut, 900);
                    case(|| format!("width {} max degree {}: {} coefficients times exp of {}", N, D, a.len(), l), || check_fmexp::<N, Big>(&a, &x, D));
                }
            }
        }
    }
}
/// Very long tensors: thousands of coefficients in the arguments and the results.
fn huge<const N: u32>(degs: &[u32])
where
    T<N, Big>: FreeTensor<'static, Big, N>,
{
    const D: u32 = 6;
    for &d in degs {
        for cut in [0, 1, dim(N, d) / 2] {
            let l = dim(N, d) - cut;
            for c in [Some(0), Some(1)] {
                let x = with_constant(&nths::<Big>(l, 5), c);
                state(&("huge", N, enc(&x)));
                case(|| format!("width {} max degree {}: exp of {} coefficients, constant term {:?}", N, D, l, c), || check_exp::<N, Big>(&x, D));
                alive();
                if c == Some(1) && l > 0 {
                    case(|| format!("width {} max degree {}: log of {} coefficients", N, D, l), || check_log::<N, Big>(&x, D));
                    alive();
                }
                for &e in degs.iter().filter(|e| **e <= D) {
                    let a = nths::<Big>(dim(N, e) - cut.min(dim(N, e) / 2), 900);
                    case(|| format!("width {} max degree {}: {} coefficients times exp of {}, constant term {:?}", N, D, a.len(), l, c), || check_fmexp::<N, Big>(&a, &x, D));
                    alive();
                }
            }
        }
    }
}
/// Special values in any of the usual places.
fn special<const N: u32>(lens: &[usize], others: &[usize])
where
    T<N, Big>: FreeTensor<'static, Big, N>,
{
    const D: u32 = 6;
    for &l in lens {
        for x in marked::<Big>(N, l, 5) {
            for c in [None, Some(0)] {
                let x = with_constant(&x, c);
                state(&("special", N, enc(&x)));
                case(|| format!("width {} max degree {}: exp of {:?}", N, D, x), || check_exp::<N, Big>(&x, D));
            }
            let y = with_constant(&x, Some(1));
            case(|| format!("width {} max degree {}: log of {:?}", N, D, y), || check_log::<N, Big>(&y, D));
            alive();
        }
    }
    for &l in others {
        for x in marked::<Big>(N, l, 5) {
            for &m in others {
                for a in marked::<Big>(N, m, 900) {
                    case(|| format!("width {} max degree {}: {:?} times exp of {:?}", N, D, a, x), || check_fmexp::<N, Big>(&a, &x, D));
                }
                alive();
            }
        }
    }
}
fn main() {
    let ind = "indeterminate coefficients, constant terms indeterminate, 0, 1, -1 and 2, all sizes of the arguments (beyond the maximum degree included)";
    let ev = "all tensors with coefficients from a few integers, up to a size";
    vp_harness::ctx::main(vec![
        group("indeterminate-1-low", ind, |_| {
            indeterminate::<1, 0>(4, 4);
            indeterminate::<1, 1>(4, 4);
            indeterminate::<1, 2>(5, 4);
            indeterminate::<1, 3>(6, 4);
        }),
        group("indeterminate-1-high", ind, |t| {
            indeterminate::<1, 4>(6, 5);
            indeterminate::<1, 5>(7, 6);
            if t == Tier::Thorough {
                indeterminate::<1, 7>(8, 8);
            };
        }),
        group("indeterminate-2-low", ind, |_| {
            indeterminate::<2, 0>(4, 4);
            indeterminate::<2, 1>(8, 4);
            indeterminate::<2, 2>(9, 7);
        }),
        group("indeterminate-2-3", ind, |t| indeterminate::<2, 3>(t.pick(12, 16), t.pick(8, 15))),
        group("indeterminate-2-4", ind, |t| indeterminate::<2, 4>(t.pick(6, 15), t.pick(6, 15))),
        group("indeterminate-3-low", ind, |t| {
            indeterminate::<3, 0>(2, 2);
            indeterminate::<3, 1>(5, 4);
            indeterminate::<3, 2>(15, 13);
        }),
        group("indeterminate-3-3", ind, |t| indeterminate::<3, 3>(t.pick(8, 20), t.pick(7, 14))),
        group("indeterminate-wide", ind, |t| {
            indeterminate::<5, 2>(t.pick(12, 32), t.pick(7, 31));
            indeterminate::<8, 1>(10, 9);
        }),
        group("levels-1", "every set of zero degrees in the arguments, indeterminate coefficients", |_| {
            by_levels::<1, 3>(4, 3, 0);
            by_levels::<1, 5>(4, 4, 0);
        }),
        group("levels-2", "every set of zero degrees in the arguments, indeterminate coefficients", |t| {
            by_levels::<2, 2>(3, 2, 0);
            by_levels::<2, 3>(2, 3, 0);
            by_levels::<2, 3>(3, t.pick(2, 3), 3);
        }),
        group("levels-3", "every set of zero degrees in the arguments, indeterminate coefficients", |t| {
            by_levels::<3, 2>(2, 2, 0);
            by_levels::<3, 2>(2, 2, 4);
            by_levels::<3, 3>(2, t.pick(1, 2), 0);
        }),
        group("user-types", "a user's own tensor type and a user's wrapper, indeterminate coefficients", |t| {
            use vp_harness::vecs::Wrap;
            users::<1, 4, User<1, Poly<4>>>(5);
            users::<2, 2, User<2, Poly<2>>>(8);
            users::<2, 3, User<2, Poly<3>>>(t.pick(4, 7));
            users::<3, 2, User<3, Poly<2>>>(t.pick(6, 13));
            users::<1, 4, Wrap<T<1, Poly<4>>>>(5);
            users::<2, 2, Wrap<T<2, Poly<2>>>>(8);
            users::<2, 3, Wrap<T<2, Poly<3>>>>(t.pick(4, 7));
            users::<3, 2, Wrap<T<3, Poly<2>>>>(t.pick(6, 13));
        }),
        group("high", "maximum degrees 9, 13 and 30 over large prime fields", |t| {
            high::<1, F30, T<1, F30>>(&[0, 1, 2, 7, 15, 29, 30, 31]);
            high::<1, F13, T<1, F13>>(&[0, 1, 3, 12, 13, 14]);
            high::<2, F9, T<2, F9>>(t.pick(&[0, 1, 3, 9], &[0, 1, 2, 3, 4, 8, 9]));
            high::<2, F13, T<2, F13>>(t.pick(&[1, 4], &[0, 1, 2, 4, 6, 13]));
            high::<3, F9, T<3, F9>>(t.pick(&[1, 2], &[0, 1, 2, 4]));
            high::<1, F30, User<1, F30>>(&[1, 30]);
        }),
        group("every-1", ev, |t| {
            every::<1, 3>(t.pick(4, 5), &[-2, -1, 0, 1, 2], t.pick(3, 4));
            every::<1, 5>(t.pick(4, 6), &[-1, 0, 1], t.pick(3, 4));
        }),
        group("every-2", ev, |t| {
            every::<2, 2>(t.pick(6, 7), &[-1, 0, 1], t.pick(3, 4));
            every::<2, 3>(t.pick(5, 7), &[-1, 0, 1], t.pick(3, 4));
        }),
        group("every-3", ev, |t| every::<3, 2>(t.pick(5, 7), &[-1, 0, 1], t.pick(2, 4))),
        group("special", "0, 1 or -1 in one, some or all places of each argument, over F_1000003, maximum degree 6", |t| {
            special::<1>(&[2, 4, 7], &[2, 4, 7]);
            special::<2>(t.pick(&[3, 7, 15, 31][..], &[2, 3, 5, 7, 15, 31, 60]), t.pick(&[3, 7], &[3, 7, 15]));
            special::<3>(t.pick(&[4, 13][..], &[4, 13, 22]), t.pick(&[4], &[4, 9]));
        }),
        group("huge", "tensors of up to 97656 (thorough 299593) coefficients over F_1000003, maximum degree 6", |t| {
            huge::<2>(&[14]);
            huge::<4>(&[1, 3, 6]);
            huge::<5>(t.pick(&[1, 6, 7][..], &[0, 1, 2, 5, 6, 7]));
            if t == Tier::Thorough {
                huge::<8>(&[1, 2, 6]);
            }
        }),
        group("large-1-2", "tensors of each degree over F_1000003, maximum degree 6", |t| {
            large::<1>(&[0, 1, 2, 5, 6, 8]);
            large::<2>(t.pick(&[0, 1, 2, 3, 6], &[0, 1, 2, 3, 4, 5, 6, 7]));
        }),
        group("large-3", "tensors of each degree over F_1000003, maximum degree 6", |t| large::<3>(t.pick(&[0, 1, 2], &[0, 1, 2, 3, 4, 5, 6]))),
    ]);
}
