//! C08: vector types that wrap another vector behave exactly like it.
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::DenseVector;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;
use std::ops::Deref;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn all_ops<S: Sc>(keys: &[usize], s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = ops_basic(keys, s, r);
    v.extend(ops_fused(s, r));
    v.extend(ops_key(keys, s, r));
    v
}
/// Closure over F_3 or F_2, short programs, and single steps from vectors of many sizes.
fn explore<const MOD: u64, V: Rep<S = Fp<MOD>>, W: Rep<S = Fp<MOD>, B = V::B> + Deref<Target = V>>(t: Tier) {
    let (s, r): (Vec<Fp<MOD>>, Vec<FpR<MOD>>) = ((0..MOD).map(Fp).collect(), (1..MOD).map(FpR).collect());
    let k = if V::SPARSE { t.pick(2, 3) } else { 3 };
    let keys: Vec<usize> = (0..k).collect();
    closure::<Wrapped<V, W>>(if MOD == 2 { "F2" } else { "F3" }, &[empty(k)], &all_ops(&keys, &s, &r), usize::MAX, &plain);
    let few: Vec<Op<Fp<MOD>>> = all_ops(&[0, 4], &[Fp(MOD - 1)], &[FpR(MOD - 1)]);
    sequences::<Wrapped<V, W>>("live", &[empty(7)], &few, t.pick(2, 3), &plain);
}
fn sizes<V: Rep<S = Big>, W: Rep<S = Big, B = V::B> + Deref<Target = V>>(t: Tier) {
    let ns: Vec<usize> = t.pick(vec![0, 1, 2, 3, 4, 5, 7, 8, 13, 15, 16, 17, 31, 40], (0..=64).collect());
    for &a in &ns {
        for &b in &ns {
            let k = 70;
            let start = (filled::<Big>(a, k, 3, 0), filled::<Big>(b, k, 90, 1));
            let mut ops = size_ops::<Big>(a, b, k);
            ops.extend(ops_fused(&[Big::int(5)], &[Big::rat(3)]));
            ops.extend(ops_key(&[0, a.min(k - 1), k - 1], &[Big::int(5)], &[Big::rat(3)]));
            singles::<Wrapped<V, W>>("sizes", &[start], &ops, &plain);
        }
    }
}
fn floats<V: Rep<S = f64>, W: Rep<S = f64, B = V::B> + Deref<Target = V>>(_t: Tier) {
    singles::<Wrapped<V, W>>("rounding", &float_states(), &all_ops(&[0, 2], &FLOATS, &rationals()), &plain);
}
/// Into and out of the dense tensor type.
fn huge_tensor(t: Tier) {
    huge::<Wrapped<D<2, Big>, T<2, Big>>, Big>("huge", t.pick(&[511, 1023, 2048, 4095][..], &[511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 16383]), t.pick(2, 9));
    huge::<Wrapped<I<Big>, Wrap<I<Big>>>, Big>("huge", t.pick(&HUGE[..12], &HUGE), t.pick(2, 9));
    huge::<Wrapped<P<Big>, Wrap<P<Big>>>, Big>("huge", t.pick(&HUGE[..8], &HUGE), t.pick(1, 9));
}
fn convert<const N: u32>(t: Tier) {
    for n in 0..t.pick(60usize, 400) {
        for p in 0..4 {
            state(&(N, n, p));
            case(|| format!("width {}: convert {} coefficients (pattern {}) to a dense tensor and back", N, n, p), || {
                let data: Vec<Big> = coefs(&filled::<Big>(n, n, 7, p));
                let v: SimpleDenseVector<'static, TensorBasis<N>, Big> = SimpleDenseVector::from(data.clone());
                let d: DenseTensor<'static, Big, N> = DenseTensor::from(v);
                step(3);
                if d.deref().size() != n || DenseVector::as_slice(d.deref()) != &data[..] {
                    return Err("the dense tensor holds something else".into());
                }
                let e: DenseTensor<'static, Big, N> = DenseTensor::from(SimpleDenseVector::from(data.clone()));
                if !(d == e) || d != e {
                    return Err("tensors made from equal vectors differ".into());
                }
                let back: SimpleDenseVector<'static, TensorBasis<N>, Big> = d.into();
                if DenseVector::as_slice(&back) != &data[..] {
                    return Err("converting back gives something else".into());
                }
                outcome(&data);
                Ok(())
            });
        }
    }
}
type D<const N: u32, S> = Dense<TensorBasis<N>, S>;
type T<const N: u32, S> = DenseTensor<'static, S, N>;
type I<S> = Dense<IntBasis<1>, S>;
type P<S> = Sparse<IntBasis<1>, S>;

fn main() {
    let b = "all states over F_3 (mod2: F_2) with up to 3 keys (sparse: 2, thorough 3) under all operations to a fixed point; all programs of 2 (thorough 3) operations on live objects; wrapper in step with the wrapped vector";
    let c = "all pairs of sizes from a list up to 40 (thorough all up to 64), every operation";
    let f = "all triples of floats from a list of ten, every operation";
    #[allow(unused_mut)]
    let mut v = vec![
        group("dense-tensor-1", b, explore::<3, D<1, F3>, T<1, F3>>),
        group("dense-tensor-2", b, explore::<3, D<2, F3>, T<2, F3>>),
        group("user-wrapper-of-dense", b, explore::<3, I<F3>, Wrap<I<F3>>>),
        group("user-wrapper-of-sparse", b, explore::<3, P<F3>, Wrap<P<F3>>>),
        group("user-wrapper-of-user-wrapper", b, explore::<3, Wrap<I<F3>>, Wrap<Wrap<I<F3>>>>),
        group("user-wrapper-of-dense-tensor", b, explore::<3, T<2, F3>, Wrap<T<2, F3>>>),
        group("user-wrapper-of-user-vector", b, explore::<3, Minimal<F3>, Wrap<Minimal<F3>>>),
        group("mod2-dense-tensor", b, explore::<2, D<2, F2>, T<2, F2>>),
        group("mod2-user-wrapper-of-dense", b, explore::<2, I<F2>, Wrap<I<F2>>>),
        group("mod2-user-wrapper-of-sparse", b, explore::<2, P<F2>, Wrap<P<F2>>>),
        group("mod2-user-wrapper-of-user-vector", b, explore::<2, Minimal<F2>, Wrap<Minimal<F2>>>),
        group("sizes-dense-tensor-3", c, sizes::<D<3, Big>, T<3, Big>>),
        group("sizes-wrapper-of-sparse", c, sizes::<P<Big>, Wrap<P<Big>>>),
        group("rounding-dense-tensor-2", f, floats::<D<2, f64>, T<2, f64>>),
        group("rounding-wrapper-of-sparse", f, floats::<P<f64>, Wrap<P<f64>>>),
        group("rounding-wrapper-of-user-vector", f, floats::<Minimal<f64>, Wrap<Minimal<f64>>>),
        group("special", "one place special (zero, one, opposite, different, alone) among 3 to 260 (thorough 520), term lists in which all, some or all but one cancel", |t| {
            specials::<Wrapped<D<2, Big>, T<2, Big>>, Big>(t.pick(&SPECIAL[..8], &SPECIAL));
            specials::<Wrapped<I<Big>, Wrap<I<Big>>>, Big>(t.pick(&SPECIAL[..6], &SPECIAL));
            specials::<Wrapped<P<Big>, Wrap<P<Big>>>, Big>(t.pick(&SPECIAL[..6], &SPECIAL));
        }),
        group("huge", "sizes around powers of two up to 4096 (thorough 16383)", huge_tensor),
        group("conversions", "dense tensor from and into the vector it wraps, all sizes below 60 (thorough 400), widths 1 to 4", |t| {
            convert::<1>(t);
            convert::<2>(t);
            convert::<3>(t);
            convert::<4>(t);
        }),
    ];
    #[cfg(feature = "hooks")]
    {
        use vp_harness::views::*;
        let b = "wrappers of vectors on borrowed storage: all pairs of storage kinds and sizes from a list, all programs of operations up to the length; coefficients and buffers";
        v.push(group("borrowed-dense-tensor", b, |t| {
            programs::<TensorBasis<2>, Big, T<2, Big>>("all", 15, &starts(t.pick(&[0, 3], &[0, 1, 3, 4, 7])), &all_ops(&[0, 2, 4]), t.pick(1, 2));
            programs::<TensorBasis<2>, Big, T<2, Big>>("core", 15, &starts(t.pick(&[3], &[0, 3, 4])), &core_ops(), t.pick(2, 3));
        }));
        v.push(group("borrowed-user-wrapper", b, |t| {
            programs::<IntBasis<1>, Big, Wrap<I<Big>>>("all", 6, &starts(t.pick(&[0, 3], &[0, 1, 3])), &all_ops(&[0, 2, 4]), t.pick(1, 2));
            programs::<IntBasis<1>, Big, Wrap<I<Big>>>("core", 6, &starts(&[3]), &core_ops(), t.pick(2, 3));
        }));
        v.push(group("borrowed-wrapper-of-wrapper", b, |t| {
            programs::<TensorBasis<3>, Big, Wrap<T<3, Big>>>("core", 13, &starts(t.pick(&[4], &[0, 4, 5])), &core_ops(), 2);
        }));
    }
    vp_harness::ctx::main(v);
}
