//! C06: dense vectors behave as finite maps from keys to coefficients.
use rustyalgebra::free_tensor::TensorBasis;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

type M<B, S> = ModelPair<Dense<B, S>>;

fn f3() -> (Vec<F3>, Vec<FpR<3>>) {
    (vec![Fp(0), Fp(1), Fp(2)], vec![FpR(1), FpR(2)])
}
/// Everything reachable over F_3, closed under all operations.
fn close_int(t: Tier) {
    let (s, r) = f3();
    closure::<M<IntBasis<1>, F3>>("F3 keys<3", &[empty(3)], &ops_basic(&[0, 1, 2], &s, &r), usize::MAX, &plain);
    if t == Tier::Thorough {
        closure::<M<IntBasis<1>, F3>>("F3 keys<4", &[empty(4)], &ops_basic(&[0, 1, 2, 3], &s, &r), usize::MAX, &plain);
    }
}
fn close_tensor2(_t: Tier) {
    let (s, r) = f3();
    closure::<M<TensorBasis<2>, F3>>("F3 width 2", &[empty(3)], &ops_basic(&[0, 1, 2], &s, &r), usize::MAX, &plain);
}
fn close_block(t: Tier) {
    let s = vec![Fp::<2>(0), Fp(1)];
    let r = vec![FpR::<2>(1)];
    closure::<M<IntBasis<3>, F2>>("F2 blocks of 3", &[empty(t.pick(6, 6))], &ops_basic(t.pick(&[0, 4][..], &[0, 2, 4]), &s, &r), usize::MAX, &plain);
}
fn close_tensor1(t: Tier) {
    let k = t.pick(5, 6);
    let s = vec![Fp::<2>(0), Fp(1)];
    let r = vec![FpR::<2>(1)];
    let keys: Vec<usize> = (0..k).collect();
    closure::<M<TensorBasis<1>, F2>>("F2 width 1", &[empty(k)], &ops_basic(&keys, &s, &r), usize::MAX, &plain);
}
/// All short programs on live objects.
fn live<B: Keys + rustyalgebra::basis::OrderedBasis>(label: &'static str, k: usize, keys: &'static [usize], more: usize) -> impl Fn(Tier) {
    move |t| {
        let s = vec![Big::int(0), Big::int(5)];
        let r = vec![Big::rat(7)];
        let ops = ops_basic(keys, &s, &r);
        sequences::<M<B, Big>>(label, &[empty(k)], &ops, 2, &plain);
        // Longer ones with fewer choices.
        let few: Vec<Op<Big>> = vec![
            Op::InsertSingle(keys[0], Fp(2)), Op::InsertSingle(keys[keys.len() - 1], Fp(3)), Op::Erase(keys[0]), Op::Clear, Op::Flip, Op::Swap,
            Op::AddInplace, Op::SubInplace, Op::UminusInplace, Op::LMulInplace(Fp(11)), Op::RDivInplace(FpR(13)), Op::Write(keys[0], Fp(4)),
            Op::FromIterator(vec![(keys[1], Fp(5)), (keys[0], Fp(6)), (keys[1], Fp(7))]), Op::Insert(vec![(keys[1], Fp(8))]), Op::Add, Op::Sub, Op::ToOwned,
        ];
        sequences::<M<B, Big>>(label, &[empty(k)], &few, t.pick(4, 5) + more, &plain);
    }
}
/// Every operation from every pair of sizes, small and large.
fn sizes<B: Keys + rustyalgebra::basis::OrderedBasis, S: Sc>(label: &'static str, room: usize) -> impl Fn(Tier) {
    move |t| {
        let few = t.pick(10, 40);
        let mut ns: Vec<usize> = (0..=few).collect();
        ns.extend([15, 16, 17, 31, 32, 33, 39, 40]);
        if t == Tier::Thorough {
            ns.extend([63, 64, 65, 100, 120, 121, 127, 128, 129]);
        }
        ns.sort();
        ns.dedup();
        ns.retain(|n| *n <= room);
        for &a in &ns {
            for &b in &ns {
                let k = room;
                for p in 0..2 {
                    let start = (filled::<S>(a, k, 3, p), filled::<S>(b, k, 90, 2 * p));
                    singles::<M<B, S>>(label, &[start], &size_ops::<S>(a, b, k), &plain);
                }
            }
        }
    }
}
/// Large vectors, one size at a time.
fn large(t: Tier) {
    for n in t.pick(&[64, 65, 121, 127, 129, 256, 364, 513, 1024, 1093][..], &[63, 64, 65, 127, 128, 129, 255, 256, 257, 364, 511, 512, 513, 1000, 1023, 1024, 1025, 1093]).iter().copied() {
        for (a, b) in [(n, n), (n, 1), (1, n), (n, n / 2), (n / 2, n), (n, n - 1), (n - 1, n), (0, n), (n, 0)] {
            let k = 1093;
            let start = (filled::<Big>(a, k, 5, 0), filled::<Big>(b, k, 2000, 0));
            let mut ops = size_ops::<Big>(a, b, k);
            if t == Tier::Quick {
                ops.retain(|o| !matches!(o, Op::FromKeyScalar(..) | Op::AddInplaceOwned | Op::SubInplaceOwned));
            }
            singles::<M<TensorBasis<3>, Big>>("large", &[start], &ops, &plain);
        }
    }
    // Long lists of terms, in and out of order, with repetitions.
    for n in [1usize, 2, 7, 20, 21, 33, 50, 64, 100, 257, 600] {
        for mul in [1usize, 5, 7, 1091] {
            for period in [n, n / 2 + 1, 3] {
                let l: Vec<(usize, Big)> = (0..n).map(|i| ((i % period) * mul % 1093, Big::nth(i))).collect();
                let s = (filled::<Big>(40, 1093, 5, 0), vec![None; 1093]);
                singles::<M<TensorBasis<3>, Big>>("long lists", &[s], &[Op::FromIterator(l.clone()), Op::Insert(l)], &plain);
            }
        }
    }
}
fn huge_int(t: Tier) {
    huge::<M<IntBasis<1>, Big>, Big>("huge", &HUGE, t.pick(4, 9));
    huge::<M<IntBasis<1>, Big>, Big>("huge", t.pick(&HUGER[4..], &HUGER), t.pick(1, 9));
}
fn huge_words(t: Tier) {
    huge::<M<TensorBasis<3>, Big>, Big>("huge", t.pick(&[3280][..], &[3279, 3280, 3281, 9841, 9842]), t.pick(3, 9));
    huge::<M<TensorBasis<2>, f64>, f64>("huge", t.pick(&[1023, 2047, 4095][..], &[1023, 1024, 2047, 2048, 4095, 4096, 8191, 16383]), t.pick(3, 9));
}
/// Many coefficient values: every pair of values of a small field in every position.
fn values(_t: Tier) {
    for x in 0..11u64 {
        for y in 0..11u64 {
            let a: Canon<Fp<11>> = vec![Some(Fp(x)), Some(Fp(y)), None];
            let b: Canon<Fp<11>> = vec![Some(Fp(y)), None, None];
            let s: Vec<Fp<11>> = (0..11).map(Fp).collect();
            let r: Vec<FpR<11>> = (1..11).map(FpR).collect();
            let mut ops = vec![Op::Add, Op::Sub, Op::Uminus, Op::AddInplace, Op::SubInplace, Op::UminusInplace];
            for x in &s {
                ops.extend([Op::LMul(*x), Op::RMul(*x), Op::LMulInplace(*x), Op::RMulInplace(*x)]);
            }
            for x in &r {
                ops.extend([Op::LDiv(*x), Op::RDiv(*x), Op::LDivInplace(*x), Op::RDivInplace(*x)]);
            }
            singles::<M<IntBasis<1>, Fp<11>>>("F11", &[(a.clone(), b.clone()), (b, a)], &ops, &plain);
        }
    }
    let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.7, 3.0, 49.0, 1024.0, 1e30, 1e-30, 9007199254740993.0];
    for &x in &vals {
        for &y in &vals {
            for &s in &vals {
                let a: Canon<f64> = vec![Some(x), Some(y), None];
                let b: Canon<f64> = vec![Some(y), Some(s), Some(x)];
                let mut ops = vec![Op::Add, Op::Sub, Op::AddInplace, Op::SubInplace, Op::LMul(s), Op::LMulInplace(s), Op::UminusInplace];
                if s != 0.0 {
                    ops.extend([Op::RDiv(s), Op::LDivInplace(s)]);
                }
                singles::<M<IntBasis<1>, f64>>("f64", &[(a, b)], &ops, &plain);
            }
        }
    }
}

fn main() {
    let b = "two dense vectors against plain arrays";
    vp_harness::ctx::main(vec![
        group("closure-F3-integer-keys", "all states of two vectors with up to 3 keys over F_3, all operations, to a fixed point", close_int),
        group("closure-F3-width-2", "all states of two tensors over letters 1, 2 up to degree 1 over F_3, to a fixed point", close_tensor2),
        group("closure-F2-blocks", "vectors growing in blocks of 3 over F_2, to a fixed point", close_block),
        group("closure-F2-width-1", "one-letter tensors up to degree 4 (thorough 5) over F_2, to a fixed point", close_tensor1),
        group("programs-integer-keys", "all programs of 2 operations of the full alphabet and of 5 (thorough 6) of a reduced one, on live objects", live::<IntBasis<1>>("live", 7, &[0, 2, 5], 1)),
        group("programs-width-2", "as programs-integer-keys, one step less, tensor words of degree 0, 1, 2", live::<TensorBasis<2>>("live", 7, &[0, 2, 5], 0)),
        group("programs-blocks", "as programs-integer-keys, one step less, blocks of 4", live::<IntBasis<4>>("live", 12, &[0, 5, 9], 0)),
        group("sizes-width-3", b, sizes::<TensorBasis<3>, Big>("sizes", 121)),
        group("sizes-width-2-f64", b, sizes::<TensorBasis<2>, f64>("sizes", 127)),
        group("sizes-integer-f32", b, sizes::<IntBasis<1>, f32>("sizes", 130)),
        group("large", "sizes around powers of two and full tensor dimensions up to 1093", large),
        group("special", "one place special (zero, one, opposite, different, alone) among 3 to 520 (thorough 1030), term lists in which all, some or all but one cancel", |t| {
            specials::<M<IntBasis<1>, Big>, Big>(&SPECIAL);
            specials::<M<TensorBasis<2>, Big>, Big>(t.pick(&SPECIAL[..7], &SPECIAL));
            specials::<M<IntBasis<1>, f64>, f64>(t.pick(&SPECIAL[3..6], &SPECIAL));
            specials::<M<IntBasis<1>, Big>, Big>(t.pick(&[][..], &[1030]));
        }),
        group("huge", "sizes around powers of two up to 65537, integer keys", huge_int),
        group("huge-words", "full tensor dimensions of widths 2 and 3 up to 4095 (thorough 16383)", huge_words),
        group("values", "all pairs of values of F_11, special finite floats", values),
    ]);
}
