//! C11: updating one key adds or subtracts exactly the given amount.
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn every_state<const MOD: u64, V: Rep<S = Fp<MOD>>>(_t: Tier) {
    let vals: Vec<Fp<MOD>> = (0..MOD).map(Fp).collect();
    let rats: Vec<FpR<MOD>> = (1..MOD).map(FpR).collect();
    let k = 4;
    let mut st = all_states::<V>(3, &vals);
    for c in st.iter_mut() {
        c.push(None);
    }
    let ops = ops_key(&[0, 1, 2, 3], &vals, &rats);
    for a in st {
        // Tensor words: room for the rest of the degree.
        let mut a = a;
        a.resize(k.max(7), None);
        let n = a.len();
        singles::<ModelPair<V, false>>(if MOD == 2 { "F2" } else { "F3" }, &[(a, vec![None; n])], &ops, &plain);
    }
}
fn programs<V: Rep<S = Big>>(t: Tier) {
    let mut ops = ops_key(&[0, 2, 4], &[Big::int(5)], &[Big::rat(3)]);
    ops.extend([Op::InsertSingle(0, Fp(2)), Op::Erase(2), Op::AddInplace, Op::Flip, Op::Clear]);
    let start = (filled::<Big>(3, 7, 3, 0), filled::<Big>(5, 7, 8, 1));
    sequences::<ModelPair<V, false>>("live", &[empty(7), start], &ops, t.pick(4, 5), &plain);
}
fn sizes<V: Rep>(t: Tier) {
    let k = 130;
    let all: Vec<usize> = (0..k - 3).collect();
    let ops = ops_key(&all, &[V::S::int(4)], &[V::S::rat(2)]);
    for a in t.pick(vec![0, 1, 2, 3, 4, 7, 8, 13, 15, 16, 40], (0..=127).collect::<Vec<usize>>()) {
        singles::<ModelPair<V, false>>("sizes", &[(filled(a, k, 3, 0), vec![None; k])], &ops, &plain);
        if V::SPARSE {
            singles::<ModelPair<V, false>>("sizes", &[(scattered(a, k, 3, 3, 1), vec![None; k])], &ops, &plain);
        }
    }
}
/// One place special, and updated: zero, one, and amounts that cancel it or leave one or minus one.
fn specials<V: Rep<S = Big>>(t: Tier) {
    for &n in t.pick(&[3, 17, 66, 260][..], &SPECIAL) {
        for p in places(n) {
            for x in [0, 1, -1, 7] {
                for all_else in [None, Some(0), Some(1)] {
                    let mut a: Canon<Big> = filled(n, n + 2, 5, 0);
                    if let Some(e) = all_else {
                        a[..n].fill(Some(Big::int(e)));
                    }
                    a[p] = Some(Big::int(x));
                    let mut ops = ops_key(&[p], &[0, 1, -1, 7, -7, x - 1, x + 1].map(Big::int), &[1, -1, 7].map(Big::rat));
                    ops.extend(ops_key(&[n / 2, n], &[Big::int(4)], &[Big::rat(2)]));
                    singles::<ModelPair<V, false>>("special", &[(a, vec![None; n + 2])], &ops, &plain);
                }
            }
            alive();
        }
    }
}
fn scalars<V: Rep<S = Fp<11>>>(_t: Tier) {
    let s: Vec<Fp<11>> = (0..11).map(Fp).collect();
    let r: Vec<FpR<11>> = (1..11).map(FpR).collect();
    let ops = ops_key(&[0, 1, 2], &s, &r);
    for x in 0..11 {
        let st = (vec![Some(Fp(x)), Some(Fp(3)), None], vec![None; 3]);
        singles::<ModelPair<V, false>>("F11", &[st], &ops, &plain);
    }
}
fn floats<V: Rep<S = f64>>(_t: Tier) {
    singles::<ModelPair<V, false>>("rounding", &float_states(), &ops_key(&[0, 1, 2], &FLOATS, &rationals()), &plain);
}
/// Deep tensor words, keys far beyond what is stored.
fn deep<const N: u32>(t: Tier) {
    type D<const N: u32> = Dense<TensorBasis<N>, Big>;
    let k = vp_harness::words::start(N, if N == 1 { 30 } else { 6 }) as usize;
    let k = k.min(1500);
    for a in [0usize, 1, 2, 10] {
        let keys: Vec<usize> = (0..k).step_by(t.pick(37, 5)).collect();
        let k_room = vp_harness::words::start(N, if N == 1 { 31 } else { 7 }) as usize;
        let ops = ops_key(&keys, &[Big::int(4)], &[Big::rat(2)]);
        singles::<ModelPair<D<N>, false>>("deep words", &[(filled(a, k_room.min(4000), 3, 0), vec![None; k_room.min(4000)])], &ops, &plain);
    }
}
type I<S> = Dense<IntBasis<1>, S>;
type IB<S> = Dense<IntBasis<3>, S>;
type P<S> = Sparse<IntBasis<1>, S>;
type DT<S> = Dense<TensorBasis<2>, S>;
type T2<S> = DenseTensor<'static, S, 2>;
type WI<S> = Wrap<I<S>>;
type WP<S> = Wrap<P<S>>;

macro_rules! on {
    ($out:ident, $name:literal, $t:ident) => {
        $out.push(group(concat!("every-state-", $name), "all vectors with up to 3 keys over F_3, all keys, scalars and rationals", every_state::<3, $t<F3>>));
        $out.push(group(concat!("every-state-mod2-", $name), "the same over F_2, where every element is its own opposite", every_state::<2, $t<F2>>));
        $out.push(group(concat!("programs-", $name), "all programs of 4 (thorough 5) operations on live objects", programs::<$t<Big>>));
        $out.push(group(concat!("sizes-", $name), "vectors of a list of sizes up to 40 (thorough all up to 127), every key below 127", sizes::<$t<Big>>));
        $out.push(group(concat!("special-", $name), "0, 1, -1 or 7 among 3 to 260 (thorough 520) other coefficients, cancelled or updated", specials::<$t<Big>>));
        $out.push(group(concat!("scalars-", $name), "all scalars and values of F_11", scalars::<$t<Fp<11>>>));
        $out.push(group(concat!("rounding-", $name), "all triples of floats from a list of ten", floats::<$t<f64>>));
    };
}
fn main() {
    let mut v = vec![];
    on!(v, "minimal", Minimal);
    on!(v, "dense", I);
    on!(v, "dense-blocks", IB);
    on!(v, "sparse", P);
    on!(v, "tensor-vector", DT);
    on!(v, "dense-tensor", T2);
    on!(v, "wrapper-dense", WI);
    on!(v, "wrapper-sparse", WP);
    v.push(group("sizes-f64", "f64", sizes::<I<f64>>));
    v.push(group("sizes-f32-sparse", "f32", sizes::<P<f32>>));
    v.push(group("deep", "tensor words of width 1, 2, 3 far beyond what is stored", |t| {
        deep::<1>(t);
        deep::<2>(t);
        deep::<3>(t);
    }));
    vp_harness::ctx::main(v);
}
