//! C10: every derived vector operation equals its step-by-step definition.
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn every_state<const MOD: u64, V: Rep<S = Fp<MOD>>>(t: Tier) {
    let vals: Vec<Fp<MOD>> = (0..MOD).map(Fp).collect();
    let rats: Vec<FpR<MOD>> = (1..MOD).map(FpR).collect();
    let k = if V::SPARSE { t.pick(2, 3) } else { 3 };
    let st = all_states::<V>(k, &vals);
    let ops = ops_derived(&vals, &rats);
    for a in &st {
        for b in &st {
            singles::<Derived<V>>(if MOD == 2 { "F2" } else { "F3" }, &[(a.clone(), b.clone())], &ops, &plain);
        }
    }
}
fn programs<V: Rep<S = Big>>(t: Tier) {
    let mut ops = ops_derived(&[Big::int(5)], &[Big::rat(3)]);
    ops.extend([Op::InsertSingle(0, Fp(2)), Op::InsertSingle(4, Fp(9)), Op::Flip, Op::AddInplace, Op::Clear, Op::ToOwned]);
    let start = (filled::<Big>(3, 7, 3, 0), filled::<Big>(5, 7, 8, 1));
    sequences::<Derived<V>>("live", &[empty(7), start], &ops, t.pick(3, 4), &plain);
}
fn sizes<V: Rep>(t: Tier) {
    let ns: Vec<usize> = t.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 31, 32, 33, 40, 64, 65], (0..=130).collect());
    let k = 130;
    let ops = ops_derived(&[V::S::int(4), V::S::int(0), V::S::int(1), V::S::int(-1)], &[V::S::rat(2), V::S::rat(1), V::S::rat(-1)]);
    for &a in &ns {
        for &b in &ns {
            singles::<Derived<V>>("sizes", &[(filled(a, k, 3, 0), filled(b, k, 90, 0))], &ops, &plain);
        }
    }
}
fn huge_sizes<V: Rep<S = Big>>(t: Tier) {
    let ops = ops_derived(&[Big::int(4)], &[Big::rat(2)]);
    for &n in t.pick(&[511, 512, 1000, 1024, 1025, 2048, 4096][..], &HUGE) {
        for (a, b) in [(n, n), (n, n - 1), (n / 2, n), (n, 0), (0, n)].into_iter().take(t.pick(3, 5)) {
            singles::<Derived<V>>("huge", &[(filled(a, n + 2, 3, 0), filled(b, n + 2, 90, 0))], &ops, &plain);
            alive();
        }
    }
}
/// One place special, see vecs::special.
fn specials<V: Rep<S = Big>>(t: Tier) {
    let ops = ops_derived(&[Big::int(4), Big::int(0), Big::int(1), Big::int(-1)], &[Big::rat(2), Big::rat(1), Big::rat(-1)]);
    for &n in t.pick(&[9, 33, 129][..], &SPECIAL) {
        for (start, _) in special::<Big>(n) {
            singles::<Derived<V>>("special", &[start], &ops, &plain);
            alive();
        }
    }
}
fn scalars<V: Rep<S = Fp<11>>>(_t: Tier) {
    let s: Vec<Fp<11>> = (0..11).map(Fp).collect();
    let r: Vec<FpR<11>> = (1..11).map(FpR).collect();
    let ops = ops_derived(&s, &r);
    for x in 0..11 {
        for y in 0..11 {
            let st = (vec![Some(Fp(x)), Some(Fp(3)), None], vec![Some(Fp(y)), Some(Fp(x)), Some(Fp(1))]);
            singles::<Derived<V>>("F11", &[st], &ops, &plain);
        }
    }
}
fn floats<V: Rep<S = f64>>(_t: Tier) {
    singles::<Derived<V>>("rounding", &float_states(), &ops_derived(&FLOATS, &rationals()), &plain);
}
type I<S> = Dense<IntBasis<1>, S>;
type P<S> = Sparse<IntBasis<1>, S>;

macro_rules! on {
    ($out:ident, $name:literal, $t:ident) => {
        $out.push(group(concat!("every-state-", $name), "all pairs of vectors with up to 3 keys (sparse: 2, thorough 3) over F_3, every derived operation with every scalar", every_state::<3, $t<F3>>));
        $out.push(group(concat!("every-state-mod2-", $name), "the same over F_2, where every element is its own opposite", every_state::<2, $t<F2>>));
        $out.push(group(concat!("programs-", $name), "all programs of 3 (thorough 4) operations on live objects", programs::<$t<Big>>));
        $out.push(group(concat!("sizes-", $name), "all pairs of sizes from a list up to 65 (thorough all up to 130)", sizes::<$t<Big>>));
        $out.push(group(concat!("scalars-", $name), "all scalars and values of F_11", scalars::<$t<Fp<11>>>));
        $out.push(group(concat!("rounding-", $name), "all triples of floats from a list of ten", floats::<$t<f64>>));
    };
}
type T1<S> = DenseTensor<'static, S, 3>;
type DT<S> = Dense<TensorBasis<2>, S>;
type WI<S> = Wrap<I<S>>;
type WP<S> = Wrap<P<S>>;
type WM<S> = Wrap<Minimal<S>>;

fn main() {
    let mut v = vec![];
    on!(v, "minimal", Minimal);
    on!(v, "dense", I);
    on!(v, "sparse", P);
    on!(v, "tensor-vector", DT);
    on!(v, "dense-tensor", T1);
    on!(v, "wrapper-dense", WI);
    on!(v, "wrapper-sparse", WP);
    on!(v, "wrapper-minimal", WM);
    let h = "sizes around powers of two up to 4096 (thorough 9841)";
    v.push(group("huge-minimal", h, huge_sizes::<Minimal<Big>>));
    v.push(group("huge-dense", h, huge_sizes::<I<Big>>));
    v.push(group("huge-sparse", h, huge_sizes::<P<Big>>));
    v.push(group("huge-dense-tensor", h, huge_sizes::<T1<Big>>));
    v.push(group("huge-wrapper-dense", h, huge_sizes::<WI<Big>>));
    let h = "one place special (zero, one, opposite, different, alone) among 9, 33, 129 (thorough 3 to 520)";
    v.push(group("special-minimal", h, specials::<Minimal<Big>>));
    v.push(group("special-dense", h, specials::<I<Big>>));
    v.push(group("special-sparse", h, specials::<P<Big>>));
    v.push(group("special-dense-tensor", h, specials::<T1<Big>>));
    v.push(group("special-wrapper-sparse", h, specials::<WP<Big>>));
    v.push(group("sizes-f64", "all pairs of sizes, f64", sizes::<I<f64>>));
    v.push(group("sizes-f32-sparse", "all pairs of sizes, f32", sizes::<P<f32>>));
    vp_harness::ctx::main(v);
}
