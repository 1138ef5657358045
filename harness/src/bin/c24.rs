//! C24: dense and sparse vectors give the same answers to the same program.
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

type L<const G: usize, S> = Lockstep<Dense<IntBasis<G>, S>, Sparse<IntBasis<G>, S>>;

fn all_ops<S: Sc>(keys: &[usize], s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = ops_basic(keys, s, r);
    v.extend(ops_fused(s, r));
    v.extend(ops_key(keys, s, r));
    v
}
fn none<S: Sc>(k: usize) -> [Canon<S>; 4] {
    [vec![None; k], vec![None; k], vec![None; k], vec![None; k]]
}
fn close2<const G: usize>(t: Tier) {
    let (s, r) = (vec![Fp::<2>(0), Fp(1)], vec![FpR::<2>(1)]);
    let k = t.pick(2, 3);
    let keys: Vec<usize> = (0..k).collect();
    closure::<L<G, F2>>("F2", &[none(k.max(G))], &all_ops(&keys, &s, &r), usize::MAX, &plain);
}
fn close3(t: Tier) {
    let (s, r) = (vec![Fp::<3>(0), Fp(1), Fp(2)], vec![FpR::<3>(1), FpR(2)]);
    closure::<L<1, F3>>("F3", &[none(2)], &all_ops(&[0, 1], &s, &r), usize::MAX, &plain);
    if t == Tier::Thorough {
        closure::<L<1, F3>>("F3 3 keys", &[none(3)], &all_ops(&[0, 1, 2], &s, &r), 4, &plain);
    }
}
fn programs<const G: usize>(t: Tier) {
    let ops = all_ops(&[0, 2, 5], &[Big::int(0), Big::int(5)], &[Big::rat(7)]);
    sequences::<L<G, Big>>("live", &[none(12)], &ops, 2, &plain);
    let few: Vec<Op<Big>> = vec![
        Op::InsertSingle(0, Fp(2)), Op::InsertSingle(5, Fp(3)), Op::Erase(0), Op::Clear, Op::Flip, Op::Swap, Op::AddInplace, Op::SubInplace,
        Op::UminusInplace, Op::LMulInplace(Fp(11)), Op::RDivInplace(FpR(13)), Op::Write(0, Fp(4)),
        Op::FromIterator(vec![(2, Fp(5)), (0, Fp(6)), (2, Fp(7))]), Op::Insert(vec![(2, Fp(8))]), Op::AddRMul(Fp(3)), Op::SubLDiv(FpR(3)),
        Op::KeyAddMul(2, Fp(9)), Op::KeySubDiv(5, FpR(2)),
    ];
    sequences::<L<G, Big>>("live", &[none(12)], &few, t.pick(5, 6), &plain);
}
fn sizes<S: Sc>(t: Tier) {
    let ns: Vec<usize> = t.pick(vec![0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 40, 65], (0..=70).collect());
    let k = 70;
    for &a in &ns {
        for &b in &ns {
            for p in [0, 1, 2] {
                let (x, y) = (filled::<S>(a, k, 3, p), filled::<S>(b, k, 90, 0));
                let drop0 = |c: &Canon<S>| -> Canon<S> { c.iter().map(|v| v.clone().filter(|s| *s != S::z())).collect() };
                let mut ops = size_ops::<S>(a, b, k);
                ops.extend(ops_fused(&[S::int(2)], &[S::rat(2)]));
                ops.extend(ops_key(&[0, a.min(k - 1), k - 1], &[S::int(2)], &[S::rat(2)]));
                singles::<L<1, S>>("sizes", &[[x.clone(), y.clone(), drop0(&x), drop0(&y)]], &ops, &plain);
            }
        }
    }
}
fn floats(_t: Tier) {
    let drop0 = |c: &Canon<f64>| -> Canon<f64> { c.iter().map(|v| v.filter(|s| *s != 0.0)).collect() };
    let st: Vec<[Canon<f64>; 4]> = float_states().into_iter().map(|(x, y)| [x.clone(), y.clone(), drop0(&x), drop0(&y)]).collect();
    singles::<L<1, f64>>("rounding", &st, &all_ops(&[0, 2], &FLOATS, &rationals()), &plain);
}
/// Large vectors, one size at a time.
fn huge_sizes(t: Tier) {
    for &n in t.pick(&HUGE[..12], &HUGE) {
        let k = n + 2;
        for (a, b) in [(n, n), (n, n / 2), (n / 2, n), (n, 1), (n, 0), (0, n)].into_iter().take(t.pick(3, 6)) {
            let (x, y) = (filled::<Big>(a, k, 5, 0), filled::<Big>(b, k, 2000, 0));
            singles::<L<1, Big>>("huge", &[[x.clone(), y.clone(), x, y]], &few_ops::<Big>(a, k), &plain);
            alive();
        }
    }
}
fn main() {
    vp_harness::ctx::main(vec![
        group("closure-F2", "two vectors of 2 (thorough 3) keys over F_2 in both representations, all operations, to a fixed point", close2::<1>),
        group("closure-F2-blocks", "as closure-F2, dense vectors growing in blocks of 2", close2::<2>),
        group("closure-F3", "2 keys over F_3 to a fixed point (thorough: 3 keys to depth 4)", close3),
        group("programs", "all programs of 2 operations of the full alphabet and 5 (thorough 6) of a reduced one, live objects", programs::<1>),
        group("programs-blocks", "as programs, blocks of 3", programs::<3>),
        group("sizes", "all pairs of sizes from a list up to 65 (thorough all up to 70), with and without zeros", sizes::<Big>),
        group("special", "one place special (zero, one, opposite, different, alone) among 3 to 260 (thorough 520), term lists in which all, some or all but one cancel", |t| {
            for &n in t.pick(&SPECIAL[..8], &SPECIAL) {
                for ((x, y), ops) in special::<Big>(n) {
                    singles::<L<1, Big>>("special", &[[x.clone(), y.clone(), x, y]], &ops, &plain);
                }
            }
        }),
        group("huge", "sizes around powers of two up to 3280 (thorough 9841)", huge_sizes),
        group("rounding", "all triples of floats from a list of ten, every operation", floats),
        group("sizes-f64", "as sizes, f64", sizes::<f64>),
    ]);
}
