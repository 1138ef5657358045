//! C23: no operation reads, loses or duplicates a coefficient it does not own.
//! Coefficients are instrumented: each knows whether it is alive, and a ledger records reads of
//! memory that holds no coefficient, double drops and coefficients that were never dropped; the
//! allocator poisons fresh and freed memory and checks the surroundings of every block.
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{DenseTensor, FreeTensor, TensorBasis};
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens;
use vp_harness::vecs::*;
#[cfg(feature = "hooks")]
use vp_harness::views::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

type F = Fp<TP>;
fn tr(x: &F) -> Tracked {
    Tracked::make(x.0)
}
fn lift(c: &Canon<F>) -> Canon<Tracked> {
    c.iter().map(|x| x.as_ref().map(tr)).collect()
}
fn lifts(c: &[F]) -> Vec<Tracked> {
    c.iter().map(tr).collect()
}
fn lower(c: &Canon<Tracked>) -> Vec<u64> {
    c.iter().map(|x| x.as_ref().map_or(u64::MAX, |t| t.v)).collect()
}
/// Look at a coefficient the way a user would.
fn touch(s: &Tracked) -> u64 {
    if *s == Tracked::ZERO {
        0
    } else {
        s.v
    }
}
use rustyalgebra::coefficients::CoefficientField;

/// Run, and look at the ledger when everything is gone. What the operations compute is not judged
/// here; neither is an orderly refusal, unless it reports an access out of bounds.
fn audited(leaks_count: bool, f: impl FnOnce()) -> Result<(), String> {
    ledger_reset();
    let r = caught(f);
    fuse(u64::MAX);
    let (errors, live) = ledger();
    if let Some(e) = errors.first() {
        return Err(e.clone());
    }
    match r {
        Err(p) if ["out of bounds", "overflow", "out of range", "unsafe precondition"].iter().any(|w| p.contains(w)) => Err(p),
        Err(p) => {
            outcome(&p);
            Ok(())
        }
        Ok(()) if leaks_count && live != 0 => Err(format!("{} coefficients were never dropped", live)),
        Ok(()) => Ok(()),
    }
}
fn reading<V: Rep<S = Tracked>>(v: &V, k: usize) -> Vec<u64> {
    lower(&v.canon(k))
}

fn play<V: Rep<S = Tracked>>(c: &(Canon<F>, Canon<F>), ops: &[&Op<F>]) {
    let k = c.0.len();
    let mut u = V::build(&lift(&c.0));
    let mut w = V::build(&lift(&c.1));
    for o in ops {
        apply(&o.convert(&tr), &mut u, &mut w);
        reading(&u, k);
        let _ = u == w;
    }
    outcome(&(reading(&u, k), reading(&w, k)));
}
fn programs<V: Rep<S = Tracked>>(label: &str, starts: &[(Canon<F>, Canon<F>)], ops: &[Op<F>], depth: usize) {
    for c in starts {
        enumerate(ops.len(), depth, &mut |ix| {
            let seq: Vec<&Op<F>> = ix.iter().map(|&i| &ops[i]).collect();
            state(&(label, enc(c), ix));
            case(|| format!("{} {}: from {:?} do {:?}", label, V::what(), c, seq), || audited(true, || play::<V>(c, &seq)));
        });
    }
}
fn enc(c: &(Canon<F>, Canon<F>)) -> Vec<u64> {
    let mut v = vec![];
    enc_canon(&c.0, &mut v);
    enc_canon(&c.1, &mut v);
    v
}
fn enumerate(n: usize, depth: usize, f: &mut dyn FnMut(&[usize])) {
    let mut ix = vec![0; depth];
    'o: loop {
        f(&ix);
        for p in (0..depth).rev() {
            ix[p] += 1;
            if ix[p] < n {
                continue 'o;
            }
            ix[p] = 0;
        }
        return;
    }
}
/// A panic out of every single use of a coefficient.
fn panics<V: Rep<S = Tracked>>(label: &str, starts: &[(Canon<F>, Canon<F>)], ops: &[Op<F>]) {
    for c in starts {
        for o in ops {
            let mut uses = 0;
            let mut n = 0;
            while n <= uses {
                let first = n == 0;
                state(&(label, enc(c), format!("{:?}", o), n));
                case(
                    || format!("{} {}: from {:?} do {:?}, panicking in use number {} of a coefficient", label, V::what(), c, o, n),
                    || {
                        audited(false, || {
                            let k = c.0.len();
                            let mut u = V::build(&lift(&c.0));
                            let mut w = V::build(&lift(&c.1));
                            let op = o.convert(&tr);
                            fuse(if first { u64::MAX } else { n - 1 });
                            let r = caught(|| apply(&op, &mut u, &mut w));
                            let m = fuse(u64::MAX);
                            if first {
                                uses = m;
                            }
                            outcome(&(r.is_err(), reading(&u, k), reading(&w, k)));
                        })
                    },
                );
                n += 1;
            }
        }
    }
}
fn all_ops(keys: &[usize]) -> Vec<Op<F>> {
    let (s, r) = ([F::int(0), F::int(1), F::int(5)], [F::rat(1), F::rat(3)]);
    let mut v = ops_basic(keys, &s, &r);
    v.extend(ops_fused(&s[2..], &r[1..]));
    v.extend(ops_derived(&s[2..], &r[1..]));
    v.extend(ops_key(keys, &s[2..], &r[1..]));
    v
}
fn core_ops() -> Vec<Op<F>> {
    use Op::*;
    let (s, r) = (F::int(5), F::rat(3));
    vec![
        New, FromKeyScalar(3, s), FromIterator(vec![(2, s), (0, s), (2, s)]), Clear, UminusInplace, LMulInplace(s), LMulInplace(F::int(0)), RDivInplace(r), Erase(0), Erase(4),
        Write(1, s), InsertSingle(0, s), InsertSingle(4, s), Insert(vec![(1, s), (4, s), (1, s)]), AddInplace, SubInplaceOwned, AddLMul(s), SubRDiv(r), KeyAddMul(1, s),
        KeySubDiv(3, r), Swap, Flip, ToOwned, Add, Uminus, SwapOwned, LMul(s),
    ]
}
fn pairs(ns: &[usize], k: usize) -> Vec<(Canon<F>, Canon<F>)> {
    let mut v = vec![];
    for &a in ns {
        for &b in ns {
            v.push((filled(a, k, 3, 0), filled(b, k, 50, 1)));
        }
    }
    v
}
fn on<V: Rep<S = Tracked> + 'static>(out: &mut Vec<Group>, name: &str, k: usize) {
    out.push(group(format!("all-{}", name), "all programs of 2 operations out of all, several starting states, instrumented coefficients", move |t| {
        programs::<V>("all", &pairs(t.pick(&[0, 3], &[0, 1, 3, 4]), k), &all_ops(&[0, 2, 4]), 2)
    }));
    out.push(group(format!("core-{}", name), "all programs of 3 (thorough 4) core operations, instrumented coefficients", move |t| {
        programs::<V>("core", &pairs(t.pick(&[0, 3], &[3]), k), &core_ops(), t.pick(3, 4))
    }));
    out.push(group(format!("sizes-{}", name), "all pairs of sizes up to a bound, every operation once, instrumented coefficients", move |t| {
        let top = t.pick(17, 40);
        for a in 0..=top {
            for b in 0..=top {
                programs::<V>("sizes", &[(filled(a, 45, 3, 0), filled(b, 45, 50, 1))], &size_ops(a, b, 45), 1);
            }
        }
    }));
    out.push(group(format!("large-{}", name), "sizes around powers of two up to 1025, a few pairs of sizes, a few operations of every kind once; a panic injected at each use of a coefficient among 40 (thorough 130), instrumented coefficients", move |t| {
        for n in [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025] {
            for (a, b) in [(n, n), (n, n - 1), (n - 1, n), (n, 1), (1, n), (0, n)].into_iter().take(if n < 200 || t == Tier::Thorough { 6 } else { 3 }) {
                programs::<V>("large", &[(filled(a, n + 2, 3, 0), filled(b, n + 2, 50, 1))], &few_ops(a, n + 2), 1);
                alive();
            }
        }
        let n = t.pick(40, 130);
        for (a, b) in [(n, n), (n, n / 2), (n / 2, n)] {
            panics::<V>("large", &[(filled(a, n + 2, 3, 0), filled(b, n + 2, 50, 1))], &few_ops(a, n + 2));
        }
    }));
    out.push(group(format!("special-{}", name), "one place special (zero, one, opposite, different, alone) among 5 (thorough also 20) with a panic injected at each use of a coefficient, among 20 and 70 without", move |t| {
        for &n in t.pick(&[5][..], &[5, 20]) {
            for (c, ops) in special::<F>(n) {
                panics::<V>("special", &[c], &ops);
            }
            alive();
        }
        for n in [20, 70] {
            for (c, ops) in special::<F>(n) {
                programs::<V>("special", &[c], &ops, 1);
            }
            alive();
        }
    }));
    out.push(group(format!("panics-{}", name), "every operation once from several states, with a panic injected at each use of a coefficient", move |t| {
        panics::<V>("panics", &pairs(t.pick(&[0, 1, 3, 4], &[0, 1, 2, 3, 4, 5, 6]), k), &all_ops(&[0, 2, 4]))
    }));
}

// ---------------------------------------------------------------- tensors
fn degree(n: u32, len: usize) -> u32 {
    (0..).find(|d| tens::dim(n, *d) >= len).unwrap()
}
fn read_all<const N: u32>(t: &tens::T<N, Tracked>) -> u64 {
    tens::slice(t).iter().map(touch).sum()
}
const PRODUCTS: [&str; 8] = ["multiply", "multiply_inplace", "mul_scal_lprod", "mul_rat_rdiv", "add_mul", "sub_mul", "commutator", "mul_scal_rprod"];
fn product<const N: u32>(p: usize, t: &mut tens::T<N, Tracked>, a: &tens::T<N, Tracked>, b: &tens::T<N, Tracked>, d: u32) {
    step(1);
    match PRODUCTS[p] {
        "multiply" => *t = a.multiply(b, Some(d)),
        "multiply_inplace" => {
            t.multiply_inplace(b, Some(d));
        }
        "mul_scal_lprod" => {
            t.mul_scal_lprod(b, Tracked::make(5), Some(d));
        }
        "mul_scal_rprod" => {
            t.mul_scal_rprod(b, Tracked::make(5), Some(d));
        }
        "mul_rat_rdiv" => {
            t.mul_rat_rdiv(b, FpR(3), Some(d));
        }
        "add_mul" => {
            t.add_mul(a, b, Some(d));
        }
        "sub_mul" => {
            t.sub_mul(a, b, Some(d));
        }
        "commutator" => *t = a.commutator(b, Some(d)),
        _ => unreachable!(),
    }
}
fn products<const N: u32>(targets: &[usize], max: usize) {
    let top = 2 * degree(N, max) + 1;
    for p in 0..PRODUCTS.len() {
        for &lt in targets {
            for la in 0..=max {
                for lb in 0..=max {
                    for d in 0..=top {
                        for c in [None, Some(0), Some(1)] {
                            state(&(p, N, lt, la, lb, d, c));
                            case(
                                || format!("{} width {}: target of {} coefficients, factors of {} and {} (constant term {:?}), degree {}", PRODUCTS[p], N, lt, la, lb, c, d),
                                || {
                                    audited(true, || {
                                        let mk = |l, s, c| tens::tensor::<N, Tracked>(&lifts(&tens::with_constant(&tens::nths::<F>(l, s), c)));
                                        let (mut t, a, b) = (mk(lt, 900, None), mk(la, 3, None), mk(lb, 400, c));
                                        product(p, &mut t, &a, &b, d);
                                        outcome(&(read_all(&t), read_all(&a), read_all(&b)));
                                    })
                                },
                            );
                        }
                    }
                }
            }
        }
    }
}
/// Long factors, each product once.
fn long_products<const N: u32>(d: u32) {
    for p in 0..PRODUCTS.len() {
        for (la, lb) in tens::long_pairs(N, d) {
            for lt in [0, la] {
                for (c, d) in [(None, d), (Some(1), d), (Some(0), d - 1)] {
                    state(&(p, N, lt, la, lb, d, c));
                    case(
                        || format!("{} width {}: target of {} coefficients, factors of {} and {} (constant term {:?}), degree {}", PRODUCTS[p], N, lt, la, lb, c, d),
                        || {
                            audited(true, || {
                                let mk = |l, s, c| tens::tensor::<N, Tracked>(&lifts(&tens::with_constant(&tens::nths::<F>(l, s), c)));
                                let (mut t, a, b) = (mk(lt, 900, None), mk(la, 3, None), mk(lb, 400, c));
                                product(p, &mut t, &a, &b, d);
                                outcome(&(read_all(&t), read_all(&a), read_all(&b)));
                            })
                        },
                    );
                }
            }
        }
        alive();
    }
}
/// Special values in any of the usual places of the factors.
fn special_products<const N: u32>(lens: &[usize]) {
    for p in 0..PRODUCTS.len() {
        for &la in lens {
            for &lb in lens {
                for a in tens::marked::<F>(N, la, 3) {
                    for b in tens::marked::<F>(N, lb, 400) {
                        let d = degree(N, la) + degree(N, lb);
                        state(&(p, N, a.iter().map(|s| s.enc()).collect::<Vec<u64>>(), b.iter().map(|s| s.enc()).collect::<Vec<u64>>()));
                        case(
                            || format!("{} width {}: factors {:?} and {:?}, degree {}", PRODUCTS[p], N, a, b, d),
                            || {
                                audited(true, || {
                                    let mk = |v: &[F]| tens::tensor::<N, Tracked>(&lifts(v));
                                    let (mut t, x, y) = (mk(&a), mk(&a), mk(&b));
                                    product(p, &mut t, &x, &y, d);
                                    outcome(&(read_all(&t), read_all(&x), read_all(&y)));
                                })
                            },
                        );
                    }
                }
                alive();
            }
        }
    }
}
/// Sequences of products into the same tensors.
fn product_programs<const N: u32>(sizes: &[usize], degs: &[u32], depth: usize) {
    for &lt in sizes {
        for &lb in sizes {
            enumerate(PRODUCTS.len() * degs.len(), depth, &mut |ix| {
                state(&(N, lt, lb, ix));
                case(
                    || format!("width {}: tensors of {} and {} coefficients, {:?}", N, lt, lb, ix.iter().map(|i| (PRODUCTS[i % PRODUCTS.len()], degs[i / PRODUCTS.len()])).collect::<Vec<_>>()),
                    || {
                        audited(true, || {
                            let mk = |l, s| tens::tensor::<N, Tracked>(&lifts(&tens::nths::<F>(l, s)));
                            let (mut t, b) = (mk(lt, 900), mk(lb, 400));
                            for i in ix {
                                let a = t.clone();
                                product(i % PRODUCTS.len(), &mut t, &a, &b, degs[i / PRODUCTS.len()]);
                            }
                            outcome(&(read_all(&t), read_all(&b)));
                        })
                    },
                );
            });
        }
    }
}
fn series<const N: u32>(max: usize)
where
    tens::T<N, Tracked>: FreeTensor<'static, Tracked, N>,
{
    for la in 0..=max {
        for lb in 0..=max {
            for c in [None, Some(0), Some(1)] {
                for f in 0..4 {
                    state(&(N, la, lb, c, f));
                    case(
                        || format!("width {}: series {} of tensors of {} and {} coefficients (constant term {:?})", N, ["exp", "log", "fmexp", "log of exp"][f], la, lb, c),
                        || {
                            audited(true, || {
                                let mk = |l, s, c| tens::tensor::<N, Tracked>(&lifts(&tens::with_constant(&tens::nths::<F>(l, s), c)));
                                let (mut t, b) = (mk(la, 900, c), mk(lb, 400, None));
                                step(1);
                                let r = match f {
                                    0 => t.exp(),
                                    1 => t.log(),
                                    2 => {
                                        t.fmexp(&b);
                                        b
                                    }
                                    _ => t.exp().log(),
                                };
                                outcome(&(read_all(&t), read_all(&r)));
                            })
                        },
                    );
                    if f != 2 && lb > 0 {
                        break;
                    }
                }
            }
        }
    }
}
/// Coefficients of a factor: none special, all zero, every second zero or one, zero first or last.
fn factor(l: usize, s: usize, pattern: usize) -> Vec<F> {
    let mut v = tens::nths::<F>(l, s);
    for i in 0..l {
        match pattern {
            1 => v[i] = F::int(0),
            2 if i % 2 == 0 => v[i] = F::int(0),
            3 if i % 2 == 1 => v[i] = F::int(1),
            4 if i == 0 || i + 1 == l => v[i] = F::int(0),
            _ => {}
        }
    }
    v
}
fn product_panics<const N: u32>(max: usize, more: &[usize], top: u32) {
    let lens: Vec<usize> = (0..=max).chain(more.iter().copied()).collect();
    for p in 0..PRODUCTS.len() {
        for lt in [0, max] {
            for &la in &lens {
                for &lb in &lens {
                    for (pa, pb) in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (3, 0), (0, 3), (4, 2), (2, 4)] {
                        let (mut n, mut uses) = (0, 0);
                        while n <= uses {
                            let first = n == 0;
                            state(&(p, N, lt, la, lb, pa, pb, n));
                            case(
                                || format!("{} width {}: target of {} coefficients, factors {:?} and {:?}, degree {}, panicking in use number {}", PRODUCTS[p], N, lt, factor(la, 3, pa), factor(lb, 400, pb), top, n),
                                || {
                                    audited(false, || {
                                        let mk = |v: Vec<F>| tens::tensor::<N, Tracked>(&lifts(&v));
                                        let (mut t, a, b) = (mk(factor(lt, 900, pa)), mk(factor(la, 3, pa)), mk(factor(lb, 400, pb)));
                                        fuse(if first { u64::MAX } else { n - 1 });
                                        let r = caught(|| product(p, &mut t, &a, &b, top));
                                        let m = fuse(u64::MAX);
                                        if first {
                                            uses = m;
                                        }
                                        outcome(&(r.is_err(), read_all(&t), read_all(&a), read_all(&b)));
                                    })
                                },
                            );
                            n += 1;
                        }
                    }
                }
            }
        }
    }
}
fn series_panics<const N: u32>(max: usize)
where
    tens::T<N, Tracked>: FreeTensor<'static, Tracked, N>,
{
    for la in 0..=max {
        for lb in [0, 1, max] {
            for f in 0..3 {
                for pattern in 0..5 {
                    let (mut n, mut uses) = (0, 0);
                    while n <= uses {
                        let first = n == 0;
                        state(&(N, la, lb, f, pattern, n));
                        case(
                            || format!("{} width {}: tensors {:?} and of {} coefficients, panicking in use number {}", ["exp", "log", "fmexp"][f], N, factor(la, 3, pattern), lb, n),
                            || {
                                audited(false, || {
                                    let mk = |v: Vec<F>| tens::tensor::<N, Tracked>(&lifts(&v));
                                    let (mut t, b) = (mk(factor(la, 3, pattern)), mk(factor(lb, 400, pattern)));
                                    fuse(if first { u64::MAX } else { n - 1 });
                                    let r = caught(|| match f {
                                        0 => Some(t.exp()),
                                        1 => Some(t.log()),
                                        _ => {
                                            t.fmexp(&b);
                                            None
                                        }
                                    });
                                    step(1);
                                    let m = fuse(u64::MAX);
                                    if first {
                                        uses = m;
                                    }
                                    outcome(&(r.is_err(), read_all(&t), read_all(&b), r.ok().flatten().map(|x| read_all(&x))));
                                })
                            },
                        );
                        n += 1;
                    }
                }
                if f != 2 && lb > 0 {
                    break;
                }
            }
        }
    }
}
// ---------------------------------------------------------------- storage
/// Growing, shrinking and slicing.
fn storage<B: Keys + OrderedBasis>(max: usize, depth: usize) {
    for n in 0..=max {
        enumerate(max + 4, depth, &mut |ix| {
            state(&(B::NAME, n, ix));
            case(
                || format!("dense vector over {} of {} coefficients: resize to (last four: clear, slice, write through the slice, copy) {:?}", B::NAME, n, ix),
                || {
                    audited(true, || {
                        let mut v: Dense<B, Tracked> = if n % 2 == 0 { SimpleDenseVector::from(lifts(&tens::nths::<F>(n, 3))) } else { SimpleDenseVector::from_dimension(n) };
                        for &i in ix {
                            step(1);
                            match i {
                                i if i < max => v.resize(i),
                                i if i == max => v.clear(),
                                i if i == max + 1 => {
                                    for a in 0..=max {
                                        if let Some(s) = v.get_slice(a..) {
                                            s.iter().for_each(|x| {
                                                touch(x);
                                            });
                                        }
                                        if let Some(s) = v.get_slice(a) {
                                            touch(s);
                                        }
                                    }
                                }
                                i if i == max + 2 => {
                                    for x in DenseVector::as_mut_slice(&mut v) {
                                        *x = Tracked::make(9);
                                    }
                                    if let Some(x) = v.get_mut_slice(1..3) {
                                        x.reverse();
                                    }
                                }
                                _ => {
                                    let w = v.clone();
                                    let _ = v == w;
                                    v = w;
                                }
                            }
                        }
                        outcome(&DenseVector::as_slice(&v).iter().map(touch).collect::<Vec<_>>());
                    })
                },
            );
        });
    }
}
/// Term lists from iterators that are vague about their length.
struct Vague<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn vague<V: Rep<S = Tracked>>(len: usize, keys: usize) {
    for l in 0..=len {
        enumerate(keys, l, &mut |ix| {
            for hint in [(0, None), (0, Some(usize::MAX)), (l, Some(l)), (0, Some(l)), (l / 2, None), (0, Some(0)), (l + 1, Some(l + 1))] {
                for n in [0, 2] {
                    state(&(V::what(), ix, hint, n));
                    case(
                        || format!("{}: terms with keys {:?}, length hint {:?}, into a vector of {}", V::what(), ix, hint, n),
                        || {
                            audited(true, || {
                                let terms = || Vague(ix.iter().map(|&i| (V::B::k(i), Tracked::make(i as u64 + 1))), hint);
                                let v = V::from_iterator(terms());
                                let mut w = V::build(&lift(&filled(n, 8, 3, 0)));
                                w.insert(terms());
                                step(2);
                                outcome(&(reading(&v, 8), reading(&w, 8)));
                            })
                        },
                    );
                }
            }
        });
    }
}
fn sparse_iteration(max: usize) {
    type V = Sparse<IntBasis<1>, Tracked>;
    for n in 0..=max {
        case(
            || format!("iterating over a sparse vector of {} terms", n),
            || {
                audited(true, || {
                    let mut v = V::build(&lift(&filled(n, max, 3, 0)));
                    let mut s = 0;
                    for (_, x) in &v {
                        s += touch(x);
                    }
                    for i in 0..n / 2 {
                        v.erase(IK(i));
                    }
                    for (_, x) in &v {
                        s += touch(x);
                    }
                    step(2 + n as u64 / 2);
                    outcome(&s);
                })
            },
        );
    }
}

#[cfg(feature = "hooks")]
fn borrowed<B: Keys + OrderedBasis>(label: &str, k: usize, sizes: &[usize], ops: &[Op<F>], depth: usize) {
    for k0 in KINDS {
        for k1 in KINDS {
            for &a in sizes {
                for &b in sizes {
                    indices(ops.len(), depth, &mut |ix| {
                        state(&(label, k0, k1, a, b, ix));
                        case(
                            || format!("{} over {}: {:?} of {} and {:?} of {} coefficients, do {:?}", label, B::NAME, k0, a, k1, b, ix.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                            || {
                                audited(true, || {
                                    let mut x = lifts(&tens::nths::<F>(a, 3));
                                    let mut y = lifts(&tens::nths::<F>(b, 50));
                                    {
                                        // The buffers outlive the vectors: both are dropped first.
                                        let mut u = make::<B>(k0, &mut x);
                                        let mut w = make::<B>(k1, &mut y);
                                        for &i in ix {
                                            apply(&ops[i].convert(&tr), &mut u, &mut w);
                                            let c = u.clone();
                                            let _ = c == u;
                                        }
                                        outcome(&(reading(&u, k), reading(&w, k)));
                                    }
                                    outcome(&(x.iter().map(touch).collect::<Vec<_>>(), y.iter().map(touch).collect::<Vec<_>>()));
                                })
                            },
                        );
                    });
                }
            }
        }
    }
}
#[cfg(feature = "hooks")]
fn make<B: Keys + OrderedBasis>(kind: Kind, buf: &mut Vec<Tracked>) -> Dense<B, Tracked> {
    unsafe {
        match kind {
            Kind::Owned => SimpleDenseVector::from(buf.clone()),
            Kind::View => SimpleDenseVector::vp_from_slice(std::slice::from_raw_parts(buf.as_ptr(), buf.len())),
            Kind::ViewMut => SimpleDenseVector::vp_from_mut_slice(std::slice::from_raw_parts_mut(buf.as_mut_ptr(), buf.len())),
        }
    }
}

fn main() {
    let mut v = vec![];
    on::<Dense<IntBasis<1>, Tracked>>(&mut v, "dense", 7);
    on::<Dense<IntBasis<3>, Tracked>>(&mut v, "dense-blocks", 9);
    on::<Dense<TensorBasis<2>, Tracked>>(&mut v, "words", 7);
    on::<DenseTensor<'static, Tracked, 3>>(&mut v, "dense-tensor", 7);
    on::<Sparse<IntBasis<1>, Tracked>>(&mut v, "sparse", 7);
    on::<Wrap<Sparse<IntBasis<1>, Tracked>>>(&mut v, "wrapped-sparse", 7);
    let pr = "all sizes of target and factors, truncation degrees, constant terms 0, 1, other; instrumented coefficients";
    v.push(group("products-1", pr, |t| products::<1>(&[0, 1, 3, 6], t.pick(5, 9))));
    v.push(group("products-2", pr, |t| products::<2>(t.pick(&[0, 1, 4, 7, 9], &[0, 1, 2, 3, 4, 5, 6, 7, 9, 15, 20]), t.pick(8, 15))));
    v.push(group("products-3", pr, |t| products::<3>(t.pick(&[0, 4, 14], &[0, 1, 3, 4, 5, 12, 13, 14, 41]), t.pick(8, 14))));
    v.push(group("products-5", pr, |t| products::<5>(&[0, 6, 10], t.pick(8, 12))));
    let pp = "all programs of tensor products, instrumented coefficients";
    v.push(group("products-long", "factors of up to 511 (thorough 2047) coefficients, complete and cut, instrumented coefficients", |t| {
        long_products::<1>(t.pick(40, 100));
        long_products::<2>(t.pick(8, 10));
        long_products::<3>(t.pick(5, 6));
        long_products::<7>(3);
        long_products::<20>(2);
        long_products::<300>(1);
    }));
    v.push(group("products-special", "0, 1 or -1 in one, some or all places of each factor, instrumented coefficients", |t| {
        special_products::<1>(&[1, 5]);
        special_products::<2>(t.pick(&[3, 7, 11][..], &[1, 3, 5, 7, 11, 15, 31]));
        special_products::<3>(t.pick(&[4, 13][..], &[1, 4, 9, 13, 22]));
        special_products::<12>(&[13]);
    }));
    v.push(group("product-programs-2", pp, |t| product_programs::<2>(t.pick(&[1, 3, 5], &[0, 1, 2, 3, 4, 5, 7]), &[0, 1, 3], t.pick(2, 3))));
    v.push(group("product-programs-3", pp, |t| product_programs::<3>(t.pick(&[4, 6], &[0, 1, 3, 4, 6]), &[1, 2], t.pick(2, 3))));
    let se = "exponential, logarithm, fused exponential of all sizes, maximum degree 3, instrumented coefficients";
    v.push(group("series-1", se, |t| series::<1>(t.pick(6, 8))));
    v.push(group("series-2", se, |t| series::<2>(t.pick(8, 20))));
    v.push(group("series-3", se, |t| series::<3>(t.pick(5, 41))));
    v.push(group("product-panics", "a panic injected at each use of a coefficient in each product, with and without zeros and ones among the coefficients", |t| {
        product_panics::<1>(4, &[], 3);
        product_panics::<2>(t.pick(4, 7), t.pick(&[7], &[11, 15]), t.pick(2, 3));
        product_panics::<3>(4, t.pick(&[], &[13]), 2);
    }));
    v.push(group("series-panics", "a panic injected at each use of a coefficient in exponential, logarithm and fused exponential, maximum degree 3", |t| {
        series_panics::<1>(t.pick(4, 5));
        series_panics::<2>(t.pick(4, 8));
        series_panics::<3>(t.pick(2, 5));
    }));
    v.push(group("storage", "all sequences of growing, shrinking, slicing, clearing", |t| {
        storage::<IntBasis<1>>(t.pick(6, 8), t.pick(3, 4));
        storage::<TensorBasis<2>>(5, 3);
    }));
    v.push(group("vague-iterators", "all term lists over a few keys with every kind of length hint", |t| {
        vague::<Dense<IntBasis<1>, Tracked>>(t.pick(4, 5), 5);
        vague::<Dense<TensorBasis<2>, Tracked>>(3, 7);
        vague::<Sparse<IntBasis<1>, Tracked>>(t.pick(4, 5), 5);
    }));
    v.push(group("sparse-iteration", "sparse vectors of up to 200 terms", |_| sparse_iteration(200)));
    #[cfg(feature = "hooks")]
    {
        v.push(group("borrowed-all", "all storage kinds, all operations once", |_| borrowed::<IntBasis<1>>("all", 7, &[0, 1, 3, 4], &all_ops(&[0, 2, 4]), 1)));
        v.push(group("borrowed-core", "all storage kinds, all programs of core operations", |t| borrowed::<IntBasis<1>>("core", 7, t.pick(&[3], &[0, 1, 3]), &core_ops(), t.pick(2, 3))));
        v.push(group("borrowed-words", "all storage kinds, all programs of core operations", |t| borrowed::<TensorBasis<2>>("core", 7, t.pick(&[3], &[0, 1, 3]), &core_ops(), 2)));
    }
    vp_harness::ctx::main(v);
}
