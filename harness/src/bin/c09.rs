//! C09: vectors on borrowed storage compute the same and never change shared data.
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens;
use vp_harness::vecs::*;
use vp_harness::views::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

// ---------------------------------------------------------------- products
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Prod {
    Mul,
    MulInplace,
    LProd,
    RDiv,
    AddMul,
    SubMul,
    AddSquare,
    Commutator,
    Flip,
}
use Prod::*;
const PRODS: [Prod; 9] = [Mul, MulInplace, LProd, RDiv, AddMul, SubMul, AddSquare, Commutator, Flip];

fn degree(n: u32, len: usize) -> u32 {
    (0..).find(|d| tens::dim(n, *d) >= len).unwrap()
}
fn perform<const N: u32, S: Sc>(x: &mut tens::T<N, S>, y: &tens::T<N, S>, p: Prod, d: u32) {
    let (s, r) = (S::int(7), S::rat(2));
    match p {
        Mul => *x = x.multiply(y, Some(d)),
        MulInplace => {
            x.multiply_inplace(y, Some(d));
        }
        LProd => {
            x.mul_scal_lprod(y, s, Some(d));
        }
        RDiv => {
            x.mul_rat_rdiv(y, r, Some(d));
        }
        AddMul => {
            x.add_mul(y, y, Some(d));
        }
        SubMul => {
            x.sub_mul(y, y, Some(d));
        }
        AddSquare => {
            let c = y.clone();
            x.add_mul(&c, y, Some(d));
        }
        Commutator => *x = x.commutator(y, Some(d)),
        Flip => unreachable!(),
    }
}
fn product<const N: u32, S: Sc>(v: &mut Views<TensorBasis<N>, S>, p: Prod, d: u32) -> Result<(), String> {
    let (l0, l1) = (v.len(0), v.len(1));
    let room = |a: usize, b: usize| tens::dim(N, d.min(degree(N, a) + degree(N, b)));
    match p {
        MulInplace | LProd | RDiv => v.before_inplace(0, room(l0, l1)),
        AddMul | SubMul | AddSquare => v.before_inplace(0, room(l1, l1)),
        Mul | Commutator => v.before_replace(0),
        Flip => {}
    }
    if p == Flip {
        return v.step(&Op::Flip);
    }
    let [x, y] = &mut v.v;
    perform::<N, S>(x.as_mut().unwrap(), y.as_ref().unwrap(), p, d);
    let [x, y] = &mut v.o;
    perform::<N, S>(x.as_mut().unwrap(), y.as_ref().unwrap(), p, d);
    v.note();
    v.check("after the product")
}
fn products<const N: u32, S: Sc>(sizes: &[usize], degs: &[u32], depth: usize) {
    for s in starts::<S>(sizes) {
        for &d in degs {
            for l in 1..=depth {
                indices(PRODS.len(), l, &mut |ix| {
                    let k = tens::dim(N, d.min(degree(N, *sizes.last().unwrap()) * (1 << l))).max(*sizes.last().unwrap());
                    state(&(N, s[0].0, s[1].0, s[0].1.len(), s[1].1.len(), ix, d));
                    case(
                        || format!("products of width {} at degree {}: from {:?} do {:?}", N, d, s, ix.iter().map(|&i| PRODS[i]).collect::<Vec<_>>()),
                        || {
                            let mut v = Views::<TensorBasis<N>, S>::new(k, &s);
                            for (n, &i) in ix.iter().enumerate() {
                                product(&mut v, PRODS[i], d).map_err(|e| format!("step {}: {}", n + 1, e))?;
                                step(1);
                            }
                            outcome(&v.m[0].iter().map(|s| s.enc()).collect::<Vec<u64>>());
                            v.finish()
                        },
                    );
                });
            }
        }
    }
}

fn main() {
    let pr = "all pairs of storage kinds and sizes from a list, all programs of operations up to the length";
    let tp = "all pairs of storage kinds and sizes from a list, all programs of tensor products up to the length";
    vp_harness::ctx::main(vec![
        group("all-ops", pr, |t| programs::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>("all", 6, &starts(&[0, 1, 3]), &all_ops(&[0, 2, 4]), t.pick(2, 2))),
        group("all-ops-words", pr, |t| programs::<TensorBasis<2>, Big, Dense<TensorBasis<2>, Big>>("all", 15, &starts(t.pick(&[3], &[0, 1, 3, 4, 7])), &all_ops(&[0, 2, 4]), 2)),
        group("core-ops", pr, |t| programs::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>("core", 6, &starts(t.pick(&[0, 3], &[0, 1, 3, 5])), &core_ops(), 3)),
        group("core-ops-words", pr, |t| programs::<TensorBasis<2>, Big, Dense<TensorBasis<2>, Big>>("core", 15, &starts(t.pick(&[3], &[0, 3, 4])), &core_ops(), 3)),
        group("core-ops-deep", pr, |t| programs::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>("core", 6, &starts(&[3]), &core_ops()[..t.pick(12, 24)], 4)),
        group("core-ops-blocks", pr, |t| programs::<IntBasis<3>, F5, Dense<IntBasis<3>, F5>>("core", 9, &starts(t.pick(&[2], &[0, 2, 3, 4])), &core_ops(), 3)),
        group("sizes", pr, |t| {
            let n: Vec<usize> = (0..=t.pick(20, 70)).collect();
            for s in starts::<Big>(&n) {
                let (a, b) = (s[0].1.len(), s[1].1.len());
                programs::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>("sizes", 75, &[s], &size_ops(a, b, 75), 1);
            }
        }),
        group("large", "all pairs of storage kinds, sizes around powers of two up to 1025 (thorough 4097), a few operations of every kind once", |t| {
            for n in t.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025][..], &[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]).iter().copied() {
                for a in KINDS {
                    for b in KINDS {
                        for (la, lb) in [(n, n), (n, n - 1), (n - 1, n), (n, 1), (1, n), (0, n)].into_iter().take(if n < 200 || t == Tier::Thorough { 6 } else { 3 }) {
                            let s = [(a, tens::nths::<Big>(la, 3)), (b, tens::nths::<Big>(lb, 4000))];
                            programs::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>("large", n + 2, &[s], &few_ops(la, n + 2), 1);
                            alive();
                        }
                    }
                }
            }
        }),
        group("f64", pr, |t| programs::<TensorBasis<3>, f64, Dense<TensorBasis<3>, f64>>("all", 13, &starts(t.pick(&[0, 4], &[0, 1, 4, 5])), &all_ops(&[0, 2, 4]), t.pick(1, 2))),
        group("dense-tensor", pr, |t| programs::<TensorBasis<2>, Big, DenseTensor<'static, Big, 2>>("core", 15, &starts(t.pick(&[3], &[0, 3, 4])), &core_ops(), t.pick(2, 3))),
        group("products-1", tp, |t| products::<1, Big>(&[0, 1, 2, 4], &[0, 1, 3, 6], t.pick(2, 3))),
        group("products-2", tp, |t| products::<2, Big>(t.pick(&[0, 1, 3, 5, 7], &[0, 1, 2, 3, 4, 5, 6, 7]), &[0, 1, 2, 3], t.pick(2, 3))),
        group("products-3", tp, |t| products::<3, Big>(&[0, 1, 4, 7, 13], &[0, 1, 2, 3], t.pick(2, 3))),
        group("products-long", "all pairs of storage kinds, factors of up to 511 (thorough 2047) coefficients, each product once", |t| {
            products::<1, Big>(&[1, 28, 29], &[56], 1);
            products::<2, Big>(t.pick(&[3, 63, 300, 511][..], &[1, 3, 127, 300, 511, 1023, 2047]), &[t.pick(8, 10), 7], 1);
            products::<3, Big>(&[4, 121, 300], &[5], 1);
            products::<16, Big>(&[17, 200, 273], &[2], 1);
        }),
        group("products-f64", tp, |t| products::<2, f64>(t.pick(&[1, 3, 7], &[0, 1, 3, 5, 7]), &[1, 2], 2)),
    ]);
}
