//! C07: sparse vectors behave as finite maps, with cancelled terms gone.
use std::collections::BTreeMap;
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;
use rustyalgebra::vector::{Vector, VectorIteratorItem};

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

type V<S> = Sparse<IntBasis<1>, S>;
type M<S> = ModelPair<V<S>>;

fn f3() -> (Vec<F3>, Vec<FpR<3>>) {
    (vec![Fp(0), Fp(1), Fp(2)], vec![FpR(1), FpR(2)])
}
fn close3(t: Tier) {
    let (s, r) = f3();
    closure::<M<F3>>("F3 2 keys", &[empty(2)], &ops_basic(&[0, 1], &s, &r), usize::MAX, &plain);
    if t == Tier::Thorough {
        closure::<M<F3>>("F3 3 keys", &[empty(3)], &ops_basic(&[0, 1, 2], &s, &r), usize::MAX, &plain);
    }
}
/// The reachable states without stored zeros (only cancelling operations and non-zero terms).
fn close_clean(_t: Tier) {
    let s = vec![Fp::<3>(1), Fp(2)];
    let r = vec![FpR::<3>(1), FpR(2)];
    let ops: Vec<Op<F3>> = ops_basic(&[0, 1, 2], &s, &r);
    closure::<M<F3>>("F3 non-zero terms", &[empty(3)], &ops, usize::MAX, &plain);
}
fn close2(_t: Tier) {
    let s = vec![Fp::<2>(0), Fp(1)];
    let r = vec![FpR::<2>(1)];
    closure::<M<F2>>("F2 3 keys", &[empty(3)], &ops_basic(&[0, 1, 2], &s, &r), usize::MAX, &plain);
}
fn live(t: Tier) {
    let s = vec![Big::int(0), Big::int(5)];
    let r = vec![Big::rat(7)];
    sequences::<M<Big>>("live", &[empty(6)], &ops_basic(&[0, 2, 5], &s, &r), 2, &plain);
    let few: Vec<Op<Big>> = vec![
        Op::InsertSingle(0, Fp(2)), Op::InsertSingle(5, Fp(3)), Op::Erase(0), Op::Clear, Op::Flip, Op::Swap, Op::AddInplace, Op::SubInplace,
        Op::UminusInplace, Op::LMulInplace(Fp(11)), Op::RDivInplace(FpR(13)), Op::Write(0, Fp(4)),
        Op::FromIterator(vec![(2, Fp(5)), (0, Fp(6)), (2, Fp(7))]), Op::Insert(vec![(2, Fp(8))]), Op::Add, Op::Sub, Op::LMul(Fp(0)),
    ];
    sequences::<M<Big>>("live", &[empty(6)], &few, t.pick(5, 6), &plain);
}
/// Large vectors, overlapping in all ways, with and without cancellation.
fn large<S: Sc>(_t: Tier) {
    let k = 300;
    let shapes: Vec<Canon<S>> = {
        let mut v = vec![];
        for n in [0usize, 1, 2, 3, 5, 8, 15, 29, 64, 100, 257, 300] {
            v.push(filled::<S>(n, k, 3, 0));
            v.push(filled::<S>(n, k, 3, 0).into_iter().map(|x| x.map(|s| s.mneg())).collect());
            for m in [2usize, 7] {
                v.push(scattered::<S>(n, k, 3, m, 0));
                v.push(scattered::<S>(n, k, 60, m, n / 2));
            }
        }
        v
    };
    for a in &shapes {
        for b in &shapes {
            singles::<M<S>>("large", &[(a.clone(), b.clone())], &[Op::AddInplace, Op::SubInplace, Op::Add, Op::Sub, Op::Swap], &plain);
        }
        singles::<M<S>>("large", &[(a.clone(), vec![None; k])], &size_ops::<S>(9, 20, k), &plain);
    }
}
fn huge_int(t: Tier) {
    huge::<M<Big>, Big>("huge", &HUGE, t.pick(3, 9));
    huge::<M<Big>, Big>("huge", t.pick(&HUGER[4..5], &HUGER), t.pick(1, 9));
}
fn lists_long(_t: Tier) {
    for n in [1usize, 2, 7, 20, 33, 64, 257, 600] {
        for mul in [1usize, 5, 7, 293] {
            for period in [n, n / 2 + 1, 3] {
                let l: Vec<(usize, Big)> = (0..n).map(|i| ((i % period) * mul % 293, Big::nth(i))).collect();
                let s = (filled::<Big>(40, 293, 5, 0), vec![None; 293]);
                singles::<M<Big>>("long lists", &[s], &[Op::FromIterator(l.clone()), Op::Insert(l)], &plain);
            }
        }
    }
}
fn values(_t: Tier) {
    for x in 0..11u64 {
        for y in 0..11u64 {
            let a: Canon<Fp<11>> = vec![Some(Fp(x)), Some(Fp(y)), None];
            let b: Canon<Fp<11>> = vec![Some(Fp(y)), None, Some(Fp(1))];
            let mut ops = vec![Op::Add, Op::Sub, Op::Uminus, Op::AddInplace, Op::SubInplace, Op::UminusInplace];
            for v in 0..11 {
                ops.extend([Op::LMul(Fp(v)), Op::RMulInplace(Fp(v))]);
                ops.push(Op::FromIterator(vec![(0, Fp(x)), (1, Fp(v)), (0, Fp(y)), (1, Fp(x))]));
            }
            for v in 1..11 {
                ops.extend([Op::RDiv(FpR(v)), Op::LDivInplace(FpR(v))]);
            }
            singles::<M<Fp<11>>>("F11", &[(a.clone(), b.clone()), (b, a)], &ops, &plain);
        }
    }
    let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.7, 3.0, 49.0, 1024.0, 1e30, 1e-30, 9007199254740993.0];
    for &x in &vals {
        for &y in &vals {
            for &s in &vals {
                let a: Canon<f64> = vec![Some(x), Some(y), None];
                let b: Canon<f64> = vec![Some(y), Some(s), Some(x)];
                let mut ops = vec![Op::Add, Op::Sub, Op::AddInplace, Op::SubInplace, Op::LMul(s), Op::LMulInplace(s), Op::UminusInplace];
                if s != 0.0 {
                    ops.extend([Op::RDiv(s), Op::LDivInplace(s)]);
                }
                singles::<M<f64>>("f64", &[(a, b)], &ops, &plain);
            }
        }
    }
}
/// Iteration against element access, after every short program.
fn iteration(t: Tier) {
    let s = vec![Big::int(0), Big::int(5)];
    let r = vec![Big::rat(7)];
    let mut ops = ops_basic(&[0, 2, 5], &s, &r);
    ops.retain(|o| !matches!(o, Op::ToOwned | Op::SwapOwned | Op::AddInplaceOwned | Op::SubInplaceOwned));
    let look = |v: &V<Big>, k: usize| -> Result<(), String> {
        let mut seen: BTreeMap<usize, Big> = BTreeMap::new();
        for item in v {
            step(1);
            if item.key().0 >= k {
                return Err(format!("iteration visits unknown key {}", item.key()));
            }
            if seen.insert(item.key().0, *item.value()).is_some() {
                return Err(format!("iteration visits key {} twice", item.key()));
            }
        }
        let c: BTreeMap<usize, Big> = (0..k).filter_map(|i| v.get(IK(i)).map(|s| (i, *s))).collect();
        outcome(&c);
        if c != seen {
            return Err(format!("iteration gives {:?}, element access {:?}", seen, c));
        }
        Ok(())
    };
    for a in &ops {
        for b in &ops {
            state(&format!("{:?}{:?}", a, b));
            case(|| format!("iterate after {:?}, {:?} (other operand 2 e_2 + 3 e_4)", a, b), || {
                let mut u = <V<Big> as Vector>::new();
                let mut w = V::<Big>::from_iterator(vec![(IK(2), Fp(2)), (IK(4), Fp(3))]);
                for o in [a, b] {
                    vp_harness::vecs::apply(o, &mut u, &mut w);
                    look(&u, 6)?;
                    look(&w, 6)?;
                }
                Ok(())
            });
        }
    }
    for n in 0..t.pick(200usize, 2000) {
        state(&n);
        case(|| format!("iterate over {} terms", n), || {
            let v = V::<Big>::from_iterator((0..n).map(|i| (IK(i * 3), Big::nth(i))));
            look(&v, 3 * n + 1)?;
            let c = (&v).into_iter().count();
            if c != n {
                return Err(format!("{} terms visited", c));
            }
            Ok(())
        });
    }
}

fn main() {
    vp_harness::ctx::main(vec![
        group("closure-F3", "all states of two sparse vectors with 2 (thorough 3) keys over F_3 including stored zeros, to a fixed point", close3),
        group("closure-F3-non-zero-terms", "as closure-F3, 3 keys, programs that store only non-zero terms", close_clean),
        group("closure-F2", "3 keys over F_2, to a fixed point", close2),
        group("programs", "all programs of 2 operations of the full alphabet and 5 (thorough 6) of a reduced one, live objects", live),
        group("large-field", "pairs of vectors of up to 300 terms, equal, opposite, overlapping, disjoint", large::<Big>),
        group("large-f64", "as large-field, f64", large::<f64>),
        group("lists", "term lists up to 600 terms with repetitions", lists_long),
        group("special", "one place special (zero, one, opposite, different, alone) among 3 to 520 (thorough 1030), term lists in which all, some or all but one cancel", |t| {
            specials::<M<Big>, Big>(&SPECIAL);
            specials::<M<f64>, f64>(t.pick(&SPECIAL[3..6], &SPECIAL));
            specials::<M<Big>, Big>(t.pick(&[][..], &[1030]));
        }),
        group("huge", "sizes around powers of two up to 65536", huge_int),
        group("values", "all pairs of values of F_11, special finite floats", values),
        group("iteration", "iteration against element access after all programs of 2 operations, and for all sizes", iteration),
    ]);
}
