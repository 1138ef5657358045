//! C25: truncated tensors form an associative graded algebra with unit.
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::TensorKey;
use rustyalgebra::vector::{DenseVector, Vector};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::tens::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn enc<S: Sc>(x: &[S]) -> Vec<u64> {
    x.iter().map(|s| s.enc()).collect()
}
/// Equal as tensors, with the library's own equality as a cross-check when the sizes agree.
fn eq<const N: u32, S: Sc>(what: &str, a: &T<N, S>, b: &T<N, S>) -> Result<(), String> {
    same(what, slice(a), slice(b))
}
fn laws2<const N: u32, S: Sc>(a: &[S], b: &[S], d: u32, s: &S) -> Result<(), String> {
    let (x, y) = (tensor::<N, S>(a), tensor::<N, S>(b));
    let d_ = Some(d);
    let xy = x.multiply(&y, d_);
    let unit = T::<N, S>::from_key(TensorKey::<N>::new());
    let zero = T::<N, S>::new();
    let tx = tensor::<N, S>(&trunc(N, a, (0..=d).find(|e| dim(N, *e) >= a.len()).unwrap_or(d)));
    eq("unit on the left", &unit.multiply(&x, d_), &tx)?;
    eq("unit on the right", &x.multiply(&unit, d_), &tx)?;
    eq("zero on the left", &zero.multiply(&x, d_), &zero)?;
    eq("zero on the right", &x.multiply(&zero, d_), &zero)?;
    let sxy = xy.scalar_lmultiply(s.clone());
    eq("scaling the left factor", &x.scalar_lmultiply(s.clone()).multiply(&y, d_), &sxy)?;
    eq("scaling the right factor", &x.multiply(&y.scalar_rmultiply(s.clone()), d_), &sxy)?;
    for e in 0..d.min(6) {
        eq("lower truncation", &x.multiply(&y, Some(e)), &tensor::<N, S>(&trunc(N, DenseVector::as_slice(&xy), e)))?;
        step(1);
    }
    let c = x.commutator(&y, d_);
    eq("commutator antisymmetric", &c, &y.commutator(&x, d_).uminus())?;
    eq("commutator from products", &c, &xy.sub(&y.multiply(&x, d_)))?;
    eq("commutator of a tensor with itself", &x.commutator(&x, d_), &zero)?;
    eq("commutator with the unit", &x.commutator(&unit, d_), &zero)?;
    step(14);
    outcome(&enc(slice(&xy)));
    Ok(())
}
fn laws3<const N: u32, S: Sc>(a: &[S], b: &[S], c: &[S], d: u32) -> Result<(), String> {
    let (x, y, z) = (tensor::<N, S>(a), tensor::<N, S>(b), tensor::<N, S>(c));
    let d = Some(d);
    let xy = x.multiply(&y, d);
    let yz = y.multiply(&z, d);
    let xyz = xy.multiply(&z, d);
    eq("associativity", &xyz, &x.multiply(&yz, d))?;
    eq("left distributivity", &x.multiply(&y.add(&z), d), &xy.add(&x.multiply(&z, d)))?;
    eq("right distributivity", &x.add(&y).multiply(&z, d), &x.multiply(&z, d).add(&yz))?;
    eq("distributivity over a difference", &x.multiply(&y.sub(&z), d), &xy.sub(&x.multiply(&z, d)))?;
    let j = x.commutator(&y.commutator(&z, d), d).add(&y.commutator(&z.commutator(&x, d), d)).add(&z.commutator(&x.commutator(&y, d), d));
    eq("Jacobi identity", &j, &T::<N, S>::new())?;
    // In-place chains agree with the same.
    let mut w = tensor::<N, S>(a);
    w.multiply_inplace(&y, d).multiply_inplace(&z, d);
    eq("in-place chain", &w, &xyz)?;
    let mut w = tensor::<N, S>(&vec![]);
    w.add_mul(&xy, &z, d).sub_mul(&x, &yz, d);
    eq("difference of both bracketings", &w, &T::<N, S>::new())?;
    step(25);
    outcome(&enc(slice(&xyz)));
    Ok(())
}
fn run2<const N: u32, S: Sc>(label: &str, a: &[S], b: &[S], d: u32, s: &S) {
    state(&(label, N, enc(a), enc(b), d, s.enc()));
    case(|| format!("{} width {}: {} and {}, degree {}, scalar {:?}", label, N, text(a), text(b), d, s), || laws2::<N, S>(a, b, d, s));
}
fn run3<const N: u32, S: Sc>(label: &str, a: &[S], b: &[S], c: &[S], d: u32) {
    state(&(label, N, enc(a), enc(b), enc(c), d));
    case(|| format!("{} width {}: {}, {} and {}, degree {}", label, N, text(a), text(b), text(c), d), || laws3::<N, S>(a, b, c, d));
}
fn generic2<const N: u32>(max: usize, top: u32) {
    for la in 0..=max {
        for lb in 0..=max {
            for d in 0..=top {
                for (p, q) in [(None, None), (Some(1), None), (Some(0), None), (None, Some(1)), (None, Some(0))] {
                    let (a, b) = (with_constant(&generic::<0>(la, 0), p), with_constant(&generic::<0>(lb, 100), q));
                    run2::<N, Poly<0>>("indeterminate", &a, &b, d, &Poly::var(500));
                }
            }
        }
    }
}
fn generic3<const N: u32>(max: usize, top: u32) {
    for la in 0..=max {
        for lb in 0..=max {
            for lc in 0..=max {
                for d in 0..=top {
                    run3::<N, Poly<0>>("indeterminate", &generic(la, 0), &generic(lb, 100), &generic(lc, 200), d);
                }
            }
        }
    }
}
fn every2<const N: u32, const P: u64>(len: usize, top: u32) {
    let vals: Vec<Fp<P>> = (0..P).map(Fp).collect();
    let all = all_upto(len, &vals);
    for a in &all {
        for b in &all {
            for d in 0..=top {
                for s in &vals {
                    run2::<N, Fp<P>>("every", a, b, d, s);
                }
            }
        }
    }
}
fn every3<const N: u32, const P: u64>(len: usize, top: u32) {
    let vals: Vec<Fp<P>> = (0..P).map(Fp).collect();
    let all = all_upto(len, &vals);
    for a in &all {
        for b in &all {
            for c in &all {
                for d in 0..=top {
                    run3::<N, Fp<P>>("every", a, b, c, d);
                }
            }
        }
    }
}
fn large<const N: u32>(degs: &[u32], top: u32) {
    for &da in degs {
        for &db in degs {
            let cut = |l: usize| l - (l > 2) as usize;
            let (a, b) = (nths::<Big>(cut(dim(N, da)), 3), nths::<Big>(dim(N, db), 4000));
            for d in [1, (da + db).min(top), top] {
                run2::<N, Big>("large", &a, &b, d, &Fp(123));
            }
            for &dc in degs {
                let c = nths::<Big>(cut(dim(N, dc)), 77);
                for d in [1, (da + db + dc).min(top), top] {
                    run3::<N, Big>("large", &a, &b, &c, d);
                }
            }
        }
    }
}
/// Very long tensors.
fn huge<const N: u32>(d: u32) {
    for (la, lb) in long_pairs(N, d) {
        let (a, b) = (nths::<Big>(la, 3), nths::<Big>(lb, 4000));
        run2::<N, Big>("huge", &a, &b, d, &Fp(123));
        alive();
        for lc in [dim(N, d), dim(N, 1), dim(N, d - 1) + 1] {
            run3::<N, Big>("huge", &a, &b, &nths(lc, 77), d);
            alive();
        }
    }
}
/// Special values in any of the usual places.
fn special<const N: u32>(lens: &[usize], d: u32) {
    for &la in lens {
        for a in marked::<Big>(N, la, 3) {
            for &lb in lens {
                run2::<N, Big>("special", &a, &nths(lb, 4000), d, &Fp(1));
                run2::<N, Big>("special", &nths(lb, 4000), &a, d, &Big::int(-1));
                for &lc in lens {
                    let (b, c) = (nths::<Big>(lb, 4000), nths::<Big>(lc, 77));
                    run3::<N, Big>("special", &a, &b, &c, d);
                    run3::<N, Big>("special", &b, &a, &c, d);
                    run3::<N, Big>("special", &b, &c, &a, d);
                }
            }
        }
    }
}
fn main() {
    let g2 = "two indeterminate tensors, all pairs of sizes, all truncation degrees";
    let g3 = "three indeterminate tensors, all triples of sizes, all truncation degrees";
    vp_harness::ctx::main(vec![
        group("pairs-1", g2, |t| generic2::<1>(t.pick(6, 9), t.pick(8, 12))),
        group("pairs-2", g2, |t| generic2::<2>(t.pick(8, 15), t.pick(4, 6))),
        group("pairs-3", g2, |t| generic2::<3>(t.pick(7, 14), t.pick(3, 5))),
        group("pairs-5", g2, |t| generic2::<5>(t.pick(7, 8), 3)),
        group("triples-1", g3, |t| generic3::<1>(t.pick(4, 6), t.pick(6, 9))),
        group("triples-2", g3, |t| generic3::<2>(t.pick(4, 7), t.pick(4, 5))),
        group("triples-3", g3, |t| generic3::<3>(t.pick(5, 6), t.pick(3, 4))),
        group("triples-4", g3, |t| generic3::<4>(t.pick(3, 6), 3)),
        group("every-pair-F3", "all pairs of tensors over F_3 up to a size, all scalars", |t| {
            every2::<2, 3>(3, 2);
            every2::<1, 3>(t.pick(3, 4), 4);
        }),
        group("every-pair-F2", "all pairs of tensors over F_2 up to a size", |t| every2::<2, 2>(t.pick(5, 7), 4)),
        group("every-triple-F2", "all triples of tensors over F_2 up to a size", |t| {
            every3::<2, 2>(t.pick(3, 4), 3);
            every3::<1, 2>(t.pick(3, 4), 4);
            every3::<3, 2>(t.pick(3, 4), 2);
        }),
        group("every-triple-F3", "all triples of tensors over F_3 up to a size", |t| {
            every3::<2, 3>(t.pick(2, 3), 2);
            every3::<1, 3>(t.pick(2, 3), 3);
        }),
        group("huge", "tensors of up to 20000 (thorough 98000) coefficients over F_1000003", |t| {
            huge::<1>(t.pick(400, 2000));
            huge::<2>(t.pick(12, 15));
            huge::<3>(t.pick(8, 10));
            huge::<5>(t.pick(6, 7));
            huge::<26>(3);
            huge::<128>(2);
        }),
        group("special", "0, 1 or -1 in one, some or all places of one tensor, a few sizes, over F_1000003", |t| {
            special::<1>(&[1, 5, 12], 20);
            special::<2>(t.pick(&[3, 7, 20, 40][..], &[1, 2, 3, 7, 15, 20, 40, 70]), 7);
            special::<3>(t.pick(&[4, 13, 31][..], &[4, 13, 31, 45]), 5);
            special::<20>(&[21], 2);
        }),
        group("large", "larger tensors over F_1000003", |t| {
            large::<1>(&[0, 2, 5], 9);
            large::<2>(t.pick(&[0, 2, 3], &[0, 2, 4]), t.pick(6, 8));
            large::<3>(&[0, 1, 2], t.pick(5, 6));
            large::<5>(&[0, 1, 2], t.pick(3, 4));
            large::<16>(&[0, 1], 3);
        }),
    ]);
}
