//! C05: degrees, degree boundaries and dimensions describe one layout.
use rustyalgebra::basis::{BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::{DenseVector, Vector, VectorWithDegree};
use vp_harness::ctx::*;
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn want(what: &str, got: u128, w: u128) -> Result<(), String> {
    step(1);
    if got != w {
        return Err(format!("{} is {} instead of {}", what, got, w));
    }
    Ok(())
}
fn degree_of(n: u32, r: u128) -> u32 {
    (0..).find(|d| start(n, *d + 1) > r).unwrap()
}
fn run<const N: u32>(tier: Tier) {
    let d = depth::<N>() as u32;
    for e in 0..=d + 1 {
        case(|| format!("width {}: start of degree {}", N, e), || want("start", <TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(e) as u128, start(N, e)));
    }
    explore_words(N, d as usize, tier, &mut |w| {
        if state(&(N, w)) {
            case(|| format!("width {} word {:?}", N, w), || {
                let k = key::<N>(w);
                let e = w.len() as u32;
                want("degree of the word", TensorBasis::<N>::degree(&k) as u128, e as u128)?;
                want("dimension for the word", TensorBasis::<N>::vector_dimension_for_key(&k) as u128, start(N, e + 1))?;
                let i = rank(N, w);
                want("degree of its index", <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i as usize) as u128, e as u128)?;
                want("dimension for its index", TensorBasis::<N>::vector_dimension_for_index(i as usize) as u128, start(N, e + 1))
            });
        }
    });
    let end = start(N, d + 1);
    let mut index = |r: u128| {
        if r < end && state(&(N, r)) {
            let e = degree_of(N, r);
            case(|| format!("width {} index {}", N, r), || {
                want("degree of the index", <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(r as usize) as u128, e as u128)?;
                want("dimension for the index", TensorBasis::<N>::vector_dimension_for_index(r as usize) as u128, start(N, e + 1))
            });
        }
    };
    for r in 0..tier.pick(3_000, 100_000) {
        index(r);
    }
    for e in 1..=d + 1 {
        for o in 0..tier.pick(30, 300) {
            index(start(N, e) + o);
            index((start(N, e) - 1).saturating_sub(o));
        }
        let len = start(N, e + 1).saturating_sub(start(N, e));
        for q in 1..8 {
            index(start(N, e) + len * q / 8);
        }
    }
    // Vectors: every small size, and sizes around the degree boundaries.
    let mut sizes: Vec<usize> = (0..=tier.pick(150usize, 1500)).collect();
    for e in 1..=d + 1 {
        if start(N, e) < tier.pick(300_000, 3_000_000) {
            for o in -2i64..=2 {
                sizes.push((start(N, e) as i64 + o).max(0) as usize);
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    for s in sizes {
        if s as u128 > end {
            continue;
        }
        case(|| format!("width {}: degree of a vector of {} coefficients", N, s), || {
            let v = SimpleDenseVector::<'static, TensorBasis<N>, f32>::from_dimension(s);
            let e = if s == 0 { 0 } else { degree_of(N, s as u128 - 1) };
            want("size of the vector", DenseVector::as_slice(&v).len() as u128, s as u128)?;
            want("degree of the vector", v.degree() as u128, e as u128)
        });
    }
    // Vectors made from one word.
    for e in 0..=d {
        if start(N, e + 1) > tier.pick(20_000, 1_000_000) {
            break;
        }
        for l in [1, N] {
            let w = vec![l; e as usize];
            case(|| format!("width {}: vector of the word {:?}", N, w), || {
                let v = SimpleDenseVector::<'static, TensorBasis<N>, f32>::from_key(key::<N>(&w));
                want("degree of the vector", v.degree() as u128, e as u128)
            });
        }
    }
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    let (dn, dm) = (depth::<N>() as u32, depth::<M>() as u32);
    for e in 0..=dn.min(dm) + 1 {
        case(|| format!("widths {} and {} in turn: start of degree {}", N, M, e), || {
            let got = (<TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(e), <TensorBasis<M> as OrderedBasisWithDegree>::start_of_degree(e), <TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(e));
            want("start over the first", got.0 as u128, start(N, e))?;
            want("start over the second", got.1 as u128, start(M, e))?;
            want("start over the first, again,", got.2 as u128, start(N, e))
        });
    }
    for (w, x) in pair_words::<N, M>(tier.pick(200, 2000)) {
        case(|| format!("widths {} and {} in turn: words {:?} and {:?}", N, M, w, x), || {
            let (k, j) = (key::<N>(&w), key::<M>(&x));
            let got = (TensorBasis::<N>::degree(&k), TensorBasis::<M>::degree(&j), TensorBasis::<N>::degree(&k));
            want("degree of the first", got.0 as u128, w.len() as u128)?;
            want("degree of the second", got.1 as u128, x.len() as u128)?;
            want("degree of the first, again,", got.2 as u128, w.len() as u128)?;
            let got = (TensorBasis::<N>::vector_dimension_for_key(&k), TensorBasis::<M>::vector_dimension_for_key(&j), TensorBasis::<N>::vector_dimension_for_key(&k));
            want("dimension for the first", got.0 as u128, start(N, w.len() as u32 + 1))?;
            want("dimension for the second", got.1 as u128, start(M, x.len() as u32 + 1))?;
            want("dimension for the first, again,", got.2 as u128, start(N, w.len() as u32 + 1))
        });
    }
    let mut rs: Vec<u128> = (0..tier.pick(600, 20_000)).collect();
    for e in 1..=dn.max(dm) {
        for s in [start(N, e.min(dn)), start(M, e.min(dm))] {
            rs.extend([s, s + 1, s - 1]);
        }
    }
    for r in rs {
        if r >= start(N, dn + 1) || r >= start(M, dm + 1) {
            continue;
        }
        case(|| format!("widths {} and {} in turn: index {}", N, M, r), || {
            let i = r as usize;
            let got = (<TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i), <TensorBasis<M> as OrderedBasisWithDegree>::index_to_degree(i), <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i));
            let (a, b) = (degree_of(N, r), degree_of(M, r));
            want("degree over the first", got.0 as u128, a as u128)?;
            want("degree over the second", got.1 as u128, b as u128)?;
            want("degree over the first, again,", got.2 as u128, a as u128)?;
            let got = (TensorBasis::<N>::vector_dimension_for_index(i), TensorBasis::<M>::vector_dimension_for_index(i), TensorBasis::<N>::vector_dimension_for_index(i));
            want("dimension over the first", got.0 as u128, start(N, a + 1))?;
            want("dimension over the second", got.1 as u128, start(M, b + 1))?;
            want("dimension over the first, again,", got.2 as u128, start(N, a + 1))
        });
    }
    for s in 0..=tier.pick(150usize, 1500) {
        if s as u128 > start(N, dn + 1) || s as u128 > start(M, dm + 1) {
            break;
        }
        case(|| format!("widths {} and {} in turn: vectors of {} coefficients", N, M, s), || {
            let v = SimpleDenseVector::<'static, TensorBasis<N>, f32>::from_dimension(s);
            let w = SimpleDenseVector::<'static, TensorBasis<M>, f32>::from_dimension(s);
            let got = (v.degree(), w.degree(), v.degree());
            let e = |n| if s == 0 { 0 } else { degree_of(n, s as u128 - 1) as u128 };
            want("degree of the first", got.0 as u128, e(N))?;
            want("degree of the second", got.1 as u128, e(M))?;
            want("degree of the first, again,", got.2 as u128, e(N))
        });
    }
}
fn main() {
    let mut g = width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width: every degree, the word set of C01, all indices below 3000 (thorough 100000) and around every degree boundary, all vector sizes up to 150 (1500) and around the boundaries below 300000 (3000000)",
        vp_harness::all_widths!(run),
    );
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
