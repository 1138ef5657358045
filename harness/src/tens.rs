//! Reference model of truncated tensors: plain arrays indexed by the rank of the word.
use crate::scalars::{Fp, Poly, Q, Sc, Tracked};
use crate::vecs::{Dense, Wrap};
use crate::words::{rank, start};
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector, VectorWithDegree};
use std::borrow::{Borrow, BorrowMut};

pub type T<const N: u32, S> = Dense<TensorBasis<N>, S>;

pub fn dim(n: u32, deg: u32) -> usize {
    start(n, deg + 1) as usize
}
pub fn slice<'a, const N: u32, S: Sc>(t: &'a T<N, S>) -> &'a [S] {
    DenseVector::as_slice(t)
}
pub fn tensor<const N: u32, S: Sc>(v: &[S]) -> T<N, S> {
    SimpleDenseVector::from(v.to_vec())
}

// ---------------------------------------------------------------- tensor types
/// A tensor type the products are checked on.
pub trait Ten<const N: u32, S: Sc>: Algebra<'static, BasisType = TensorBasis<N>, KeyType = TensorKey<N>, ScalarType = S, RationalType = S::R> {
    const WHAT: &'static str;
    fn mk(v: &[S]) -> Self;
    fn sl(&self) -> &[S];
}
impl<const N: u32, S: Sc> Ten<N, S> for T<N, S> {
    const WHAT: &'static str = "dense vector";
    fn mk(v: &[S]) -> Self {
        tensor::<N, S>(v)
    }
    fn sl(&self) -> &[S] {
        slice(self)
    }
}
/// A user's wrapper of the dense vector that offers slices and a degree, and so multiplies.
impl<const N: u32, S: Sc> DenseVector<'static> for Wrap<T<N, S>> {
    fn as_slice(&self) -> &[S] {
        DenseVector::as_slice(&self.0)
    }
    fn as_mut_slice(&mut self) -> &mut [S] {
        DenseVector::as_mut_slice(&mut self.0)
    }
}
impl<const N: u32, S: Sc> ResizeableDenseVector<'static> for Wrap<T<N, S>> {
    fn resize(&mut self, n: usize) {
        ResizeableDenseVector::resize(&mut self.0, n)
    }
}
impl<const N: u32, S: Sc> VectorWithDegree<'static> for Wrap<T<N, S>> {
    fn degree(&self) -> u32 {
        self.0.degree()
    }
}
impl<const N: u32, S: Sc> Ten<N, S> for Wrap<T<N, S>> {
    const WHAT: &'static str = "user's wrapper of a dense vector";
    fn mk(v: &[S]) -> Self {
        Wrap(tensor::<N, S>(v))
    }
    fn sl(&self) -> &[S] {
        DenseVector::as_slice(&self.0)
    }
}
/// A user's own tensor type: an array, with only the required operations.
pub struct User<const N: u32, S: Sc>(pub Vec<S>);
impl<const N: u32, S: Sc> User<N, S> {
    fn index(k: &TensorKey<N>) -> usize {
        rank(N, &k.to_letters()) as usize
    }
    fn room(&mut self, i: usize) -> &mut S {
        let n = (0..).map(|d| dim(N, d)).find(|n| *n > i).unwrap();
        if self.0.len() < n {
            self.0.resize(n, S::z());
        }
        &mut self.0[i]
    }
}
impl<const N: u32, S: Sc> PartialEq for User<N, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const N: u32, S: Sc> Vector<'static> for User<N, S> {
    type BasisType = TensorBasis<N>;
    type KeyType = TensorKey<N>;
    type ScalarType = S;
    type RationalType = S::R;
    fn new() -> Self {
        User(vec![])
    }
    fn from_key(key: impl Into<TensorKey<N>>) -> Self {
        Self::from_key_scalar(key, S::o())
    }
    fn from_key_scalar(key: impl Into<TensorKey<N>>, s: impl Into<S>) -> Self {
        let mut v = User(vec![]);
        *v.room(Self::index(&key.into())) = s.into();
        v
    }
    fn from_iterator(it: impl IntoIterator<Item = (TensorKey<N>, S)>) -> Self {
        let mut v = User(vec![]);
        for (k, s) in it {
            let p: &mut S = v.room(Self::index(&k));
            *p = p.madd(&s);
        }
        v
    }
    fn swap(&mut self, mut o: impl BorrowMut<Self>) {
        std::mem::swap(&mut self.0, &mut o.borrow_mut().0)
    }
    fn to_owned(&self) -> Self {
        User(self.0.clone())
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn get(&self, k: impl Borrow<TensorKey<N>>) -> Option<&S> {
        self.0.get(Self::index(k.borrow()))
    }
    fn get_mut(&mut self, k: impl Borrow<TensorKey<N>>) -> Option<&mut S> {
        self.0.get_mut(Self::index(k.borrow()))
    }
    fn insert_single(&mut self, k: &TensorKey<N>, s: impl Into<S>) {
        *self.room(Self::index(k)) = s.into();
    }
    fn insert(&mut self, it: impl IntoIterator<Item = (TensorKey<N>, S)>) {
        for (k, s) in it {
            *self.room(Self::index(&k)) = s;
        }
    }
    fn erase(&mut self, k: impl Borrow<TensorKey<N>>) {
        if let Some(x) = self.0.get_mut(Self::index(k.borrow())) {
            *x = S::z();
        }
    }
    fn uminus_inplace(&mut self) -> &mut Self {
        for x in self.0.iter_mut() {
            *x = x.mneg();
        }
        self
    }
    fn add_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        self.0 = add(&self.0, &o.borrow().0);
        self
    }
    fn sub_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        self.0 = sub(&self.0, &o.borrow().0);
        self
    }
    fn scalar_lmultiply_inplace(&mut self, s: impl Into<S>) -> &mut Self {
        let s = s.into();
        for x in self.0.iter_mut() {
            *x = s.mmul(x);
        }
        self
    }
    fn scalar_rdivide_inplace(&mut self, r: impl Into<S::R>) -> &mut Self {
        let r = r.into();
        for x in self.0.iter_mut() {
            *x = x.mdiv(&r);
        }
        self
    }
}
impl<const N: u32, S: Sc> DenseVector<'static> for User<N, S> {
    fn as_slice(&self) -> &[S] {
        &self.0
    }
    fn as_mut_slice(&mut self) -> &mut [S] {
        &mut self.0
    }
}
impl<const N: u32, S: Sc> ResizeableDenseVector<'static> for User<N, S> {
    fn resize(&mut self, n: usize) {
        self.0.resize(n, S::z())
    }
}
impl<const N: u32, S: Sc> VectorWithDegree<'static> for User<N, S> {
    fn degree(&self) -> u32 {
        (0..).find(|d| dim(N, *d) >= self.0.len()).unwrap()
    }
}
impl<const N: u32, S: Sc> Ten<N, S> for User<N, S> {
    const WHAT: &'static str = "user's own tensor type";
    fn mk(v: &[S]) -> Self {
        User(v.to_vec())
    }
    fn sl(&self) -> &[S] {
        &self.0
    }
}

// ---------------------------------------------------------------- the model
/// Product truncated at degree `deg`: for each word the sum over its splits.
pub fn mul<S: Sc>(n: u32, a: &[S], b: &[S], deg: u32) -> Vec<S> {
    let mut starts = vec![];
    let mut pow = vec![];
    for d in 0..=deg + 1 {
        starts.push(start(n, d) as usize);
        pow.push((n as usize).checked_pow(d).unwrap_or(usize::MAX));
    }
    let mut out = vec![];
    for l in 0..=deg as usize {
        for r in 0..pow[l] {
            let mut s = S::z();
            for i in 0..=l {
                let p = starts[i] + r / pow[l - i];
                let q = starts[l - i] + r % pow[l - i];
                if p < a.len() && q < b.len() {
                    s = s.madd(&a[p].mmul(&b[q]));
                }
            }
            out.push(s);
        }
    }
    out
}
pub fn add<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    (0..a.len().max(b.len())).map(|i| at(a, i).madd(&at(b, i))).collect()
}
pub fn sub<S: Sc>(a: &[S], b: &[S]) -> Vec<S> {
    (0..a.len().max(b.len())).map(|i| at(a, i).msub(&at(b, i))).collect()
}
pub fn at<S: Sc>(a: &[S], i: usize) -> S {
    a.get(i).cloned().unwrap_or_else(S::z)
}
/// The coefficients of words up to the degree.
pub fn trunc<S: Sc>(n: u32, a: &[S], deg: u32) -> Vec<S> {
    a.iter().take(dim(n, deg)).cloned().collect()
}
/// Equal as tensors (missing coefficients are zero).
pub fn same<S: Sc>(what: &str, got: &[S], want: &[S]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (at(got, i), at(want, i));
        if g != w {
            return Err(format!("{}: coefficient of word number {} is {} instead of {}", what, i, g.show(), w.show()));
        }
    }
    Ok(())
}
/// Exactly unchanged.
pub fn kept<S: Sc>(what: &str, got: &[S], old: &[S]) -> Result<(), String> {
    if got.len() != old.len() || got.iter().zip(old).any(|(a, b)| a != b) {
        return Err(format!("{} changed to {}", what, text(got)));
    }
    Ok(())
}
/// The sum of c(k) * x^k for k = 0..=deg, truncated at deg; c(k) = num(k) / den(k).
pub fn series<S: Sc>(n: u32, x: &[S], deg: u32, c: &dyn Fn(u32) -> (i64, i64)) -> Vec<S> {
    let mut pow = vec![S::o()];
    let mut out: Vec<S> = vec![S::z(); dim(n, deg)];
    for k in 0..=deg {
        let (a, b) = c(k);
        for (i, p) in pow.iter().enumerate() {
            if i < out.len() {
                out[i] = out[i].madd(&p.mmul(&S::int(a)).mdiv(&S::rat(b)));
            }
        }
        pow = mul(n, &pow, x, deg);
    }
    out
}
pub fn exp<S: Sc>(n: u32, x: &[S], deg: u32) -> Vec<S> {
    let mut term = vec![S::o()];
    let mut out = term.clone();
    for k in 1..=deg {
        term = mul(n, &term, x, deg).iter().map(|v| v.mdiv(&S::rat(k as i64))).collect();
        out = add(&out, &term);
    }
    out
}
/// The logarithm series of a tensor with constant term one.
pub fn log<S: Sc>(n: u32, x: &[S], deg: u32) -> Vec<S> {
    let mut y = x.to_vec();
    y[0] = y[0].msub(&S::o());
    series(n, &y, deg, &|k| if k == 0 { (0, 1) } else { (if k % 2 == 1 { 1 } else { -1 }, k as i64) })
}

// Tensor types with a maximum degree, as users of the library declare them.
macro_rules! max_degree {
    ([$($g:tt)*] $s:ty, $d:expr) => {
        impl<'v, const N: u32 $($g)*> FreeTensor<'v, $s, N> for SimpleDenseVector<'v, TensorBasis<N>, $s> {
            const MAX_DEGREE: u32 = $d;
        }
        impl<const N: u32 $($g)*> FreeTensor<'static, $s, N> for User<N, $s> {
            const MAX_DEGREE: u32 = $d;
        }
        impl<const N: u32 $($g)*> FreeTensor<'static, $s, N> for Wrap<T<N, $s>> {
            const MAX_DEGREE: u32 = $d;
        }
    };
}
max_degree!([, const D: u32] Q<D>, D);
max_degree!([, const D: u32] Poly<D>, D);
impl<'v, const N: u32> FreeTensor<'v, Tracked, N> for SimpleDenseVector<'v, TensorBasis<N>, Tracked> {
    const MAX_DEGREE: u32 = 3;
}
max_degree!([] Fp<1000003>, 6);
/// Prime fields whose tensors have other maximum degrees.
pub type F9 = Fp<469762049>;
pub type F13 = Fp<998244353>;
pub type F30 = Fp<754974721>;
max_degree!([] F9, 9);
max_degree!([] F13, 13);
max_degree!([] F30, 30);

/// Indeterminate coefficients x_from, x_from+1, ...
pub fn generic<const D: u32>(len: usize, from: usize) -> Vec<Poly<D>> {
    (0..len).map(|i| Poly::var(from + i)).collect()
}
/// All vectors of exactly `len` coefficients from `vals`.
pub fn all_vectors<S: Clone>(len: usize, vals: &[S]) -> Vec<Vec<S>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|v: Vec<S>| {
                vals.iter().map(move |x| {
                    let mut w = v.clone();
                    w.push(x.clone());
                    w
                })
            })
            .collect();
    }
    out
}
/// The same for all lengths up to `len`.
pub fn all_upto<S: Clone>(len: usize, vals: &[S]) -> Vec<Vec<S>> {
    (0..=len).flat_map(|l| all_vectors(l, vals)).collect()
}
/// A constant term of zero, one, minus one, or as it is.
pub fn with_constant<S: Sc>(v: &[S], c: Option<i64>) -> Vec<S> {
    let mut v = v.to_vec();
    if let (Some(c), true) = (c, !v.is_empty()) {
        v[0] = S::int(c);
    }
    v
}
/// Lengths of two factors whose product reaches degree `d` and is truncated there: complete and cut, long and short.
pub fn long_pairs(n: u32, d: u32) -> Vec<(usize, usize)> {
    let all = dim(n, d);
    let half = dim(n, d / 2);
    let rest = dim(n, d - d / 2);
    let one = dim(n, 1);
    let mut out = vec![(all, all), (all, one), (one, all), (all, 1), (1, all), (half, rest), (rest, half), (all - 1, all), (all, all - 1), (all - 7, one), (one, all - 7), (dim(n, d - 1) + 1, one), (one, dim(n, d - 1) + 1), (all / 2, all / 2 + 3)];
    out.dedup();
    out
}
/// A tensor as text, abridged if it is long.
pub fn text<S: Sc>(v: &[S]) -> String {
    if v.len() < 2000 {
        format!("{:?}", v)
    } else {
        format!("[{:?}, {:?}, {:?}, ... {} coefficients ... {:?}]", v[0], v[1], v[2], v.len(), v[v.len() - 1])
    }
}
pub fn nths<S: Sc>(len: usize, from: usize) -> Vec<S> {
    (0..len).map(|i| S::nth(from + i)).collect()
}

/// Tensors of `len` coefficients, some of which are 0, 1 or -1: one (at either end of a degree or in the middle), all,
/// every second, the first or the second half, all but one.
pub fn marked<S: Sc>(n: u32, len: usize, from: usize) -> Vec<Vec<S>> {
    let base = nths::<S>(len, from);
    let mut out = vec![base.clone()];
    if len == 0 {
        return out;
    }
    let mut at = vec![0, len / 2, len - 1];
    let top = (0..).find(|d| dim(n, *d) >= len).unwrap();
    for d in 0..=top {
        at.extend([dim(n, d).wrapping_sub(1), dim(n, d)]);
    }
    at.retain(|p| *p < len);
    at.sort();
    at.dedup();
    for x in [0, 1, -1] {
        let with = |f: &dyn Fn(usize) -> bool| -> Vec<S> { base.iter().enumerate().map(|(i, v)| if f(i) { S::int(x) } else { v.clone() }).collect() };
        for &p in &at {
            out.push(with(&|i| i == p));
        }
        out.push(with(&|_| true));
        out.push(with(&|i| i % 2 == 0));
        out.push(with(&|i| i < len / 2));
        out.push(with(&|i| i >= len / 2));
        out.push(with(&|i| i != at[at.len() / 2]));
    }
    out.sort_by_key(|v| v.iter().map(|s| s.enc()).collect::<Vec<u64>>());
    out.dedup();
    out
}

/// `v` with the degrees not in the set `keep` (a bit mask) set to zero.
pub fn levels<S: Sc>(n: u32, v: &[S], keep: u32) -> Vec<S> {
    let mut out = v.to_vec();
    let mut d = 0;
    for (i, x) in out.iter_mut().enumerate() {
        if i >= dim(n, d) {
            d += 1;
        }
        if keep >> d & 1 == 0 {
            *x = S::z();
        }
    }
    out
}
