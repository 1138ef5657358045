//! Vector representations, the alphabet of vector operations, the reference model (a plain array
//! of coefficients) and the exploration drivers: closure of the state space under all operations,
//! all operation sequences up to a depth on live objects, and single steps from given states.
use crate::ctx::{alive, case, outcome, state, step};
use crate::scalars::Sc;
use crate::words::unrank;
use rustyalgebra::basis::{Basis, BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::{SimpleDenseVector, SimpleSparseVector};
use rustyalgebra::vector::{Vector, VectorKeyExt};
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::fmt::{self, Debug, Display};
use std::ops::{Deref, DerefMut};

// ---------------------------------------------------------------- bases
/// A basis whose keys the harness can name by index.
pub trait Keys: Basis + 'static {
    const NAME: &'static str;
    fn k(i: usize) -> Self::KeyType;
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct IK(pub usize);
impl Display for IK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
/// Integer keys; vectors grow to multiples of G (G = 1: to just what is needed).
#[derive(Debug)]
pub struct IntBasis<const G: usize>;
impl<const G: usize> Basis for IntBasis<G> {
    type KeyType = IK;
}
pub struct IKIter(usize);
impl Iterator for IKIter {
    type Item = IK;
    fn next(&mut self) -> Option<IK> {
        self.0 += 1;
        Some(IK(self.0 - 1))
    }
}
impl<const G: usize> OrderedBasis for IntBasis<G> {
    type KeyIterator = IKIter;
    fn compare(a: &IK, b: &IK) -> Ordering {
        a.0.cmp(&b.0)
    }
    fn iter_keys() -> IKIter {
        IKIter(0)
    }
    fn key_to_index(k: &IK) -> usize {
        k.0
    }
    fn index_to_key(i: usize) -> IK {
        IK(i)
    }
    fn vector_dimension_for_key(k: &IK) -> usize {
        (k.0 / G + 1) * G
    }
    fn vector_dimension_for_index(i: impl Into<usize>) -> usize {
        (i.into() / G + 1) * G
    }
}
impl<const G: usize> BasisWithDegree for IntBasis<G> {
    fn degree(k: &IK) -> u32 {
        (k.0 / G) as u32
    }
}
impl<const G: usize> OrderedBasisWithDegree for IntBasis<G> {
    fn index_to_degree(i: usize) -> u32 {
        (i / G) as u32
    }
    fn start_of_degree(d: u32) -> usize {
        d as usize * G
    }
}
impl<const G: usize> Keys for IntBasis<G> {
    const NAME: &'static str = "integer keys";
    fn k(i: usize) -> IK {
        IK(i)
    }
}
impl<const N: u32> Keys for TensorBasis<N> {
    const NAME: &'static str = "tensor words";
    fn k(i: usize) -> TensorKey<N> {
        TensorKey::<N>::from_letters(&unrank(N, i as u128))
    }
}

// ---------------------------------------------------------------- representations
/// The stored coefficients of the first K keys, as read by `get`.
pub type Canon<S> = Vec<Option<S>>;

pub trait Rep:
    Vector<'static, BasisType = Self::B, KeyType = <Self::B as Basis>::KeyType, ScalarType = Self::S, RationalType = <Self::S as Sc>::R>
{
    type B: Keys;
    type S: Sc;
    /// Sparse: any key can be absent. Otherwise: a prefix of the keys is present.
    const SPARSE: bool;
    fn build(c: &Canon<Self::S>) -> Self;
    fn canon(&self, kmax: usize) -> Canon<Self::S> {
        (0..kmax).map(|i| self.get(&Self::B::k(i)).cloned()).collect()
    }
    fn what() -> String;
}
pub fn coefs<S: Sc>(c: &Canon<S>) -> Vec<S> {
    c.iter().map(|x| x.clone().unwrap_or_else(S::z)).collect()
}

pub type Dense<B, S> = SimpleDenseVector<'static, B, S>;
pub type Sparse<B, S> = SimpleSparseVector<'static, B, S, <B as Basis>::KeyType>;

fn prefix<S: Sc>(c: &Canon<S>) -> Vec<S> {
    c.iter().take_while(|x| x.is_some()).map(|x| x.clone().unwrap()).collect()
}
impl<B: Keys + OrderedBasis, S: Sc> Rep for Dense<B, S> {
    type B = B;
    type S = S;
    const SPARSE: bool = false;
    fn build(c: &Canon<S>) -> Self {
        SimpleDenseVector::from(prefix(c))
    }
    fn what() -> String {
        format!("dense vector over {}", B::NAME)
    }
}
impl<B: Keys + Basis<KeyType = IK>, S: Sc> Rep for SimpleSparseVector<'static, B, S, IK> {
    type B = B;
    type S = S;
    const SPARSE: bool = true;
    fn build(c: &Canon<S>) -> Self {
        let mut v = <Self as Vector>::new();
        for (i, x) in c.iter().enumerate() {
            if let Some(x) = x {
                v.insert_single(&IK(i), x.clone());
            }
        }
        v
    }
    fn what() -> String {
        format!("sparse vector over {}", B::NAME)
    }
}
impl<S: Sc, const N: u32> Rep for DenseTensor<'static, S, N> {
    type B = TensorBasis<N>;
    type S = S;
    const SPARSE: bool = false;
    fn build(c: &Canon<S>) -> Self {
        DenseTensor::from(SimpleDenseVector::from(prefix(c)))
    }
    fn what() -> String {
        format!("dense tensor of width {}", N)
    }
}
/// A user's wrapper around any vector.
pub struct Wrap<V>(pub V);
impl<V> Deref for Wrap<V> {
    type Target = V;
    fn deref(&self) -> &V {
        &self.0
    }
}
impl<V> DerefMut for Wrap<V> {
    fn deref_mut(&mut self) -> &mut V {
        &mut self.0
    }
}
impl<V> From<V> for Wrap<V> {
    fn from(v: V) -> Self {
        Wrap(v)
    }
}
impl<V: PartialEq> PartialEq for Wrap<V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<V: Rep> Rep for Wrap<V> {
    type B = V::B;
    type S = V::S;
    const SPARSE: bool = V::SPARSE;
    fn build(c: &Canon<V::S>) -> Self {
        Wrap(V::build(c))
    }
    fn what() -> String {
        format!("wrapper of a {}", V::what())
    }
}

/// A vector that implements only what the interface requires, as an ordered list of terms.
pub struct Minimal<S: Sc>(pub Vec<(usize, S)>);
impl<S: Sc> Minimal<S> {
    fn at(&mut self, k: usize) -> &mut S {
        let p = match self.0.binary_search_by(|x| x.0.cmp(&k)) {
            Ok(p) => p,
            Err(p) => {
                self.0.insert(p, (k, S::z()));
                p
            }
        };
        &mut self.0[p].1
    }
}
impl<S: Sc> PartialEq for Minimal<S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<S: Sc> Vector<'static> for Minimal<S> {
    type BasisType = IntBasis<1>;
    type KeyType = IK;
    type ScalarType = S;
    type RationalType = S::R;
    fn new() -> Self {
        Minimal(vec![])
    }
    fn from_key(key: impl Into<IK>) -> Self {
        Minimal(vec![(key.into().0, S::o())])
    }
    fn from_key_scalar(key: impl Into<IK>, s: impl Into<S>) -> Self {
        Minimal(vec![(key.into().0, s.into())])
    }
    fn from_iterator(it: impl IntoIterator<Item = (IK, S)>) -> Self {
        let mut v = Minimal(vec![]);
        for (k, s) in it {
            let p: &mut S = v.at(k.0);
            *p = p.madd(&s);
        }
        v
    }
    fn swap(&mut self, mut o: impl BorrowMut<Self>) {
        std::mem::swap(&mut self.0, &mut o.borrow_mut().0)
    }
    fn to_owned(&self) -> Self {
        Minimal(self.0.clone())
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn get(&self, k: impl Borrow<IK>) -> Option<&S> {
        let k = k.borrow().0;
        self.0.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn get_mut(&mut self, k: impl Borrow<IK>) -> Option<&mut S> {
        let k = k.borrow().0;
        self.0.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1)
    }
    fn insert_single(&mut self, k: &IK, s: impl Into<S>) {
        *self.at(k.0) = s.into();
    }
    fn insert(&mut self, it: impl IntoIterator<Item = (IK, S)>) {
        for (k, s) in it {
            *self.at(k.0) = s;
        }
    }
    fn erase(&mut self, k: impl Borrow<IK>) {
        let k = k.borrow().0;
        self.0.retain(|x| x.0 != k);
    }
    fn uminus_inplace(&mut self) -> &mut Self {
        for x in self.0.iter_mut() {
            x.1 = x.1.mneg();
        }
        self
    }
    fn add_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        for (k, s) in o.borrow().0.iter() {
            let p = self.at(*k);
            *p = p.madd(s);
        }
        self
    }
    fn sub_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        for (k, s) in o.borrow().0.iter() {
            let p = self.at(*k);
            *p = p.msub(s);
        }
        self
    }
    fn scalar_lmultiply_inplace(&mut self, s: impl Into<S>) -> &mut Self {
        let s = s.into();
        for x in self.0.iter_mut() {
            x.1 = s.mmul(&x.1);
        }
        self
    }
    fn scalar_rdivide_inplace(&mut self, r: impl Into<S::R>) -> &mut Self {
        let r = r.into();
        for x in self.0.iter_mut() {
            x.1 = x.1.mdiv(&r);
        }
        self
    }
}
impl<S: Sc> Rep for Minimal<S> {
    type B = IntBasis<1>;
    type S = S;
    const SPARSE: bool = true;
    fn build(c: &Canon<S>) -> Self {
        Minimal(c.iter().enumerate().filter(|x| x.1.is_some()).map(|(i, x)| (i, x.clone().unwrap())).collect())
    }
    fn what() -> String {
        "vector type with only the required operations".into()
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Debug)]
pub enum Op<S: Sc> {
    New,
    FromKey(usize),
    FromKeyScalar(usize, S),
    FromIterator(Vec<(usize, S)>),
    ToOwned,
    Clear,
    Erase(usize),
    InsertSingle(usize, S),
    Insert(Vec<(usize, S)>),
    /// Write through `get_mut` where there is a coefficient.
    Write(usize, S),
    Swap,
    /// `swap` with an owned vector: only self is observable afterwards.
    SwapOwned,
    /// The harness exchanges the roles of the two vectors.
    Flip,
    UminusInplace,
    AddInplace,
    AddInplaceOwned,
    SubInplace,
    SubInplaceOwned,
    LMulInplace(S),
    RMulInplace(S),
    LDivInplace(S::R),
    RDivInplace(S::R),
    Uminus,
    Add,
    Sub,
    /// The vector is its own other operand.
    AddSelf,
    SubSelf,
    LMul(S),
    RMul(S),
    LDiv(S::R),
    RDiv(S::R),
    AddLMul(S),
    AddRMul(S),
    SubLMul(S),
    SubRMul(S),
    AddLDiv(S::R),
    AddRDiv(S::R),
    SubLDiv(S::R),
    SubRDiv(S::R),
    KeyAddMul(usize, S),
    KeySubMul(usize, S),
    KeyAddDiv(usize, S::R),
    KeySubDiv(usize, S::R),
}
use Op::*;

fn terms<V: Rep>(l: &[(usize, V::S)]) -> Vec<(<V::B as Basis>::KeyType, V::S)> {
    l.iter().map(|(k, s)| (V::B::k(*k), s.clone())).collect()
}

/// Perform the operation with the library.
pub fn apply<V: Rep>(op: &Op<V::S>, u: &mut V, w: &mut V) {
    let k = |i: &usize| V::B::k(*i);
    step(1);
    match op {
        New => *u = <V as Vector>::new(),
        FromKey(i) => *u = V::from_key(k(i)),
        FromKeyScalar(i, s) => *u = V::from_key_scalar(k(i), s.clone()),
        FromIterator(l) => *u = V::from_iterator(terms::<V>(l)),
        ToOwned => {
            let r = Vector::to_owned(&*u);
            *u = r
        }
        Clear => u.clear(),
        Erase(i) => u.erase(k(i)),
        InsertSingle(i, s) => u.insert_single(&k(i), s.clone()),
        Insert(l) => u.insert(terms::<V>(l)),
        Write(i, s) => {
            if let Some(p) = u.get_mut(&k(i)) {
                *p = s.clone()
            }
        }
        Swap => u.swap(&mut *w),
        SwapOwned => {
            let o = Vector::to_owned(&*w);
            u.swap(o)
        }
        Flip => std::mem::swap(u, w),
        UminusInplace => {
            u.uminus_inplace();
        }
        AddInplace => {
            u.add_inplace(&*w);
        }
        AddInplaceOwned => {
            let o = Vector::to_owned(&*w);
            u.add_inplace(o);
        }
        SubInplace => {
            u.sub_inplace(&*w);
        }
        SubInplaceOwned => {
            let o = Vector::to_owned(&*w);
            u.sub_inplace(o);
        }
        LMulInplace(s) => {
            u.scalar_lmultiply_inplace(s.clone());
        }
        RMulInplace(s) => {
            u.scalar_rmultiply_inplace(s.clone());
        }
        LDivInplace(r) => {
            u.scalar_ldivide_inplace(r.clone());
        }
        RDivInplace(r) => {
            u.scalar_rdivide_inplace(r.clone());
        }
        Uminus => *u = Vector::uminus(&*u),
        Add => *u = Vector::add(&*u, &*w),
        Sub => *u = Vector::sub(&*u, &*w),
        AddSelf => *u = Vector::add(&*u, &*u),
        SubSelf => *u = Vector::sub(&*u, &*u),
        LMul(s) => *u = u.scalar_lmultiply(s.clone()),
        RMul(s) => *u = u.scalar_rmultiply(s.clone()),
        LDiv(r) => *u = u.scalar_ldivide(r.clone()),
        RDiv(r) => *u = u.scalar_rdivide(r.clone()),
        AddLMul(s) => {
            u.add_scalar_lmultiply(&*w, s.clone());
        }
        AddRMul(s) => {
            u.add_scalar_rmultiply(&*w, s.clone());
        }
        SubLMul(s) => {
            u.sub_scalar_lmultiply(&*w, s.clone());
        }
        SubRMul(s) => {
            u.sub_scalar_rmultiply(&*w, s.clone());
        }
        AddLDiv(r) => {
            u.add_scalar_ldivide(&*w, r.clone());
        }
        AddRDiv(r) => {
            u.add_scalar_rdivide(&*w, r.clone());
        }
        SubLDiv(r) => {
            u.sub_scalar_ldivide(&*w, r.clone());
        }
        SubRDiv(r) => {
            u.sub_scalar_rdivide(&*w, r.clone());
        }
        KeyAddMul(i, s) => {
            u.add_scalar_multiply(k(i), s.clone());
        }
        KeySubMul(i, s) => {
            u.sub_scalar_multiply(k(i), s.clone());
        }
        KeyAddDiv(i, r) => {
            u.add_scalar_divide(k(i), r.clone());
        }
        KeySubDiv(i, r) => {
            u.sub_scalar_divide(k(i), r.clone());
        }
    }
}

/// The same on plain arrays of coefficients.
pub fn model<S: Sc>(op: &Op<S>, u: &mut Vec<S>, w: &mut Vec<S>) {
    let n = u.len();
    let zip = |u: &mut Vec<S>, w: &Vec<S>, f: &dyn Fn(&S, &S) -> S| {
        for i in 0..n {
            u[i] = f(&u[i], &w[i]);
        }
    };
    let all = |u: &mut Vec<S>, f: &dyn Fn(&S) -> S| {
        for x in u.iter_mut() {
            *x = f(x);
        }
    };
    let zero = |u: &mut Vec<S>| {
        for x in u.iter_mut() {
            *x = S::z();
        }
    };
    match op {
        New | Clear => zero(u),
        FromKey(i) => {
            zero(u);
            u[*i] = S::o()
        }
        FromKeyScalar(i, s) => {
            zero(u);
            u[*i] = s.clone()
        }
        FromIterator(l) => {
            zero(u);
            for (i, s) in l {
                u[*i] = u[*i].madd(s)
            }
        }
        ToOwned => {}
        Erase(i) => u[*i] = S::z(),
        InsertSingle(i, s) => u[*i] = s.clone(),
        Insert(l) => {
            for (i, s) in l {
                u[*i] = s.clone()
            }
        }
        Write(..) => panic!("depends on what is stored"),
        Swap | Flip => std::mem::swap(u, w),
        SwapOwned => *u = w.clone(),
        Uminus | UminusInplace => all(u, &|x| x.mneg()),
        Add | AddInplace | AddInplaceOwned => zip(u, w, &|a, b| a.madd(b)),
        Sub | SubInplace | SubInplaceOwned => zip(u, w, &|a, b| a.msub(b)),
        AddSelf => all(u, &|x| x.madd(x)),
        SubSelf => zero(u),
        LMul(s) | RMul(s) | LMulInplace(s) | RMulInplace(s) => all(u, &|x| x.mmul(s)),
        LDiv(r) | RDiv(r) | LDivInplace(r) | RDivInplace(r) => all(u, &|x| x.mdiv(r)),
        AddLMul(s) | AddRMul(s) => zip(u, w, &|a, b| a.madd(&b.mmul(s))),
        SubLMul(s) | SubRMul(s) => zip(u, w, &|a, b| a.msub(&b.mmul(s))),
        AddLDiv(r) | AddRDiv(r) => zip(u, w, &|a, b| a.madd(&b.mdiv(r))),
        SubLDiv(r) | SubRDiv(r) => zip(u, w, &|a, b| a.msub(&b.mdiv(r))),
        KeyAddMul(i, s) => u[*i] = u[*i].madd(s),
        KeySubMul(i, s) => u[*i] = u[*i].msub(s),
        KeyAddDiv(i, r) => u[*i] = u[*i].madd(&S::o().mdiv(r)),
        KeySubDiv(i, r) => u[*i] = u[*i].msub(&S::o().mdiv(r)),
    }
}

/// Lists of terms: empty, single, in and out of order, repeated and cancelling keys.
pub fn lists<S: Sc>(keys: &[usize], s: &[S]) -> Vec<Vec<(usize, S)>> {
    let a = s[0].clone();
    let b = s[s.len() - 1].clone();
    let mut v = vec![vec![]];
    for &i in keys {
        v.push(vec![(i, b.clone())]);
        v.push(vec![(i, a.clone()), (i, b.clone())]);
        v.push(vec![(i, b.clone()), (i, b.clone().mneg())]);
        for &j in keys {
            if i != j {
                v.push(vec![(i, a.clone()), (j, b.clone())]);
                v.push(vec![(i, a.clone()), (j, b.clone()), (i, b.clone())]);
            }
        }
    }
    if keys.len() >= 3 {
        let (i, j, k) = (keys[0], keys[1], keys[keys.len() - 1]);
        v.push(vec![(k, a.clone()), (i, b.clone()), (k, b.clone()), (j, a.clone()), (k, a.clone())]);
    }
    v
}

/// The operations a finite map has.
pub fn ops_basic<S: Sc>(keys: &[usize], s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = vec![
        New, ToOwned, Clear, Flip, Swap, SwapOwned, UminusInplace, AddInplace, AddInplaceOwned, SubInplace, SubInplaceOwned, Uminus, Add, Sub,
        AddSelf, SubSelf,
    ];
    for &k in keys {
        v.push(FromKey(k));
        v.push(Erase(k));
        for x in s {
            v.push(FromKeyScalar(k, x.clone()));
            v.push(InsertSingle(k, x.clone()));
            v.push(Write(k, x.clone()));
        }
    }
    for l in lists(keys, s) {
        v.push(FromIterator(l.clone()));
        v.push(Insert(l));
    }
    for x in s {
        v.push(LMulInplace(x.clone()));
        v.push(RMulInplace(x.clone()));
        v.push(LMul(x.clone()));
        v.push(RMul(x.clone()));
    }
    for x in r {
        v.push(LDivInplace(x.clone()));
        v.push(RDivInplace(x.clone()));
        v.push(LDiv(x.clone()));
        v.push(RDiv(x.clone()));
    }
    v
}
pub fn ops_fused<S: Sc>(s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = vec![];
    for x in s {
        v.extend([AddLMul(x.clone()), AddRMul(x.clone()), SubLMul(x.clone()), SubRMul(x.clone())]);
    }
    for x in r {
        v.extend([AddLDiv(x.clone()), AddRDiv(x.clone()), SubLDiv(x.clone()), SubRDiv(x.clone())]);
    }
    v
}
pub fn ops_derived<S: Sc>(s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = vec![Uminus, Add, Sub, AddSelf, SubSelf];
    for x in s {
        v.extend([RMulInplace(x.clone()), LMul(x.clone()), RMul(x.clone())]);
    }
    for x in r {
        v.extend([LDivInplace(x.clone()), LDiv(x.clone()), RDiv(x.clone())]);
    }
    v.extend(ops_fused(s, r));
    v
}
pub fn ops_key<S: Sc>(keys: &[usize], s: &[S], r: &[S::R]) -> Vec<Op<S>> {
    let mut v = vec![];
    for &k in keys {
        for x in s {
            v.extend([KeyAddMul(k, x.clone()), KeySubMul(k, x.clone())]);
        }
        for x in r {
            v.extend([KeyAddDiv(k, x.clone()), KeySubDiv(k, x.clone())]);
        }
    }
    v
}

// ---------------------------------------------------------------- machines
/// Something that steps: real objects, an oracle inside `step`, and a canonical form from which
/// the objects can be rebuilt.
pub trait Machine: Sized {
    type C: Clone + Debug;
    type O: Clone + Debug;
    fn canon(&self) -> Self::C;
    fn enc(c: &Self::C) -> Vec<u64>;
    fn build(c: &Self::C) -> Result<Self, String>;
    fn step(&mut self, op: &Self::O) -> Result<(), String>;
    fn what() -> String;
}

pub fn enc_canon<S: Sc>(c: &Canon<S>, out: &mut Vec<u64>) {
    for x in c {
        out.push(match x {
            None => u64::MAX,
            Some(x) => x.enc(),
        });
    }
    out.push(u64::MAX - 1);
}
pub fn agree<S: Sc>(what: &str, got: &[S], want: &[S]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!("{}: coefficient of key {} is {} instead of {}", what, i, g.show(), w.show()));
        }
    }
    Ok(())
}
fn same_canon<S: Sc>(a: &Canon<S>, b: &Canon<S>) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => x == y,
            _ => false,
        })
}
fn built<V: Rep>(c: &Canon<V::S>) -> Result<V, String> {
    let v = V::build(c);
    agree("vector as built", &coefs(&v.canon(c.len())), &coefs(c))?;
    Ok(v)
}

/// Two vectors against the reference model; EXTRA: equality, copies and cancellation too.
pub struct ModelPair<V: Rep, const EXTRA: bool = true> {
    pub u: V,
    pub w: V,
    pub k: usize,
}
impl<V: Rep, const EXTRA: bool> Machine for ModelPair<V, EXTRA> {
    type C = (Canon<V::S>, Canon<V::S>);
    type O = Op<V::S>;
    fn canon(&self) -> Self::C {
        (self.u.canon(self.k), self.w.canon(self.k))
    }
    fn enc(c: &Self::C) -> Vec<u64> {
        let mut v = vec![];
        enc_canon(&c.0, &mut v);
        enc_canon(&c.1, &mut v);
        v
    }
    fn build(c: &Self::C) -> Result<Self, String> {
        Ok(ModelPair { u: built(&c.0)?, w: built(&c.1)?, k: c.0.len() })
    }
    fn step(&mut self, op: &Op<V::S>) -> Result<(), String> {
        let (c0, c1) = self.canon();
        let (mut mu, mut mw) = (coefs(&c0), coefs(&c1));
        let zero_free = |c: &Canon<V::S>| c.iter().all(|x| !matches!(x, Some(s) if *s == V::S::z()));
        let clean = zero_free(&c0) && zero_free(&c1);
        match op {
            Write(i, s) => {
                if self.u.get_mut(&V::B::k(*i)).is_some() {
                    mu[*i] = s.clone();
                } else if mu[*i] != V::S::z() {
                    return Err(format!("get_mut does not find the coefficient of key {}", i));
                }
            }
            _ => model(op, &mut mu, &mut mw),
        }
        apply(op, &mut self.u, &mut self.w);
        let (n0, n1) = self.canon();
        outcome(&Self::enc(&(n0.clone(), vec![])));
        agree("vector", &coefs(&n0), &mu)?;
        agree("other operand", &coefs(&n1), &mw)?;
        if !EXTRA {
            return Ok(());
        }
        let eq = self.u == self.w;
        step(3);
        if eq != (self.w == self.u) {
            return Err("equality is not symmetric".into());
        }
        let same = mu == mw;
        if eq && !same {
            return Err("vectors with different coefficients compare equal".into());
        }
        let copy = Vector::to_owned(&self.u);
        if copy != self.u || self.u != copy {
            return Err("a vector does not equal its copy".into());
        }
        agree("copy", &coefs(&copy.canon(self.k)), &mu)?;
        if V::SPARSE {
            let z = zero_free(&n0);
            let no_zero_arg = match op {
                FromIterator(l) => l.iter().all(|x| x.1 != V::S::z()),
                _ => true,
            };
            let cancels = matches!(
                op,
                FromIterator(_) | AddSelf | SubSelf | Add | AddInplace | AddInplaceOwned | Sub | SubInplace | SubInplaceOwned | Uminus | UminusInplace | LMul(_)
                    | RMul(_) | LMulInplace(_) | RMulInplace(_) | LDiv(_) | RDiv(_) | LDivInplace(_) | RDivInplace(_)
            );
            if clean && no_zero_arg && cancels && !z {
                return Err(format!("a cancelled term is still stored: {:?}", n0));
            }
            if z && zero_free(&n1) && same && !eq {
                return Err("vectors with the same non-zero coefficients do not compare equal".into());
            }
        }
        Ok(())
    }
    fn what() -> String {
        V::what()
    }
}

/// The same program on two representations.
pub struct Lockstep<V: Rep, X: Rep<S = V::S>> {
    a: (V, V),
    b: (X, X),
    k: usize,
}
impl<V: Rep, X: Rep<S = V::S>> Machine for Lockstep<V, X> {
    type C = [Canon<V::S>; 4];
    type O = Op<V::S>;
    fn canon(&self) -> Self::C {
        [self.a.0.canon(self.k), self.a.1.canon(self.k), self.b.0.canon(self.k), self.b.1.canon(self.k)]
    }
    fn enc(c: &Self::C) -> Vec<u64> {
        let mut v = vec![];
        for x in c {
            enc_canon(x, &mut v);
        }
        v
    }
    fn build(c: &Self::C) -> Result<Self, String> {
        Ok(Lockstep { a: (built(&c[0])?, built(&c[1])?), b: (built(&c[2])?, built(&c[3])?), k: c[0].len() })
    }
    fn step(&mut self, op: &Op<V::S>) -> Result<(), String> {
        // A write only where both have a coefficient.
        if let Write(i, _) = op {
            if self.a.0.get_mut(&V::B::k(*i)).is_none() || self.b.0.get_mut(&X::B::k(*i)).is_none() {
                return Ok(());
            }
        }
        apply(op, &mut self.a.0, &mut self.a.1);
        apply(op, &mut self.b.0, &mut self.b.1);
        let c = self.canon();
        outcome(&Self::enc(&c));
        agree(&format!("{} against {}", V::what(), X::what()), &coefs(&c[0]), &coefs(&c[2]))?;
        agree(&format!("other operand, {} against {}", V::what(), X::what()), &coefs(&c[1]), &coefs(&c[3]))?;
        Ok(())
    }
    fn what() -> String {
        format!("{} in step with {}", V::what(), X::what())
    }
}

/// A wrapper in step with what it wraps: the stored coefficients agree one by one, and equality too.
pub struct Wrapped<V: Rep, W: Rep<S = V::S, B = V::B> + Deref<Target = V>> {
    a: (W, W),
    b: (V, V),
    k: usize,
}
impl<V: Rep, W: Rep<S = V::S, B = V::B> + Deref<Target = V>> Machine for Wrapped<V, W> {
    type C = (Canon<V::S>, Canon<V::S>);
    type O = Op<V::S>;
    fn canon(&self) -> Self::C {
        (self.b.0.canon(self.k), self.b.1.canon(self.k))
    }
    fn enc(c: &Self::C) -> Vec<u64> {
        let mut v = vec![];
        enc_canon(&c.0, &mut v);
        enc_canon(&c.1, &mut v);
        v
    }
    fn build(c: &Self::C) -> Result<Self, String> {
        let r = Wrapped { a: (W::build(&c.0), W::build(&c.1)), b: (V::build(&c.0), V::build(&c.1)), k: c.0.len() };
        r.check()?;
        Ok(r)
    }
    fn step(&mut self, op: &Op<V::S>) -> Result<(), String> {
        if let Write(i, s) = op {
            let (x, y) = (self.a.0.get_mut(&V::B::k(*i)), self.b.0.get_mut(&V::B::k(*i)));
            if x.is_some() != y.is_some() {
                return Err(format!("get_mut finds key {} in one of wrapper and wrapped vector only", i));
            }
            if let (Some(x), Some(y)) = (x, y) {
                if x != y {
                    return Err(format!("get_mut gives {} in the wrapper and {} in the wrapped vector", x.show(), y.show()));
                }
                *x = s.clone();
                *y = s.clone();
            }
            step(2);
        } else {
            apply(op, &mut self.a.0, &mut self.a.1);
            apply(op, &mut self.b.0, &mut self.b.1);
        }
        self.check()
    }
    fn what() -> String {
        W::what()
    }
}
impl<V: Rep, W: Rep<S = V::S, B = V::B> + Deref<Target = V>> Wrapped<V, W> {
    fn check(&self) -> Result<(), String> {
        for (n, a, b) in [("vector", &self.a.0, &self.b.0), ("other operand", &self.a.1, &self.b.1)] {
            let (x, y) = (a.canon(self.k), b.canon(self.k));
            if !same_canon(&x, &y) {
                return Err(format!("{}: through the wrapper {:?}, wrapped {:?}", n, x, y));
            }
            if !same_canon(&a.deref().canon(self.k), &y) {
                return Err(format!("{}: inside the wrapper {:?}, wrapped {:?}", n, a.deref().canon(self.k), y));
            }
        }
        outcome(&Self::enc(&self.canon()));
        if (self.a.0 == self.a.1) != (self.b.0 == self.b.1) || (self.a.1 == self.a.0) != (self.b.1 == self.b.0) {
            return Err("equality of wrappers differs from equality of the wrapped vectors".into());
        }
        Ok(())
    }
}

/// A derived operation against its definition by the required in-place operations of the same type.
pub struct Derived<V: Rep> {
    u: V,
    w: V,
    k: usize,
}
impl<V: Rep> Machine for Derived<V> {
    type C = (Canon<V::S>, Canon<V::S>);
    type O = Op<V::S>;
    fn canon(&self) -> Self::C {
        (self.u.canon(self.k), self.w.canon(self.k))
    }
    fn enc(c: &Self::C) -> Vec<u64> {
        let mut v = vec![];
        enc_canon(&c.0, &mut v);
        enc_canon(&c.1, &mut v);
        v
    }
    fn build(c: &Self::C) -> Result<Self, String> {
        Ok(Derived { u: built(&c.0)?, w: built(&c.1)?, k: c.0.len() })
    }
    fn step(&mut self, op: &Op<V::S>) -> Result<(), String> {
        let (c0, c1) = self.canon();
        let (mut x, mut y) = (V::build(&c0), V::build(&c1));
        // The definition.
        match op {
            Uminus => apply(&UminusInplace, &mut x, &mut y),
            Add => apply(&AddInplace, &mut x, &mut y),
            Sub => apply(&SubInplace, &mut x, &mut y),
            AddSelf => {
                let mut y = V::build(&c0);
                apply(&AddInplace, &mut x, &mut y)
            }
            SubSelf => {
                let mut y = V::build(&c0);
                apply(&SubInplace, &mut x, &mut y)
            }
            LMul(s) | RMul(s) | RMulInplace(s) => apply(&LMulInplace(s.clone()), &mut x, &mut y),
            LDiv(r) | RDiv(r) | LDivInplace(r) => apply(&RDivInplace(r.clone()), &mut x, &mut y),
            AddLMul(s) | AddRMul(s) => {
                apply(&LMulInplace(s.clone()), &mut y, &mut x);
                apply(&AddInplace, &mut x, &mut y)
            }
            SubLMul(s) | SubRMul(s) => {
                apply(&LMulInplace(s.clone()), &mut y, &mut x);
                apply(&SubInplace, &mut x, &mut y)
            }
            AddLDiv(r) | AddRDiv(r) => {
                apply(&RDivInplace(r.clone()), &mut y, &mut x);
                apply(&AddInplace, &mut x, &mut y)
            }
            SubLDiv(r) | SubRDiv(r) => {
                apply(&RDivInplace(r.clone()), &mut y, &mut x);
                apply(&SubInplace, &mut x, &mut y)
            }
            o => apply(o, &mut x, &mut y),
        }
        let want = coefs(&x.canon(self.k));
        match op {
            // Operations that return a new vector leave both operands alone.
            Uminus | Add | Sub | AddSelf | SubSelf | LMul(_) | RMul(_) | LDiv(_) | RDiv(_) => {
                let r = match op {
                    Uminus => Vector::uminus(&self.u),
                    Add => Vector::add(&self.u, &self.w),
                    Sub => Vector::sub(&self.u, &self.w),
                    AddSelf => Vector::add(&self.u, &self.u),
                    SubSelf => Vector::sub(&self.u, &self.u),
                    LMul(s) => self.u.scalar_lmultiply(s.clone()),
                    RMul(s) => self.u.scalar_rmultiply(s.clone()),
                    LDiv(r) => self.u.scalar_ldivide(r.clone()),
                    RDiv(r) => self.u.scalar_rdivide(r.clone()),
                    _ => unreachable!(),
                };
                step(1);
                if !same_canon(&self.u.canon(self.k), &c0) {
                    return Err(format!("the vector changed to {:?}", self.u.canon(self.k)));
                }
                if !same_canon(&self.w.canon(self.k), &c1) {
                    return Err(format!("the other operand changed to {:?}", self.w.canon(self.k)));
                }
                // Owned operands are as good as borrowed ones.
                match op {
                    Add => agree("result for an owned operand", &coefs(&Vector::add(&self.u, V::build(&c1)).canon(self.k)), &want)?,
                    Sub => agree("result for an owned operand", &coefs(&Vector::sub(&self.u, V::build(&c1)).canon(self.k)), &want)?,
                    _ => {}
                }
                self.u = r;
            }
            o => {
                apply(o, &mut self.u, &mut self.w);
                if !matches!(o, Flip | Swap) && !same_canon(&self.w.canon(self.k), &c1) {
                    return Err(format!("the other operand changed to {:?}", self.w.canon(self.k)));
                }
            }
        }
        outcome(&Self::enc(&self.canon()));
        agree("result against the step-by-step definition", &coefs(&self.u.canon(self.k)), &want)
    }
    fn what() -> String {
        V::what()
    }
}

// ---------------------------------------------------------------- drivers
pub type Guard<'a> = &'a dyn Fn(&mut dyn FnMut() -> Result<(), String>) -> Result<(), String>;
pub fn plain(f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    f()
}

/// Closure of the state space under all operations, breadth first, up to `depth` operations from
/// the initial states. Returns whether the space was exhausted below the bound.
pub fn closure<M: Machine>(label: &str, init: &[M::C], ops: &[M::O], depth: usize, guard: Guard) -> bool {
    let mut q: VecDeque<(M::C, usize)> = VecDeque::new();
    for c in init {
        if state(&(label, M::enc(c))) {
            q.push_back((c.clone(), 0));
        }
    }
    let mut cut = false;
    while let Some((c, d)) = q.pop_front() {
        alive();
        if d >= depth {
            cut = true;
            continue;
        }
        for op in ops {
            let mut next = None;
            case(
                || format!("{} {}: from {:?} do {:?}", label, M::what(), c, op),
                || {
                    guard(&mut || {
                        let mut m = M::build(&c)?;
                        m.step(op)?;
                        next = Some(m.canon());
                        Ok(())
                    })
                },
            );
            let n = next.unwrap();
            if state(&(label, M::enc(&n))) {
                q.push_back((n, d + 1));
            }
        }
    }
    !cut
}

/// All sequences of exactly `depth` operations (so also all shorter ones) on live objects.
pub fn sequences<M: Machine>(label: &str, starts: &[M::C], ops: &[M::O], depth: usize, guard: Guard) {
    for c in starts {
        let mut ix = vec![0usize; depth];
        loop {
            state(&(label, M::enc(c), &ix[..]));
            case(
                || {
                    let seq: Vec<&M::O> = ix.iter().map(|&i| &ops[i]).collect();
                    format!("{} {}: from {:?} do {:?}", label, M::what(), c, seq)
                },
                || {
                    guard(&mut || {
                        let mut m = M::build(c)?;
                        for (n, &i) in ix.iter().enumerate() {
                            m.step(&ops[i]).map_err(|e| format!("step {}: {}", n + 1, e))?;
                        }
                        Ok(())
                    })
                },
            );
            let mut p = depth;
            loop {
                if p == 0 {
                    break;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < ops.len() {
                    break;
                }
                ix[p] = 0;
                if p == 0 {
                    p = usize::MAX;
                    break;
                }
            }
            if p == usize::MAX || depth == 0 {
                break;
            }
        }
    }
}

/// Every operation once from every given state.
pub fn singles<M: Machine>(label: &str, starts: &[M::C], ops: &[M::O], guard: Guard) {
    for c in starts {
        state(&(label, M::enc(c)));
        for op in ops {
            case(
                || format!("{} {}: from {:?} do {:?}", label, M::what(), c, op),
                || {
                    guard(&mut || {
                        let mut m = M::build(c)?;
                        m.step(op)
                    })
                },
            );
        }
    }
}

/// Finite floats on which no operation is exact: rounding tells apart computations that agree over a field.
pub const FLOATS: [f64; 10] = [0.0, 1.0, -1.0, 0.1, -0.7, 3.0, 49.0, 1e30, 1e-30, 9007199254740993.0];
pub fn float_states() -> Vec<(Canon<f64>, Canon<f64>)> {
    let mut v = vec![];
    for &x in &FLOATS {
        for &y in &FLOATS {
            v.push((vec![Some(x), Some(y), None], vec![Some(y), Some(-0.3), Some(x)]));
        }
    }
    v
}
pub fn rationals() -> Vec<f64> {
    FLOATS.iter().copied().filter(|&x| x != 0.0).collect()
}

// ---------------------------------------------------------------- states to start from
/// A vector of `n` stored coefficients out of `k` (pattern: which of them are zero).
pub fn filled<S: Sc>(n: usize, k: usize, seed: usize, pattern: usize) -> Canon<S> {
    (0..k)
        .map(|i| {
            if i >= n {
                None
            } else {
                let zero = match pattern {
                    0 => false,
                    1 => i % 2 == 0,
                    2 => i + 1 != n,
                    3 => i != 0,
                    _ => i % 3 != 1,
                };
                Some(if zero { S::z() } else { S::nth(seed + i) })
            }
        })
        .collect()
}
/// A sparse vector holding every `m`-th of the first `n` keys.
pub fn scattered<S: Sc>(n: usize, k: usize, seed: usize, m: usize, from: usize) -> Canon<S> {
    (0..k).map(|i| if i < n && i >= from && (i - from) % m == 0 { Some(S::nth(seed + i)) } else { None }).collect()
}

pub fn empty<S: Sc>(k: usize) -> (Canon<S>, Canon<S>) {
    (vec![None; k], vec![None; k])
}
/// Operations worth trying from a pair of vectors of `a` and `b` coefficients out of `k`.
pub fn size_ops<S: Sc>(a: usize, b: usize, k: usize) -> Vec<Op<S>> {
    let mut keys: Vec<usize> = vec![0, a.saturating_sub(1), a, a / 2, b, k - 1].into_iter().filter(|x| *x < k).collect();
    keys.sort();
    keys.dedup();
    let (s, r) = (S::int(4), S::rat(2));
    let mut v = vec![
        Uminus, UminusInplace, Add, AddInplace, AddInplaceOwned, AddSelf, SubSelf, Sub, SubInplace, SubInplaceOwned, Swap, Clear,
        ToOwned, LMul(s.clone()), RMul(s.clone()), LMulInplace(s.clone()), RMulInplace(s.clone()), LDiv(r.clone()),
        RDiv(r.clone()), LDivInplace(r.clone()), RDivInplace(r.clone()), LMulInplace(S::int(0)), LMulInplace(S::int(1)),
        LMulInplace(S::int(-1)), RDivInplace(S::rat(1)),
    ];
    for i in keys {
        v.push(InsertSingle(i, s.clone()));
        v.push(Erase(i));
        v.push(Write(i, s.clone()));
        v.push(FromKey(i));
        v.push(FromKeyScalar(i, s.clone()));
        v.push(FromIterator(vec![(i, s.clone()), (0, s.clone()), (i, s.clone())]));
        v.push(Insert(vec![(i, s.clone()), (0, s.clone())]));
    }
    v
}

/// A few operations of each kind, for vectors so large that each one takes its time.
pub fn few_ops<S: Sc>(n: usize, k: usize) -> Vec<Op<S>> {
    let (s, r) = (S::int(4), S::rat(2));
    vec![
        Add, AddInplace, Sub, SubInplace, AddSelf, SubSelf, UminusInplace, LMulInplace(s.clone()), RDivInplace(r.clone()), Swap, ToOwned, Clear,
        AddRMul(s.clone()), SubRDiv(r.clone()), InsertSingle(k - 1, s.clone()), InsertSingle(n.saturating_sub(1), s.clone()), Erase(n / 2), Write(n.saturating_sub(1), s.clone()),
        FromKeyScalar(k - 1, s.clone()), KeyAddMul(k - 1, s.clone()), KeySubDiv(n / 2, r),
        FromIterator((0..n).rev().map(|i| (i, S::nth(i))).collect()), Insert((0..k).step_by(3).map(|i| (i, S::nth(i))).collect()),
    ]
}
/// Every one of them from pairs of vectors of about `n` coefficients.
pub fn huge<M: Machine<C = (Canon<S>, Canon<S>), O = Op<S>>, S: Sc>(label: &str, ns: &[usize], pairs: usize) {
    for &n in ns {
        for (a, b) in [(n, n), (n, n - 1), (n - 1, n), (n, 1), (1, n), (n, n / 2), (n / 2, n), (n, 0), (0, n)].into_iter().take(pairs) {
            let k = n + 2;
            let start = (filled::<S>(a, k, 5, 0), filled::<S>(b, k, 2000, 0));
            singles::<M>(label, &[start], &few_ops::<S>(a, k), &plain);
            alive();
        }
        // The second the opposite of the first: everything cancels in a sum.
        let k = n + 2;
        let a = filled::<S>(n, k, 5, 0);
        let b = a.iter().map(|x| x.as_ref().map(|x| x.mneg())).collect();
        singles::<M>(label, &[(a, b)], &[Add, AddInplace, Sub, SubInplace], &plain);
    }
}
/// Sizes around powers of two and of three-letter tensors.
pub const HUGE: [usize; 18] = [500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3280, 4095, 4096, 4097, 8192, 8193, 9841];
pub const HUGER: [usize; 6] = [16384, 29524, 32769, 65535, 65536, 65537];

/// The first, the middle and the last of `n` places, and those around powers of two.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    let mut b = 4;
    while b < n {
        v.extend([b - 1, b, b + 1]);
        b *= 2;
    }
    v.retain(|p| *p < n);
    v.sort();
    v.dedup();
    v
}
/// Pairs of vectors of `n` coefficients in which one place is special, and operations for which that matters.
pub fn special<S: Sc>(n: usize) -> Vec<((Canon<S>, Canon<S>), Vec<Op<S>>)> {
    let k = n + 2;
    let full = |f: &dyn Fn(usize) -> S| -> Canon<S> { (0..k).map(|i| if i < n { Some(f(i)) } else { None }).collect() };
    let a = full(&|i| S::nth(5 + i));
    let b = full(&|i| S::nth(2000 + i));
    let neg = full(&|i| S::nth(5 + i).mneg());
    let with = |v: &Canon<S>, p: usize, x: S| {
        let mut v = v.clone();
        v[p] = Some(x);
        v
    };
    let sums = vec![Swap, Add, AddInplace, Sub, SubInplace, SubRMul(S::int(1)), AddLMul(S::int(-1)), SubRDiv(S::rat(2)), UminusInplace];
    let alone = vec![
        Swap, UminusInplace, LMulInplace(S::int(0)), LMulInplace(S::int(1)), RMulInplace(S::int(-1)), LMul(S::int(4)), RDivInplace(S::rat(2)), AddSelf, SubSelf, ToOwned,
    ];
    let mut out = vec![];
    for p in places(n) {
        let other = S::nth(5 + p).madd(&S::int(1));
        out.push(((a.clone(), with(&a, p, other.clone())), sums.clone()));
        out.push(((a.clone(), with(&neg, p, other)), sums.clone()));
        for x in [0, 1, -1] {
            let u = with(&a, p, S::int(x));
            out.push(((u.clone(), b.clone()), [&sums[..], &alone[..]].concat()));
            out.push(((b.clone(), u), sums.clone()));
        }
        // Nothing else, everything else.
        let lone = with(&full(&|_| S::z()), p, S::int(3));
        out.push(((lone.clone(), a.clone()), [&sums[..], &alone[..]].concat()));
        out.push(((a.clone(), lone), sums.clone()));
        // Lists of terms in which all, some or all but one cancel.
        let mut lists = vec![];
        for which in 0..4 {
            let chosen = |i: &usize| match which {
                0 => true,
                1 => *i % 2 == p % 2,
                2 => *i == p,
                _ => *i != p,
            };
            let terms = || (0..n).map(|i| (i, S::nth(5 + i)));
            let minus = || (0..n).filter(chosen).map(|i| (i, S::nth(5 + i).mneg()));
            lists.push(terms().chain(minus()).collect::<Vec<_>>());
            lists.push(minus().chain(terms()).collect());
            lists.push(terms().flat_map(|t| [Some(t.clone()), if chosen(&t.0) { Some((t.0, t.1.mneg())) } else { None }].into_iter().flatten().collect::<Vec<_>>()).collect());
            lists.push(terms().map(|t| if chosen(&t.0) { (t.0, S::z()) } else { t }).collect());
        }
        let ops = lists.into_iter().flat_map(|l| [FromIterator(l.clone()), Insert(l)]);
        let keyed = [
            KeyAddMul(p, S::nth(5 + p).mneg()), KeySubMul(p, S::nth(5 + p)), KeySubMul(p, S::int(0)), KeyAddDiv(p, S::rat(2)), KeySubDiv(p, S::rat(1)), Erase(p),
            InsertSingle(p, S::z()), InsertSingle(p, S::int(1)), Insert(vec![(p, S::z()), (p, S::int(2))]), Write(p, S::z()), Write(p, S::int(7)),
        ];
        out.push(((a.clone(), b.clone()), ops.chain(keyed).collect()));
    }
    out
}
pub const SPECIAL: [usize; 9] = [3, 9, 17, 33, 66, 100, 129, 260, 520];
pub fn specials<M: Machine<C = (Canon<S>, Canon<S>), O = Op<S>>, S: Sc>(ns: &[usize]) {
    for &n in ns {
        for (start, ops) in special::<S>(n) {
            singles::<M>("special", &[start], &ops, &plain);
            alive();
        }
    }
}
/// All vectors with at most `k` keys and coefficients from `vals`.
pub fn all_states<V: Rep>(k: usize, vals: &[V::S]) -> Vec<Canon<V::S>> {
    let mut out: Vec<Canon<V::S>> = vec![];
    if V::SPARSE {
        let mut level: Vec<Canon<V::S>> = vec![vec![]];
        for _ in 0..k {
            let mut next = vec![];
            for c in &level {
                let mut x = c.clone();
                x.push(None);
                next.push(x);
                for v in vals {
                    let mut x = c.clone();
                    x.push(Some(v.clone()));
                    next.push(x);
                }
            }
            level = next;
        }
        out = level;
    } else {
        let mut level: Vec<Canon<V::S>> = vec![vec![]];
        for n in 0..=k {
            for c in &level {
                let mut x = c.clone();
                x.resize(k, None);
                out.push(x);
            }
            if n < k {
                level = level
                    .iter()
                    .flat_map(|c| {
                        vals.iter().map(move |v| {
                            let mut x = c.clone();
                            x.push(Some(v.clone()));
                            x
                        })
                    })
                    .collect();
            }
        }
    }
    out
}

impl<S: Sc> Op<S> {
    /// The same operation with other scalars.
    pub fn convert<X: Sc<R = S::R>>(&self, f: &dyn Fn(&S) -> X) -> Op<X> {
        let l = |l: &Vec<(usize, S)>| l.iter().map(|(k, s)| (*k, f(s))).collect::<Vec<(usize, X)>>();
        match self {
            New => New,
            FromKey(i) => FromKey(*i),
            FromKeyScalar(i, s) => FromKeyScalar(*i, f(s)),
            FromIterator(x) => FromIterator(l(x)),
            ToOwned => ToOwned,
            Clear => Clear,
            Erase(i) => Erase(*i),
            InsertSingle(i, s) => InsertSingle(*i, f(s)),
            Insert(x) => Insert(l(x)),
            Write(i, s) => Write(*i, f(s)),
            Swap => Swap,
            SwapOwned => SwapOwned,
            Flip => Flip,
            UminusInplace => UminusInplace,
            AddInplace => AddInplace,
            AddInplaceOwned => AddInplaceOwned,
            SubInplace => SubInplace,
            SubInplaceOwned => SubInplaceOwned,
            LMulInplace(s) => LMulInplace(f(s)),
            RMulInplace(s) => RMulInplace(f(s)),
            LDivInplace(r) => LDivInplace(r.clone()),
            RDivInplace(r) => RDivInplace(r.clone()),
            Uminus => Uminus,
            Add => Add,
            Sub => Sub,
            AddSelf => AddSelf,
            SubSelf => SubSelf,
            LMul(s) => LMul(f(s)),
            RMul(s) => RMul(f(s)),
            LDiv(r) => LDiv(r.clone()),
            RDiv(r) => RDiv(r.clone()),
            AddLMul(s) => AddLMul(f(s)),
            AddRMul(s) => AddRMul(f(s)),
            SubLMul(s) => SubLMul(f(s)),
            SubRMul(s) => SubRMul(f(s)),
            AddLDiv(r) => AddLDiv(r.clone()),
            AddRDiv(r) => AddRDiv(r.clone()),
            SubLDiv(r) => SubLDiv(r.clone()),
            SubRDiv(r) => SubRDiv(r.clone()),
            KeyAddMul(i, s) => KeyAddMul(*i, f(s)),
            KeySubMul(i, s) => KeySubMul(*i, f(s)),
            KeyAddDiv(i, r) => KeyAddDiv(*i, r.clone()),
            KeySubDiv(i, r) => KeySubDiv(*i, r.clone()),
        }
    }
}

/// All sequences of the given length.
pub fn indices(n: usize, depth: usize, f: &mut dyn FnMut(&[usize])) {
    let mut ix = vec![0; depth];
    loop {
        f(&ix);
        let mut p = depth;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < n {
                break;
            }
            ix[p] = 0;
        }
    }
}
