//! Dense vectors on owned and on borrowed storage, with the buffers kept in sight.
use crate::ctx::{case, outcome, state, step};
use crate::scalars::Sc;
use crate::vecs::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::{DenseVector, Vector};

/// A dense vector or something around one.
pub trait Around<B: Keys + OrderedBasis, S: Sc>: Rep<B = B, S = S> {
    fn put(v: Dense<B, S>) -> Self;
    fn inner(&self) -> &Dense<B, S>;
}
impl<B: Keys + OrderedBasis, S: Sc> Around<B, S> for Dense<B, S> {
    fn put(v: Dense<B, S>) -> Self {
        v
    }
    fn inner(&self) -> &Dense<B, S> {
        self
    }
}
impl<const N: u32, S: Sc> Around<TensorBasis<N>, S> for DenseTensor<'static, S, N> {
    fn put(v: Dense<TensorBasis<N>, S>) -> Self {
        DenseTensor::from(v)
    }
    fn inner(&self) -> &Dense<TensorBasis<N>, S> {
        self
    }
}
impl<B: Keys + OrderedBasis, S: Sc, V: Around<B, S>> Around<B, S> for Wrap<V> {
    fn put(v: Dense<B, S>) -> Self {
        Wrap(V::put(v))
    }
    fn inner(&self) -> &Dense<B, S> {
        self.0.inner()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Owned,
    View,
    ViewMut,
}
pub const KINDS: [Kind; 3] = [Kind::Owned, Kind::View, Kind::ViewMut];

/// What is known of a buffer.
#[derive(Clone, PartialEq, Debug)]
pub enum Known<S> {
    /// Exactly this.
    Is(Vec<S>),
    /// The coefficients of the vector that views it (0: first, 1: second).
    Follows(usize),
    /// An operation needed more room than there is.
    Unknown,
}
struct Buffer<S> {
    ptr: *mut S,
    len: usize,
    known: Known<S>,
    what: &'static str,
}

/// Two vectors and the buffers they started on.
pub struct Views<B: Keys + OrderedBasis, S: Sc, V: Around<B, S> = Dense<B, S>> {
    pub v: [Option<V>; 2],
    /// The buffer a vector writes through to.
    at: [Option<usize>; 2],
    buf: Vec<Buffer<S>>,
    /// The same vectors on storage of their own, going through the same operations.
    pub o: [Option<Dense<B, S>>; 2],
    /// Their coefficients.
    pub m: [Vec<S>; 2],
    pub k: usize,
}
impl<B: Keys + OrderedBasis, S: Sc, V: Around<B, S>> Views<B, S, V> {
    pub fn new(k: usize, start: &[(Kind, Vec<S>); 2]) -> Self {
        let mut r = Views { v: [None, None], at: [None, None], buf: vec![], o: [None, None], m: [vec![], vec![]], k };
        for i in 0..2 {
            let (kind, c) = &start[i];
            let mut m = c.clone();
            m.resize_with(k, S::z);
            r.m[i] = m;
            r.o[i] = Some(SimpleDenseVector::from(c.clone()));
            let boxed: Box<[S]> = c.clone().into_boxed_slice();
            r.v[i] = Some(V::put(match kind {
                Kind::Owned => SimpleDenseVector::from(boxed.into_vec()),
                Kind::View | Kind::ViewMut => {
                    let len = boxed.len();
                    let ptr = Box::into_raw(boxed) as *mut S;
                    let n = r.buf.len();
                    if *kind == Kind::View {
                        r.buf.push(Buffer { ptr, len, known: Known::Is(c.clone()), what: "the read-only buffer" });
                        SimpleDenseVector::vp_from_slice(unsafe { std::slice::from_raw_parts(ptr, len) })
                    } else {
                        r.buf.push(Buffer { ptr, len, known: Known::Follows(i), what: "the mutable buffer" });
                        r.at[i] = Some(n);
                        SimpleDenseVector::vp_from_mut_slice(unsafe { std::slice::from_raw_parts_mut(ptr, len) })
                    }
                }
            }));
        }
        r
    }
    /// Read off the coefficients of the owning vectors.
    pub fn note(&mut self) {
        for i in 0..2 {
            self.m[i] = coefs(&self.o[i].as_ref().unwrap().canon(self.k));
        }
    }
    pub fn len(&self, i: usize) -> usize {
        DenseVector::as_slice(self.v[i].as_ref().unwrap().inner()).len()
    }
    fn settle(&mut self, i: usize) {
        if let Some(b) = self.at[i].take() {
            let n = self.buf[b].len;
            self.buf[b].known = Known::Is(self.m[i][..n].to_vec());
        }
    }
    fn lose(&mut self, i: usize) {
        if let Some(b) = self.at[i].take() {
            self.buf[b].known = Known::Unknown;
        }
    }
    fn retarget(&mut self) {
        for i in 0..2 {
            if let Some(b) = self.at[i] {
                self.buf[b].known = Known::Follows(i);
            }
        }
    }
    /// The vector is about to be replaced by a new one.
    pub fn before_replace(&mut self, i: usize) {
        self.settle(i)
    }
    /// An in-place operation on vector i that needs room for `need` coefficients.
    pub fn before_inplace(&mut self, i: usize, need: usize) {
        if need > self.len(i) {
            self.lose(i)
        }
    }
    pub fn check(&self, what: &str) -> Result<(), String> {
        for i in 0..2 {
            let n = if i == 0 { "vector" } else { "other operand" };
            let v = self.v[i].as_ref().unwrap();
            agree(&format!("{} {}", n, what), &coefs(&v.canon(self.k)), &self.m[i])?;
            // Storage does not show in comparisons.
            let o = V::put(SimpleDenseVector::from(DenseVector::as_slice(v.inner()).to_vec()));
            if *v != o || o != *v {
                return Err(format!("{} {}: differs from an owning vector with the same coefficients", n, what));
            }
        }
        Ok(())
    }
    /// Ordinary vector operations on the pair.
    pub fn step(&mut self, op: &Op<S>) -> Result<(), String> {
        use Op::*;
        let top = |l: &Vec<(usize, S)>| l.iter().map(|x| x.0 + 1).max().unwrap_or(0);
        let wlen = self.len(1);
        let mut exchanged = false;
        match op {
            New | FromKey(_) | FromKeyScalar(..) | FromIterator(_) | ToOwned | Uminus | Add | Sub | AddSelf | SubSelf | LMul(_) | RMul(_) | LDiv(_) | RDiv(_) | SwapOwned => self.before_replace(0),
            Clear | UminusInplace | LMulInplace(_) | RMulInplace(_) | LDivInplace(_) | RDivInplace(_) | Erase(_) | Write(..) => {}
            InsertSingle(i, _) | KeyAddMul(i, _) | KeySubMul(i, _) | KeyAddDiv(i, _) | KeySubDiv(i, _) => self.before_inplace(0, i + 1),
            Insert(l) => self.before_inplace(0, top(l)),
            AddInplace | AddInplaceOwned | SubInplace | SubInplaceOwned | AddLMul(_) | AddRMul(_) | SubLMul(_) | SubRMul(_) | AddLDiv(_) | AddRDiv(_) | SubLDiv(_)
            | SubRDiv(_) => self.before_inplace(0, wlen),
            Swap | Flip => exchanged = true,
        }
        let copy = V::put(self.v[0].as_ref().unwrap().inner().clone());
        let own = Vector::to_owned(self.v[0].as_ref().unwrap());
        let wcopy = V::put(self.v[1].as_ref().unwrap().inner().clone());
        let before = [self.m[0].clone(), self.m[1].clone()];
        let (a, b) = self.v.split_at_mut(1);
        let (u, w) = (a[0].as_mut().unwrap(), b[0].as_mut().unwrap());
        {
            let [x, y] = &mut self.o;
            let (x, y) = (x.as_mut().unwrap(), y.as_mut().unwrap());
            if let Write(i, s) = op {
                // The vector on borrowed storage may hold more zeros.
                if u.get_mut(&B::k(*i)).is_some() {
                    match x.get_mut(&B::k(*i)) {
                        Some(p) => *p = s.clone(),
                        None => x.insert_single(&B::k(*i), s.clone()),
                    }
                }
            } else {
                apply(op, x, y);
            }
        }
        apply(op, u, w);
        self.note();
        if exchanged {
            self.at.swap(0, 1);
            self.retarget();
        }
        self.check("after the operation")?;
        // Copies made before are independent.
        agree("a copy made before", &coefs(&copy.canon(self.k)), &before[0])?;
        agree("an owned copy made before", &coefs(&own.canon(self.k)), &before[0])?;
        agree("a copy of the other operand made before", &coefs(&wcopy.canon(self.k)), &before[1])?;
        let mut copies = [copy, own, wcopy];
        for c in copies.iter_mut() {
            c.scalar_lmultiply_inplace(S::int(3));
            c.insert_single(&B::k(0), S::int(2));
            c.clear();
        }
        step(12);
        self.check("after changing copies")
    }
    /// Drop the vectors and look at the buffers.
    pub fn finish(mut self) -> Result<(), String> {
        let m = [self.m[0].clone(), self.m[1].clone()];
        self.v = [None, None];
        self.o = [None, None];
        let mut r = Ok(());
        for b in &self.buf {
            let data = unsafe { std::slice::from_raw_parts(b.ptr, b.len) };
            let want = match &b.known {
                Known::Is(c) => c.clone(),
                Known::Follows(i) => m[*i][..b.len].to_vec(),
                Known::Unknown => continue,
            };
            if data.iter().zip(&want).any(|(x, y)| x != y) {
                r = Err(format!("{} holds {:?} instead of {:?}", b.what, data, want));
            }
        }
        r
    }
}
impl<B: Keys + OrderedBasis, S: Sc, V: Around<B, S>> Drop for Views<B, S, V> {
    fn drop(&mut self) {
        self.v = [None, None];
        for b in &self.buf {
            unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(b.ptr, b.len))) };
        }
    }
}

/// All pairs of kinds and sizes.
pub fn starts<S: Sc>(sizes: &[usize]) -> Vec<[(Kind, Vec<S>); 2]> {
    let mut v = vec![];
    for k in KINDS {
        for l in KINDS {
            for &a in sizes {
                for &b in sizes {
                    v.push([(k, crate::tens::nths(a, 3)), (l, crate::tens::nths(b, 40))]);
                }
            }
        }
    }
    v
}
/// Every program of every length up to `depth` (the buffers are looked at when the vectors are gone).
pub fn programs<B: Keys + OrderedBasis, S: Sc, V: Around<B, S>>(label: &str, k: usize, starts: &[[(Kind, Vec<S>); 2]], ops: &[Op<S>], depth: usize) {
    for s in starts {
        for d in 0..=depth {
            indices(ops.len(), d, &mut |ix| {
                state(&(label, s[0].0, s[1].0, s[0].1.len(), s[1].1.len(), ix));
                case(
                    || format!("{}, {}: from {:?} do {:?}", label, V::what(), s, ix.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                    || {
                        let mut v = Views::<B, S, V>::new(k, s);
                        v.check("at the start")?;
                        for (n, &i) in ix.iter().enumerate() {
                            v.step(&ops[i]).map_err(|e| format!("step {}: {}", n + 1, e))?;
                        }
                        outcome(&(0..2).map(|i| v.m[i].iter().map(|s| s.enc()).collect::<Vec<u64>>()).collect::<Vec<_>>());
                        step(ix.len() as u64);
                        v.finish()
                    },
                );
            });
        }
    }
}
pub fn all_ops<S: Sc>(keys: &[usize]) -> Vec<Op<S>> {
    let (s, r) = ([S::int(0), S::int(1), S::int(5)], [S::rat(1), S::rat(2)]);
    let mut v = ops_basic(keys, &s, &r);
    v.extend(ops_fused(&s[2..], &r[1..]));
    v.extend(ops_derived(&s[2..], &r[1..]));
    v.extend(ops_key(keys, &s[2..], &r[1..]));
    v
}
pub fn core_ops<S: Sc>() -> Vec<Op<S>> {
    use Op::*;
    let (s, r) = (S::int(5), S::rat(2));
    vec![
        Clear, UminusInplace, LMulInplace(s.clone()), RMulInplace(s.clone()), LDivInplace(r.clone()), RDivInplace(r.clone()), Erase(0), Erase(2), Write(1, s.clone()),
        InsertSingle(0, s.clone()), InsertSingle(4, s.clone()), Insert(vec![(1, s.clone()), (2, s.clone())]), AddInplace, SubInplace, AddLMul(s.clone()), SubRDiv(r.clone()),
        KeyAddMul(1, s.clone()), KeySubDiv(3, r.clone()), Swap, Flip, ToOwned, Add, Uminus, SwapOwned,
    ]
}
