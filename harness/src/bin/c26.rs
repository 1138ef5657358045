//! C26: size, slices, access by key and resizing of dense storage agree.
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::implementation::SimpleDenseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector};
use std::ops::{Bound, DerefMut};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

#[derive(Clone, Debug)]
enum Do {
    FromDimension(usize),
    FromVec(usize),
    Resize(usize),
    /// One coefficient through the whole slice.
    Write(usize),
    /// A part of the slice, if it exists.
    WritePart(usize, usize),
    /// One coefficient through `get_mut_slice`.
    WriteAt(usize),
    /// Everything through the slice.
    Fill,
    WriteKey(usize),
    Insert(usize),
    Erase(usize),
    Clear,
    ToOwned,
    Clone,
    Swap,
    Flip,
    Add,
    Sub,
    Neg,
    Scale,
}
use Do::*;

/// The vectors a program runs on, one way or another around a dense vector.
trait Holder<B: Keys + OrderedBasis, S: Sc>: Vector<'static, BasisType = B, KeyType = B::KeyType, ScalarType = S, RationalType = S::R> {
    const WHAT: &'static str;
    fn wrap(v: Dense<B, S>) -> Self;
    fn inner(&self) -> &Dense<B, S>;
    fn inner_mut(&mut self) -> &mut Dense<B, S>;
}
impl<B: Keys + OrderedBasis, S: Sc> Holder<B, S> for Dense<B, S> {
    const WHAT: &'static str = "dense vector";
    fn wrap(v: Dense<B, S>) -> Self {
        v
    }
    fn inner(&self) -> &Dense<B, S> {
        self
    }
    fn inner_mut(&mut self) -> &mut Dense<B, S> {
        self
    }
}
impl<const N: u32, S: Sc> Holder<TensorBasis<N>, S> for DenseTensor<'static, S, N> {
    const WHAT: &'static str = "dense tensor";
    fn wrap(v: Dense<TensorBasis<N>, S>) -> Self {
        DenseTensor::from(v)
    }
    fn inner(&self) -> &Dense<TensorBasis<N>, S> {
        self
    }
    fn inner_mut(&mut self) -> &mut Dense<TensorBasis<N>, S> {
        self.deref_mut()
    }
}

/// Everything there is to see of a vector whose coefficients should be `m`.
fn look<B: Keys + OrderedBasis, S: Sc>(what: &str, v: &mut Dense<B, S>, m: &[S], extra: usize, last: bool) -> Result<(), String> {
    let n = m.len();
    step(4);
    if v.size() != n {
        return Err(format!("{}: size {} instead of {}", what, v.size(), n));
    }
    let whole = |how: &str, s: &[S]| if s == m { Ok(()) } else { Err(format!("{}: the {} is {:?} instead of {:?}", what, how, s, m)) };
    whole("slice", DenseVector::as_slice(v))?;
    whole("full range", v.get_slice(..).ok_or("no full range")?)?;
    for i in 0..n + extra {
        let (k, want) = (B::k(i), m.get(i));
        let one = |how: &str, got: Option<&S>| if got == want { Ok(()) } else { Err(format!("{}: coefficient {} {} is {:?} instead of {:?}", what, i, how, got, want)) };
        one("by key", v.get(&k))?;
        one("by index", v.get_slice(i))?;
        step(2);
        // Mutable access ends a read-only view, so only when nothing else follows.
        if last {
            one("by mutable key", v.get_mut(&k).as_deref())?;
            one("by mutable index", v.get_mut_slice(i).as_deref())?;
            step(2);
        }
    }
    if last {
        whole("mutable slice", DenseVector::as_mut_slice(v))?;
        whole("full mutable range", v.get_mut_slice(..).ok_or("no full range")?)?;
        step(2);
    }
    Ok(())
}
/// All ranges, of every form, in and out of bounds.
fn ranges<B: Keys + OrderedBasis, S: Sc>(v: &mut Dense<B, S>, m: &[S], extra: usize) -> Result<(), String> {
    let n = m.len() + extra;
    macro_rules! range {
        ($r:expr) => {{
            let want = m.get($r);
            step(2);
            if v.get_slice($r) != want {
                return Err(format!("get_slice({:?}) is {:?} instead of {:?}", $r, v.get_slice($r), want));
            }
            if v.get_mut_slice($r).as_deref() != want {
                return Err(format!("get_mut_slice({:?}) is not {:?}", $r, want));
            }
        }};
    }
    for a in 0..=n {
        range!(a..);
        range!(..a);
        range!(..=a);
        for b in 0..=n {
            range!(a..b);
            range!(a..=b);
            range!((Bound::Excluded(a), Bound::Included(b)));
        }
    }
    range!(usize::MAX..);
    range!(..usize::MAX);
    range!(0..usize::MAX);
    Ok(())
}
struct Run<V, S> {
    v: [V; 2],
    m: [Vec<S>; 2],
    fresh: usize,
}
impl<V, S: Sc> Run<V, S> {
    fn new_value(&mut self) -> S {
        self.fresh += 1;
        S::nth(self.fresh)
    }
    fn perform<B: Keys + OrderedBasis>(&mut self, op: &Do, last: bool) -> Result<(), String>
    where
        V: Holder<B, S>,
    {
        let n = self.m[0].len();
        let mut want = self.m[0].clone();
        // Whether the resulting size is left to the vector (at least what is needed).
        let mut grows = false;
        match op {
            FromDimension(k) => {
                self.v[0] = V::wrap(SimpleDenseVector::from_dimension(*k));
                want = vec![S::z(); *k];
            }
            FromVec(k) => {
                want = (0..*k).map(|_| self.new_value()).collect();
                self.v[0] = V::wrap(SimpleDenseVector::from(want.clone()));
            }
            Resize(k) => {
                ResizeableDenseVector::resize(self.v[0].inner_mut(), *k);
                want.resize(*k, S::z());
            }
            Write(i) => {
                let x = self.new_value();
                if *i < n {
                    DenseVector::as_mut_slice(self.v[0].inner_mut())[*i] = x.clone();
                    want[*i] = x;
                }
            }
            WriteAt(i) => {
                let x = self.new_value();
                if let Some(p) = self.v[0].inner_mut().get_mut_slice(*i) {
                    *p = x.clone();
                }
                if *i < n {
                    want[*i] = x;
                }
            }
            WritePart(a, b) => {
                let xs: Vec<S> = (*a..*b).map(|_| self.new_value()).collect();
                let part = self.v[0].inner_mut().get_mut_slice(*a..*b);
                if part.is_some() != (*b <= n) {
                    return Err(format!("get_mut_slice({}..{}) of {} coefficients: {}", a, b, n, part.is_some()));
                }
                if let Some(p) = part {
                    p.clone_from_slice(&xs);
                    want[*a..*b].clone_from_slice(&xs);
                }
            }
            Fill => {
                let base = self.fresh;
                for (i, p) in DenseVector::as_mut_slice(self.v[0].inner_mut()).iter_mut().enumerate() {
                    *p = S::nth(base + i + 1);
                }
                self.fresh += n;
                want = (0..n).map(|i| S::nth(base + i + 1)).collect();
            }
            WriteKey(i) => {
                let x = self.new_value();
                if let Some(p) = self.v[0].get_mut(B::k(*i)) {
                    *p = x.clone();
                }
                if *i < n {
                    want[*i] = x;
                }
            }
            Insert(i) => {
                let x = self.new_value();
                self.v[0].insert_single(&B::k(*i), x.clone());
                if *i >= n {
                    want.resize(*i + 1, S::z());
                    grows = true;
                }
                want[*i] = x;
            }
            Erase(i) => {
                self.v[0].erase(B::k(*i));
                if *i < n {
                    want[*i] = S::z();
                }
            }
            Clear => {
                self.v[0].clear();
                want.clear();
                grows = true;
            }
            ToOwned => self.v[0] = V::to_owned(&self.v[0]),
            Clone => {
                let mut z = std::clone::Clone::clone(self.v[1].inner());
                z.clone_from(self.v[0].inner());
                look::<B, S>("vector overwritten with a clone", &mut z, &self.m[0], 3, last)?;
                self.v[0] = V::wrap(std::clone::Clone::clone(self.v[0].inner()));
            }
            Swap => {
                let (a, b) = self.v.split_at_mut(1);
                a[0].swap(&mut b[0]);
                self.m.swap(0, 1);
                want = self.m[0].clone();
            }
            Flip => {
                self.v.swap(0, 1);
                self.m.swap(0, 1);
                want = self.m[0].clone();
            }
            Add | Sub => {
                let (a, b) = self.v.split_at_mut(1);
                let k = self.m[1].len();
                want.resize(n.max(k), S::z());
                grows = k > n;
                for i in 0..k {
                    want[i] = if matches!(op, Add) { want[i].madd(&self.m[1][i]) } else { want[i].msub(&self.m[1][i]) };
                }
                if matches!(op, Add) {
                    a[0].add_inplace(&b[0]);
                } else {
                    a[0].sub_inplace(&b[0]);
                }
            }
            Neg => {
                self.v[0].uminus_inplace();
                want.iter_mut().for_each(|x| *x = x.mneg());
            }
            Scale => {
                self.v[0].scalar_lmultiply_inplace(S::int(3));
                want.iter_mut().for_each(|x| *x = x.mmul(&S::int(3)));
            }
        }
        step(1);
        if grows {
            let got = self.v[0].inner().size();
            if got < want.len() {
                return Err(format!("after {:?} the size is {}, too small", op, got));
            }
            if matches!(op, Add | Sub | Insert(_)) && got < n {
                return Err(format!("after {:?} the size went down from {} to {}", op, n, got));
            }
            want.resize(got, S::z());
        }
        // Whether zeros at the end stay is up to the vector.
        if matches!(op, Erase(_) | Neg | Scale) {
            let got = self.v[0].inner().size();
            if got < want.len() && want[got..].iter().all(|x| *x == S::z()) {
                want.truncate(got);
            }
        }
        self.m[0] = want;
        self.see("after ", op, last)
    }
    fn see<B: Keys + OrderedBasis>(&mut self, when: &str, op: &Do, last: bool) -> Result<(), String>
    where
        V: Holder<B, S>,
    {
        for i in 0..2 {
            let what = format!("{} {}{:?}", ["vector", "other vector"][i], when, op);
            look::<B, S>(&what, self.v[i].inner_mut(), &self.m[i], 3, last)?;
        }
        Ok(())
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Start {
    Own(usize),
    #[cfg(feature = "hooks")]
    View(usize),
    #[cfg(feature = "hooks")]
    ViewMut(usize),
}
fn begin<B: Keys + OrderedBasis, S: Sc>(s: Start, from: usize) -> (Dense<B, S>, Vec<S>, Option<(*mut S, usize)>) {
    let c = |n: usize| (0..n).map(|i| S::nth(from + i)).collect::<Vec<S>>();
    match s {
        Start::Own(n) => (SimpleDenseVector::from(c(n)), c(n), None),
        #[cfg(feature = "hooks")]
        Start::View(n) => {
            let p = Box::into_raw(c(n).into_boxed_slice()) as *mut S;
            (SimpleDenseVector::vp_from_slice(unsafe { std::slice::from_raw_parts(p, n) }), c(n), Some((p, n)))
        }
        #[cfg(feature = "hooks")]
        Start::ViewMut(n) => {
            let p = Box::into_raw(c(n).into_boxed_slice()) as *mut S;
            (SimpleDenseVector::vp_from_mut_slice(unsafe { std::slice::from_raw_parts_mut(p, n) }), c(n), Some((p, n)))
        }
    }
}
/// All programs up to a length, from every start.
fn programs<B: Keys + OrderedBasis, S: Sc, V: Holder<B, S>>(starts: &[[Start; 2]], ops: &[Do], depth: usize) {
    for s in starts {
        indices(ops.len(), depth, &mut |ix| {
            state(&(format!("{:?}", s), V::WHAT, B::NAME, ix));
            case(
                || format!("{} over {}, starting with {:?}: {:?}", V::WHAT, B::NAME, s, ix.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                || {
                    let (a, ma, pa) = begin::<B, S>(s[0], 100);
                    let (b, mb, pb) = begin::<B, S>(s[1], 200);
                    let kept: Vec<(*mut S, usize, Vec<S>, bool)> = [(pa, &ma, s[0]), (pb, &mb, s[1])]
                        .into_iter()
                        .filter_map(|(p, m, s)| {
                            #[cfg(feature = "hooks")]
                            let ro = matches!(s, Start::View(_));
                            #[cfg(not(feature = "hooks"))]
                            let ro = matches!(s, Start::Own(usize::MAX));
                            p.map(|(p, n)| (p, n, m.clone(), ro))
                        })
                        .collect();
                    let r = (|| {
                        let mut r = Run { v: [V::wrap(a), V::wrap(b)], m: [ma, mb], fresh: 300 };
                        for (n, &i) in ix.iter().enumerate() {
                            r.perform::<B>(&ops[i], n + 1 == ix.len())?;
                            outcome(&r.m.iter().map(|m| m.len()).collect::<Vec<_>>());
                        }
                        Ok(())
                    })();
                    for (p, n, old, ro) in kept {
                        let b = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) };
                        if ro && b[..] != old[..] && r.is_ok() {
                            return Err(format!("the read-only buffer changed to {:?}", b));
                        }
                    }
                    r
                },
            );
        });
    }
}
fn alphabet(sizes: &[usize], keys: &[usize]) -> Vec<Do> {
    let mut v = vec![Fill, Clear, ToOwned, Clone, Swap, Flip, Add, Sub, Neg, Scale];
    for &n in sizes {
        v.extend([FromDimension(n), Resize(n), FromVec(n)]);
    }
    for &k in keys {
        v.extend([Write(k), WriteAt(k), WriteKey(k), Insert(k), Erase(k)]);
        for &l in keys {
            if k <= l {
                v.push(WritePart(k, l));
            }
        }
    }
    v
}
fn few(sizes: &[usize], keys: &[usize]) -> Vec<Do> {
    let mut v = vec![Fill, Clear, ToOwned, Swap, Add, Sub, Neg];
    v.extend(sizes.iter().map(|&n| Resize(n)));
    v.extend(keys.iter().map(|&k| Insert(k)));
    v.push(Write(keys[0]));
    v.push(Erase(keys[keys.len() - 1]));
    v.push(WritePart(keys[0], keys[keys.len() - 1]));
    v
}
fn own(a: &[usize]) -> Vec<[Start; 2]> {
    a.iter().flat_map(|&x| a.iter().map(move |&y| [Start::Own(x), Start::Own(y)])).collect()
}
#[cfg(feature = "hooks")]
fn views(a: &[usize]) -> Vec<[Start; 2]> {
    let all: Vec<Start> = a.iter().flat_map(|&n| [Start::Own(n), Start::View(n), Start::ViewMut(n)]).collect();
    all.iter().flat_map(|&x| all.iter().map(move |&y| [x, y])).filter(|s| !matches!(s, [Start::Own(_), Start::Own(_)])).collect()
}
fn full<B: Keys + OrderedBasis, S: Sc, V: Holder<B, S>>(t: Tier) {
    let ops = alphabet(&[0, 1, 3, 4, 6], &[0, 2, 3, 5]);
    programs::<B, S, V>(&own(&[0, 3, 4]), &ops, 2);
    programs::<B, S, V>(&own(t.pick(&[3], &[0, 3, 7])), &ops, 3);
    programs::<B, S, V>(&own(&[0, 4]), &few(&[0, 2, 5], &[0, 4]), t.pick(4, 5));
}
#[cfg(feature = "hooks")]
fn borrowed<B: Keys + OrderedBasis, S: Sc, V: Holder<B, S>>(t: Tier) {
    let ops = alphabet(&[0, 1, 3, 4, 6], &[0, 2, 3, 5]);
    programs::<B, S, V>(&views(&[0, 1, 4]), &ops, 2);
    programs::<B, S, V>(&views(&[3]), &few(&[0, 2, 5], &[0, 4]), t.pick(3, 4));
}
/// At least these coefficients, and zeros after them.
fn grown<B: Keys + OrderedBasis, S: Sc>(what: &str, v: &mut Dense<B, S>, mut w: Vec<S>) -> Result<(), String> {
    step(1);
    if v.size() < w.len() {
        return Err(format!("{}: size {}, too small for {}", what, v.size(), w.len()));
    }
    w.resize(v.size(), S::z());
    look::<B, S>(what, v, &w, 2, true)
}
/// Every size resized to every size, with all ways of reading.
fn sizes<B: Keys + OrderedBasis, S: Sc>(max: usize, extra: &[usize]) {
    let ns: Vec<usize> = (0..=max).chain(extra.iter().copied()).collect();
    for &n in &ns {
        for &to in &ns {
            state(&(B::NAME, n, to));
            case(|| format!("{}: {} coefficients resized to {} and back", B::NAME, n, to), || {
                for way in 0..3 {
                    let mut m: Vec<S> = (0..n).map(|i| S::nth(5 + i)).collect();
                    let mut v: Dense<B, S> = if way == 0 { SimpleDenseVector::from(m.clone()) } else { SimpleDenseVector::from_dimension(n) };
                    if way > 0 {
                        DenseVector::as_mut_slice(&mut v).clone_from_slice(&m);
                    }
                    if way == 2 {
                        v = Vector::to_owned(&v);
                    }
                    for k in [to, n, to.max(n) + 1] {
                        ResizeableDenseVector::resize(&mut v, k);
                        m.resize(k, S::z());
                        step(1);
                        look::<B, S>(&format!("resized to {}", k), &mut v, &m, 2, true)?;
                    }
                    outcome(&m.len());
                }
                // Room gained by inserting and adding.
                let m: Vec<S> = (0..n).map(|i| S::nth(5 + i)).collect();
                let mut v: Dense<B, S> = SimpleDenseVector::from(m.clone());
                v.insert_single(&B::k(to), S::nth(3));
                let mut w = m.clone();
                w.resize(n.max(to + 1), S::z());
                w[to] = S::nth(3);
                grown::<B, S>("inserted into", &mut v, w)?;
                for sub in [false, true] {
                    let mut v: Dense<B, S> = SimpleDenseVector::from(m.clone());
                    let x: Vec<S> = (0..to).map(|i| S::nth(90 + i)).collect();
                    let u: Dense<B, S> = SimpleDenseVector::from(x.clone());
                    let mut w = m.clone();
                    w.resize(n.max(to), S::z());
                    for i in 0..to {
                        w[i] = if sub { w[i].msub(&x[i]) } else { w[i].madd(&x[i]) };
                    }
                    if sub {
                        v.sub_inplace(&u);
                    } else {
                        v.add_inplace(&u);
                    }
                    grown::<B, S>("added to", &mut v, w)?;
                }
                Ok(())
            });
        }
        if n < 30 {
            case(|| format!("{}: all ranges of {} coefficients", B::NAME, n), || {
                let m: Vec<S> = (0..n).map(|i| S::nth(5 + i)).collect();
                ranges::<B, S>(&mut SimpleDenseVector::from(m.clone()), &m, 3)
            });
        }
        alive();
    }
}

fn main() {
    let b = "all programs of 2 operations from all pairs of sizes, of 3 from fewer, of 4 (thorough 5) of a reduced alphabet; size, slices, ranges and access by key looked at after every operation";
    #[allow(unused_mut)]
    let mut v = vec![
        group("integer-keys", b, full::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>),
        group("integer-keys-blocks", b, full::<IntBasis<3>, Big, Dense<IntBasis<3>, Big>>),
        group("width-2", b, full::<TensorBasis<2>, Big, Dense<TensorBasis<2>, Big>>),
        group("dense-tensor-2", b, full::<TensorBasis<2>, Big, DenseTensor<'static, Big, 2>>),
        group("dense-tensor-3-f64", b, full::<TensorBasis<3>, f64, DenseTensor<'static, f64, 3>>),
        group("sizes-integer-keys", "all pairs of sizes up to 40 and some up to 4097, all ranges of the small ones", |t| sizes::<IntBasis<1>, Big>(t.pick(40, 130), &[63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4097])),
        group("sizes-width-2", "all pairs of sizes up to 32 and some up to 513", |t| sizes::<TensorBasis<2>, Big>(t.pick(32, 70), &[63, 64, 127, 128, 511, 513])),
        group("sizes-width-5-f32", "all pairs of sizes up to 32 and some up to 200", |t| sizes::<TensorBasis<5>, f32>(t.pick(32, 70), &[155, 156, 157, 200])),
    ];
    #[cfg(feature = "hooks")]
    {
        let b = "as integer-keys, from all pairs of storage kinds (own, borrowed read-only, borrowed mutable) and sizes";
        v.push(group("borrowed-integer-keys", b, borrowed::<IntBasis<1>, Big, Dense<IntBasis<1>, Big>>));
        v.push(group("borrowed-blocks", b, borrowed::<IntBasis<3>, Big, Dense<IntBasis<3>, Big>>));
        v.push(group("borrowed-dense-tensor", b, borrowed::<TensorBasis<2>, Big, DenseTensor<'static, Big, 2>>));
    }
    vp_harness::ctx::main(v);
}
