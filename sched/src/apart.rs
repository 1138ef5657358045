//! C27: the result of an operation depends on its operands only, whatever else is going on: other threads
//! under every schedule, operations further up the same call, and operations before.
//!
//! A few programs use every part of the library. What a program gives when it is alone in a fresh process is
//! what it has to give beside another program in another thread, from within another program, and after others.
//! Coefficients, keys, iterators and functions of the programs are points where the scheduler may switch and
//! where another program may be called.
#[path = "../../harness/src/ctx.rs"]
mod ctx;
mod calls;
mod exec;

use ctx::{case, group, state, step, Tier};
use exec::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::{Basis, BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use rustyalgebra::free_tensor::{DenseTensor, FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::lie::vp_hooks::{get_hall_set, DegreeRangeMap, HallKey, HallSet};
use rustyalgebra::vector::implementation::{SimpleDenseVector, SimpleSparseVector};
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector, VectorKeyExt, VectorWithDegree};
use std::borrow::Borrow;
use std::fmt::{self, Display};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

// ---------------------------------------------------------------- points
/// What happens at a point: nothing, a scheduling point, or the call of a program at the n-th point.
static MODE: AtomicUsize = AtomicUsize::new(0);
const NOTHING: usize = 0;
const SWITCH: usize = 1;
const CALL: usize = 2;
/// From here on numbers stand for single calls.
const CALL_BASE: usize = 1000;
static SEEN: AtomicUsize = AtomicUsize::new(0);
static WHEN: AtomicUsize = AtomicUsize::new(0);
static INNER: AtomicUsize = AtomicUsize::new(0);
static INNER_GAVE: Mutex<Vec<Vec<String>>> = Mutex::new(vec![]);
fn point() {
    match MODE.load(Relaxed) {
        SWITCH => {
            static A: shuttle::sync::atomic::AtomicUsize = shuttle::sync::atomic::AtomicUsize::new(0);
            A.load(std::sync::atomic::Ordering::SeqCst);
        }
        CALL => {
            if SEEN.fetch_add(1, Relaxed) == WHEN.load(Relaxed) {
                MODE.store(NOTHING, Relaxed);
                let i = INNER.load(Relaxed);
                let r = if i < CALL_BASE { PROGRAMS[i].1() } else { vec![(CALLS.get().unwrap()[i - CALL_BASE].run)()] };
                INNER_GAVE.lock().unwrap().push(r);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- coefficients and keys of a user
const P: u64 = 1_000_003;
/// Integers modulo a prime; every operation is a point.
#[derive(Debug)]
struct Y(u64);
fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
impl Clone for Y {
    fn clone(&self) -> Y {
        point();
        Y(self.0)
    }
}
impl PartialEq for Y {
    fn eq(&self, o: &Y) -> bool {
        point();
        self.0 == o.0
    }
}
impl Display for Y {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point();
        write!(f, "{}", self.0)
    }
}
impl CoefficientBase for Y {}
impl Commutative for Y {}
impl FromDegreeType for Y {
    fn from_degree(d: &u32) -> Y {
        Y(*d as u64 % P)
    }
}
impl From<i8> for Y {
    fn from(x: i8) -> Y {
        Y((x as i64 + P as i64) as u64 % P)
    }
}
impl From<i16> for Y {
    fn from(x: i16) -> Y {
        Y((x as i64 + P as i64) as u64 % P)
    }
}
impl CoefficientField for Y {
    type RationalType = Y;
    const ZERO: Y = Y(0);
    const ONE: Y = Y(1);
    const MONE: Y = Y(P - 1);
    fn uminus(&self) -> Y {
        point();
        Y((P - self.0) % P)
    }
    fn inv(arg: impl Borrow<Y>) -> Y {
        point();
        Y(pow(arg.borrow().0, P - 2))
    }
    fn add(&self, o: &Y) -> Y {
        point();
        Y((self.0 + o.0) % P)
    }
    fn sub(&self, o: &Y) -> Y {
        point();
        Y((self.0 + P - o.0) % P)
    }
    fn mul(&self, o: &Y) -> Y {
        point();
        Y(self.0 * o.0 % P)
    }
    fn div(&self, o: &Y) -> Y {
        point();
        Y(self.0 * pow(o.0, P - 2) % P)
    }
    fn add_inplace(&mut self, o: &Y) -> &mut Y {
        point();
        self.0 = (self.0 + o.0) % P;
        self
    }
    fn sub_inplace(&mut self, o: &Y) -> &mut Y {
        point();
        self.0 = (self.0 + P - o.0) % P;
        self
    }
    fn mul_inplace(&mut self, o: &Y) -> &mut Y {
        point();
        self.0 = self.0 * o.0 % P;
        self
    }
    fn div_inplace(&mut self, o: &Y) -> &mut Y {
        point();
        self.0 = self.0 * pow(o.0, P - 2) % P;
        self
    }
}
/// Keys of a sparse vector; hashing and comparing are points.
#[derive(Debug)]
struct K(u32);
impl Clone for K {
    fn clone(&self) -> K {
        point();
        K(self.0)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl Display for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point();
        self.0.hash(h)
    }
}
struct KB;
impl Basis for KB {
    type KeyType = K;
}
/// Terms one by one, with a point before each.
fn terms<T: 'static>(v: Vec<T>) -> impl Iterator<Item = T> {
    v.into_iter().inspect(|_| point())
}

type T<const N: u32> = SimpleDenseVector<'static, TensorBasis<N>, Y>;
type Sp = SimpleSparseVector<'static, KB, Y, K>;
impl FreeTensor<'static, Y, 2> for T<2> {
    const MAX_DEGREE: u32 = 2;
}
impl FreeTensor<'static, Y, 3> for T<3> {
    const MAX_DEGREE: u32 = 2;
}
fn t<const N: u32>(v: &[u64]) -> T<N> {
    T::<N>::from(v.iter().map(|x| Y(*x)).collect())
}
fn list<const N: u32>(v: &T<N>) -> String {
    format!("{:?}", DenseVector::as_slice(v))
}

// ---------------------------------------------------------------- programs
fn words<const N: u32>(ws: &[&[u32]]) -> Vec<String> {
    let mut out = vec![];
    let b = |k: &TensorKey<N>| TensorBasis::<N>::key_to_index(k);
    for w in ws {
        let k = TensorKey::<N>::from_letters(w);
        point();
        out.push(format!("{} {} {:?}", k, b(&k), k.to_letters()));
        point();
        let mut l = TensorKey::<N>::new();
        for x in w.iter().rev() {
            l.push_front(*x);
            point();
        }
        out.push(format!("{} {:?} {}", k == l, TensorBasis::<N>::compare(&k, &TensorKey::from_letter(1)), b(&TensorKey::<N>::from_letter(1).concatenate(&k))));
        point();
        out.push(format!("{} {}", TensorBasis::<N>::degree(&k), TensorBasis::<N>::vector_dimension_for_key(&k)));
        point();
    }
    let mut it = TensorBasis::<N>::iter_keys();
    for i in [0usize, 1, 2, 3, 7, 30] {
        out.push(format!("{} {}", TensorBasis::<N>::index_to_key(i), <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i)));
        point();
        out.push(format!("{:?} {}", it.next().map(|k| k.to_string()), <TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(i as u32 % 5)));
        point();
    }
    out
}
fn words2() -> Vec<String> {
    words::<2>(&[&[2, 1], &[1, 2, 2], &[]])
}
fn words3() -> Vec<String> {
    words::<3>(&[&[2, 1], &[1, 2, 2], &[3, 3]])
}
fn words1000() -> Vec<String> {
    words::<1000>(&[&[2, 1], &[1000, 999, 1], &[256]])
}
fn product<const N: u32>(a: &[u64], b: &[u64]) -> Vec<String> {
    let (x, y) = (t::<N>(a), t::<N>(b));
    let mut out = vec![list(&x.multiply(&y, Some(2)))];
    let mut z = t::<N>(&[5, 6]);
    z.add_mul(&y, &x, Some(1));
    out.push(list(&z));
    z.multiply_and_add_into_impl(
        &x,
        &y,
        |v| {
            point();
            v.mul(&Y(3))
        },
        Some(1),
    );
    out.push(list(&z));
    z.multiply_inplace(&x, Some(2));
    out.push(list(&z));
    out.push(list(&t::<N>(&[0, 1, 0, 2, 3]).multiply(&t(&[0, 2]), Some(3))));
    out
}
fn product2() -> Vec<String> {
    product::<2>(&[1, 2, 3], &[4, 5, 6])
}
fn product3() -> Vec<String> {
    product::<3>(&[1, 2, 3], &[4, 5])
}
fn scaled() -> Vec<String> {
    let (x, y) = (t::<2>(&[7, 8, 9]), t::<2>(&[1, 2]));
    let mut z = x.clone();
    z.mul_scal_lprod(&y, Y(2), Some(1));
    let mut out = vec![list(&z)];
    z.mul_rat_rdiv(&y, Y(2), Some(1));
    out.push(list(&z));
    z.sub_mul(&x, &y, Some(1));
    out.push(list(&z));
    out.push(list(&x.commutator(&y, Some(2))));
    out
}
fn series<const N: u32>(c: &[u64]) -> Vec<String>
where
    T<N>: FreeTensor<'static, Y, N>,
{
    let x = t::<N>(c);
    let e = x.exp();
    let mut out = vec![list(&e)];
    let mut f = t::<N>(&[1, 1]);
    f.fmexp(&x);
    out.push(list(&f));
    out.push(list(&t::<N>(&[1, c[1]]).log()));
    out
}
fn series2() -> Vec<String> {
    series::<2>(&[0, 2, 3])
}
fn series3() -> Vec<String> {
    series::<3>(&[0, 5])
}
fn dense() -> Vec<String> {
    let k = |w: &[u32]| TensorKey::<2>::from_letters(w);
    let mut x = T::<2>::from_iterator(terms(vec![(k(&[2]), Y(3)), (k(&[]), Y(4)), (k(&[2]), Y(5))]));
    let mut out = vec![list(&x)];
    x.insert(terms(vec![(k(&[1, 2]), Y(6)), (k(&[1]), Y(7))]));
    out.push(list(&x));
    let y = t::<2>(&[9, 8, 7, 6]);
    x.add_inplace(&y);
    x.scalar_lmultiply_inplace(Y(3));
    x.sub_inplace(&y);
    x.uminus_inplace();
    out.push(list(&x));
    x.sub_scalar_rdivide(&y, Y(2));
    x.add_scalar_multiply(&k(&[1]), Y(50));
    x.erase(k(&[2]));
    out.push(list(&x));
    out.push(format!("{} {} {}", x == y, x.degree(), x.add(&y)));
    x.resize(2);
    let mut z = T::<2>::from_key(k(&[1]));
    z.swap(&mut x);
    out.push(format!("{} {} {:?}", x, z, x.get(k(&[1]))));
    out
}
fn sparse() -> Vec<String> {
    let show = |v: &Sp| (0..6).map(|i| format!("{:?} ", v.get(K(i)))).collect::<String>();
    let mut x = Sp::from_iterator(terms(vec![(K(1), Y(3)), (K(2), Y(4)), (K(1), Y(5)), (K(3), Y(1))]));
    let mut out = vec![show(&x)];
    let y = Sp::from_iterator(terms(vec![(K(3), Y(P - 1)), (K(4), Y(2))]));
    x.add_inplace(&y);
    out.push(show(&x));
    x.insert(terms(vec![(K(5), Y(6)), (K(1), Y(7))]));
    x.scalar_lmultiply_inplace(Y(2));
    x.sub_inplace(&y);
    out.push(show(&x));
    x.sub_scalar_multiply(&K(0), Y(5));
    x.erase(K(4));
    out.push(format!("{} {}", show(&x), x == y));
    out
}
fn wrapped() -> Vec<String> {
    type D = DenseTensor<'static, Y, 2>;
    let k = |w: &[u32]| TensorKey::<2>::from_letters(w);
    let mut x = <D as Vector>::from_iterator(terms(vec![(k(&[2]), Y(3)), (k(&[]), Y(4))]));
    let y = D::from(t::<2>(&[2, 3]));
    Vector::add_inplace(&mut x, &y);
    Vector::scalar_rdivide_inplace(&mut x, Y(2));
    let mut out = vec![list(&x)];
    let z = Vector::sub(&x, &y);
    Vector::add_scalar_lmultiply(&mut x, &z, Y(4));
    out.push(format!("{} {} {}", list(&x), list(&z), x == z));
    out
}
fn float() -> Vec<String> {
    type F = SimpleDenseVector<'static, TensorBasis<3>, f64>;
    let x = F::from(vec![0.5, 1.25, 3.0]);
    point();
    let y = F::from_key_scalar(TensorKey::<3>::from_letters(&[3]), 0.1);
    point();
    let mut out = vec![format!("{}", x.add(&y))];
    point();
    let z = x.multiply(&y, Some(2));
    point();
    out.push(format!("{}", z));
    point();
    out.push(format!("{}", z.scalar_rdivide(3.0)));
    out
}
fn lie() -> Vec<String> {
    let mut out = vec![];
    let mut m = DegreeRangeMap::<2>::new(4);
    point();
    let n = DegreeRangeMap::<5>::new(4);
    point();
    m.grow(6).unwrap();
    point();
    for d in 0..4 {
        out.push(format!("{:?} {:?} {:?}", m.get(d), n.get(d), m.find_deg(d as u64 * 3)));
        point();
    }
    let h = get_hall_set::<5>(None);
    point();
    out.push(format!("{:?} {:?}", h.is_letter(5), h.is_letter(6)));
    point();
    let k = HallKey::<5>::from_letter(4);
    out.push(format!("{} {} {}", k, k.to_index(), k.size()));
    out
}
type Program = (&'static str, fn() -> Vec<String>);
const PROGRAMS: [Program; 13] = [
    ("words2", words2),
    ("words3", words3),
    ("words1000", words1000),
    ("product2", product2),
    ("product3", product3),
    ("scaled", scaled),
    ("series2", series2),
    ("series3", series3),
    ("dense", dense),
    ("sparse", sparse),
    ("wrapped", wrapped),
    ("float", float),
    ("lie", lie),
];

// ---------------------------------------------------------------- what a program gives when it is alone
static ALONE: Mutex<Vec<Vec<String>>> = Mutex::new(vec![]);
static POINTS: Mutex<Vec<usize>> = Mutex::new(vec![]);
static WHICH: Mutex<Vec<usize>> = Mutex::new(vec![]);
fn expect(i: usize, got: &[String], how: &str) {
    let a = ALONE.lock().unwrap();
    for (n, (x, y)) in a[i].iter().zip(got).enumerate() {
        assert!(x == y, "{}, program {} gives {} as its result {}, alone it gives {}", how, PROGRAMS[i].0, y, n, x);
    }
    assert!(a[i].len() == got.len());
}
fn prepare() {
    init();
    // Settle the keys of hash maps, which processes inherit.
    std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
    for i in 0..PROGRAMS.len() {
        *WHICH.lock().unwrap() = vec![i];
        fn body() {
            let i = WHICH.lock().unwrap()[0];
            SEEN.store(0, Relaxed);
            WHEN.store(usize::MAX, Relaxed);
            MODE.store(CALL, Relaxed);
            let r = PROGRAMS[i].1();
            log(SEEN.load(Relaxed) as u64);
            tell(&r.join("\n"));
        }
        let r = execute(&[], body);
        case(|| format!("program {} alone", PROGRAMS[i].0), || r.bad.clone().map_or(Ok(()), Err));
        let m = shared();
        let text = String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).to_string();
        assert!(text.len() < 60_000);
        ALONE.lock().unwrap().push(text.split('\n').map(|s| s.to_string()).collect());
        POINTS.lock().unwrap().push(r.log[0] as usize);
        step(r.log[0]);
    }
}

// ---------------------------------------------------------------- spaces
/// Programs one after the other.
fn sequences(first: usize, len: usize) {
    prepare();
    let n = PROGRAMS.len();
    let mut all: Vec<Vec<usize>> = vec![vec![first]];
    for _ in 1..len {
        all = all.iter().flat_map(|s| (0..n).map(move |i| [&s[..], &[i]].concat())).collect();
    }
    for s in all {
        *WHICH.lock().unwrap() = s.clone();
        state(&("sequence", &s));
        fn body() {
            for i in WHICH.lock().unwrap().clone() {
                expect(i, &PROGRAMS[i].1(), "after others");
            }
        }
        let names = || s.iter().map(|i| PROGRAMS[*i].0).collect::<Vec<_>>().join(", then ");
        case(|| format!("programs {}", names()), || {
            let r = execute(&[], body);
            step(s.iter().map(|i| POINTS.lock().unwrap()[*i] as u64).sum());
            r.bad.map_or(Ok(()), Err)
        });
        ctx::alive();
    }
}
/// Every program called at every point of one.
fn nested(outer: usize) {
    prepare();
    let points = POINTS.lock().unwrap()[outer];
    for inner in 0..PROGRAMS.len() {
        for p in 0..points {
            state(&("nested", outer, inner, p));
            case(|| format!("program {} called at point {} of program {}", PROGRAMS[inner].0, p, PROGRAMS[outer].0), || {
                *WHICH.lock().unwrap() = vec![outer];
                SEEN.store(0, Relaxed);
                WHEN.store(p, Relaxed);
                INNER.store(inner, Relaxed);
                fn body() {
                    let o = WHICH.lock().unwrap()[0];
                    MODE.store(CALL, Relaxed);
                    let r = PROGRAMS[o].1();
                    MODE.store(NOTHING, Relaxed);
                    let inner = INNER_GAVE.lock().unwrap().clone();
                    assert!(inner.len() == 1, "the point was not reached");
                    expect(INNER.load(Relaxed), &inner[0], "called from within another");
                    expect(o, &r, "with another called from within it");
                }
                let r = execute(&[], body);
                step(points as u64);
                r.bad.map_or(Ok(()), Err)
            });
        }
        ctx::alive();
    }
}
/// Programs beside each other, one per thread, all schedules with so many preemptions.
fn beside(which: &[usize], bound: usize, name: &'static str) {
    *WHICH.lock().unwrap() = which.to_vec();
    fn body() {
        MODE.store(SWITCH, Relaxed);
        let ws = WHICH.lock().unwrap().clone();
        let hs: Vec<_> = ws
            .iter()
            .map(|&i| {
                shuttle::thread::spawn(move || {
                    let r = PROGRAMS[i].1();
                    log(i as u64);
                    r
                })
            })
            .collect();
        for (h, i) in hs.into_iter().zip(ws) {
            expect(i, &h.join().expect("thread"), "beside another thread");
        }
    }
    all(name, body, bound);
}
fn name(i: usize) -> String {
    CALLS.get().unwrap()[i].name.clone()
}
fn check_call(i: usize, got: &str, how: &str) {
    let want = &ALONE.lock().unwrap()[i][0];
    assert!(got == want, "{}, the call \"{}\" gives {}, alone it gives {}", how, CALLS.get().unwrap()[i].name, got, want);
}
fn prepare_calls() -> usize {
    init();
    std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
    let n = CALLS.get_or_init(calls::calls).len();
    let mut alone = vec![];
    let mut points = vec![];
    for i in 0..n {
        *WHICH.lock().unwrap() = vec![i];
        fn body() {
            let i = WHICH.lock().unwrap()[0];
            SEEN.store(0, Relaxed);
            WHEN.store(usize::MAX, Relaxed);
            MODE.store(CALL, Relaxed);
            let r = (CALLS.get().unwrap()[i].run)();
            log(SEEN.load(Relaxed) as u64);
            tell(&r);
        }
        let r = execute(&[], body);
        case(|| format!("{} alone", name(i)), || r.bad.clone().map_or(Ok(()), Err));
        let m = shared();
        alone.push(vec![String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).to_string()]);
        points.push(r.log[0] as usize);
    }
    *ALONE.lock().unwrap() = alone;
    *POINTS.lock().unwrap() = points;
    n
}
const IN_TURN: usize = usize::MAX;
const IN_REVERSE: usize = usize::MAX - 1;
/// Single calls one after the other: every sequence of two, beginning with one of a part of them, and then what
/// is given.
fn call_sequences(part: usize, parts: usize, tail: &[usize]) {
    let n = prepare_calls();
    for a in (0..n).filter(|a| a % parts == part) {
        for b in 0..n {
            let s = [&[a, b], tail].concat();
            *WHICH.lock().unwrap() = s.clone();
            state(&("calls", &s));
            fn body() {
                let n = CALLS.get().unwrap().len();
                let check = |i: usize| check_call(i, &(CALLS.get().unwrap()[i].run)(), "after others");
                for i in WHICH.lock().unwrap().clone() {
                    match i {
                        IN_TURN => (0..n).for_each(check),
                        IN_REVERSE => (0..n).rev().for_each(check),
                        _ => check(i),
                    }
                }
            }
            let text = |i: &usize| match *i {
                IN_TURN => "every call in turn".to_string(),
                IN_REVERSE => "every call from the last to the first".to_string(),
                i => name(i),
            };
            case(
                || s.iter().map(text).collect::<Vec<_>>().join(", then "),
                || {
                    let r = execute(&[], body);
                    step((2 + tail.len() * n) as u64);
                    r.bad.map_or(Ok(()), Err)
                },
            );
            ctx::alive();
        }
    }
}
/// Every single call at every point of a part of the single calls.
fn nested_calls(part: usize, parts: usize) {
    let n = prepare_calls();
    for outer in (0..n).filter(|a| a % parts == part) {
        let points = POINTS.lock().unwrap()[outer];
        for inner in 0..n {
            for p in 0..points {
                state(&("nested", outer, inner, p));
                case(|| format!("{}, called at point {} of {}", name(inner), p, name(outer)), || {
                    *WHICH.lock().unwrap() = vec![outer];
                    SEEN.store(0, Relaxed);
                    WHEN.store(p, Relaxed);
                    INNER.store(CALL_BASE + inner, Relaxed);
                    fn body() {
                        let o = WHICH.lock().unwrap()[0];
                        MODE.store(CALL, Relaxed);
                        let r = (CALLS.get().unwrap()[o].run)();
                        MODE.store(NOTHING, Relaxed);
                        let inner = INNER_GAVE.lock().unwrap().clone();
                        assert!(inner.len() == 1, "the point was not reached");
                        check_call(INNER.load(Relaxed) - CALL_BASE, &inner[0][0], "called from within another");
                        check_call(o, &r, "with another called from within it");
                    }
                    let r = execute(&[], body);
                    step(points as u64);
                    r.bad.map_or(Ok(()), Err)
                });
            }
            ctx::alive();
        }
    }
}
/// Two single calls in two threads, the first of a part of them.
fn calls_beside(part: usize, parts: usize, bound: usize) {
    let n = prepare_calls();
    fn body() {
        MODE.store(SWITCH, Relaxed);
        let ws = WHICH.lock().unwrap().clone();
        let hs: Vec<_> = ws.iter().map(|&i| shuttle::thread::spawn(move || (CALLS.get().unwrap()[i].run)())).collect();
        for (h, i) in hs.into_iter().zip(ws) {
            check_call(i, &h.join().expect("thread"), "beside another thread");
        }
    }
    for a in (0..n).filter(|a| a % parts == part) {
        for b in a..n {
            *WHICH.lock().unwrap() = vec![a, b];
            all(leak(format!("{} beside {}", name(a), name(b))), body, bound);
        }
    }
}
static CALLS: std::sync::OnceLock<Vec<calls::Call>> = std::sync::OnceLock::new();
fn index(n: &str) -> usize {
    PROGRAMS.iter().position(|p| p.0 == n).unwrap()
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn main() {
    let mut v = vec![];
    for (a, b, quick, thorough) in [
        ("words2", "words3", 2, 3),
        ("words3", "words1000", 2, 3),
        ("product2", "product3", 2, 2),
        ("scaled", "scaled", 2, 2),
        ("dense", "wrapped", 2, 3),
        ("sparse", "sparse", 2, 2),
        ("wrapped", "wrapped", 2, 3),
        ("lie", "lie", 2, 3),
        ("float", "float", 2, 4),
    ] {
        v.push(group(format!("pair-{}-{}", a, b), leak(format!("two threads, all schedules with {} (thorough {}) preemptions", quick, thorough)), move |t: Tier| {
            prepare();
            beside(&[index(a), index(b)], t.pick(quick, thorough), leak(format!("{} beside {}", a, b)));
        }));
    }
    v.push(group("three", "three threads, all schedules with 1 (thorough 2) preemptions", |t: Tier| {
        prepare();
        beside(&[index("words2"), index("words3"), index("words1000")], t.pick(1, 2), "words in three threads");
        beside(&[index("product2"), index("product3"), index("scaled")], t.pick(1, 2), "products in three threads");
    }));
    for i in 0..PROGRAMS.len() {
        let name = PROGRAMS[i].0;
        v.push(group(format!("after-{}", name), "sequences of 3 (thorough 4) of the 13 programs, in a fresh process each", move |t: Tier| sequences(i, t.pick(3, 4))));
        v.push(group(format!("within-{}", name), "every program called at every point (coefficient operation, key operation, iteration, function) of this one", move |_| nested(i)));
        v.push(group(format!("beside-{}", name), "this program in one thread and each other, itself included, in another; all schedules with 1 (thorough 2) preemptions", move |t: Tier| {
            prepare();
            for j in i..PROGRAMS.len() {
                beside(&[i, j], t.pick(1, 2), leak(format!("{} beside {}", name, PROGRAMS[j].0)));
            }
        }));
    }
    for p in 0..16 {
        v.push(group(format!("calls-{}", p), "all sequences of 2 of 241 single calls, the first of a 16th of them; alone, and then every call in turn (thorough also in reverse); in a fresh process each", move |t: Tier| {
            call_sequences(p, 16, &[]);
            call_sequences(p, 16, &[IN_TURN]);
            if t == Tier::Thorough {
                call_sequences(p, 16, &[IN_REVERSE]);
            }
        }));
    }
    for p in 0..32 {
        v.push(group(format!("calls-within-{}", p), "every single call at every point of a 32nd of the single calls (thorough)", move |t: Tier| {
            if t == Tier::Thorough {
                nested_calls(p, 32)
            }
        }));
        v.push(group(format!("calls-beside-{}", p), "two single calls in two threads, the first of a 32nd of them; all schedules with 1 preemption (thorough)", move |t: Tier| {
            if t == Tier::Thorough {
                calls_beside(p, 32, 1)
            }
        }));
    }
    ctx::main(v);
}
