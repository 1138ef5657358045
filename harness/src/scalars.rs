//! Coefficient types to explore with: small and large prime fields, exact rationals, polynomials in
//! indeterminate coefficients, an instrumented scalar, and the library's floats. `Sc` is the
//! reference arithmetic.
use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{self, Debug, Display};

pub trait Sc: CoefficientField<RationalType = Self::R> + Debug + 'static {
    type R: Clone + Debug + From<i8> + From<i16> + FromDegreeType + 'static;
    fn z() -> Self;
    fn o() -> Self;
    fn madd(&self, o: &Self) -> Self;
    fn msub(&self, o: &Self) -> Self;
    fn mmul(&self, o: &Self) -> Self;
    fn mdiv(&self, r: &Self::R) -> Self;
    fn mneg(&self) -> Self {
        Self::z().msub(self)
    }
    /// Identifies the value, for hashing states.
    fn enc(&self) -> u64;
    /// The i-th of a sequence of values without short period (never zero, not often one).
    fn nth(i: usize) -> Self;
    /// The small integer as a scalar.
    fn int(i: i64) -> Self;
    fn rat(i: i64) -> Self::R;
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}

// ---------------------------------------------------------------- prime fields
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fp<const P: u64>(pub u64);
/// The divisors of `Fp`: a different type, as the interface allows.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct FpR<const P: u64>(pub u64);

impl<const P: u64> Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Debug for FpR<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
fn md<const P: u64>(i: i64) -> u64 {
    i.rem_euclid(P as i64) as u64
}
fn pw<const P: u64>(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1 % P;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
macro_rules! ints {
    ($t:ident) => {
        impl<const P: u64> From<i8> for $t<P> {
            fn from(x: i8) -> Self {
                $t(md::<P>(x as i64))
            }
        }
        impl<const P: u64> From<i16> for $t<P> {
            fn from(x: i16) -> Self {
                $t(md::<P>(x as i64))
            }
        }
        impl<const P: u64> FromDegreeType for $t<P> {
            fn from_degree(d: &u32) -> Self {
                $t(md::<P>(*d as i64))
            }
        }
    };
}
ints!(Fp);
ints!(FpR);
impl<const P: u64> CoefficientBase for Fp<P> {}
impl<const P: u64> Commutative for Fp<P> {}
impl<const P: u64> Sc for Fp<P> {
    type R = FpR<P>;
    fn z() -> Self {
        Fp(0)
    }
    fn o() -> Self {
        Fp(1)
    }
    fn madd(&self, o: &Self) -> Self {
        Fp((self.0 + o.0) % P)
    }
    fn msub(&self, o: &Self) -> Self {
        Fp((self.0 + P - o.0) % P)
    }
    fn mmul(&self, o: &Self) -> Self {
        Fp(self.0 * o.0 % P)
    }
    fn mdiv(&self, r: &FpR<P>) -> Self {
        assert!(r.0 != 0, "division by zero in the field");
        Fp(self.0 * pw::<P>(r.0, P - 2) % P)
    }
    fn enc(&self) -> u64 {
        self.0
    }
    fn nth(i: usize) -> Self {
        Fp((i as u64 * 7919 + 13) % (P - 1) + 1)
    }
    fn int(i: i64) -> Self {
        Fp(md::<P>(i))
    }
    fn rat(i: i64) -> FpR<P> {
        FpR(md::<P>(i))
    }
}
/// The library's operations on one of our own types are the reference arithmetic.
macro_rules! field {
    ([$($g:tt)*] $t:ty, $r:ty, $z:expr, $o:expr, $m:expr) => {
        impl<$($g)*> CoefficientField for $t {
            type RationalType = $r;
            const ZERO: Self = $z;
            const ONE: Self = $o;
            const MONE: Self = $m;
            fn uminus(&self) -> Self { self.mneg() }
            fn inv(arg: impl Borrow<$r>) -> Self { Self::o().mdiv(arg.borrow()) }
            fn add(&self, o: &Self) -> Self { self.madd(o) }
            fn sub(&self, o: &Self) -> Self { self.msub(o) }
            fn mul(&self, o: &Self) -> Self { self.mmul(o) }
            fn div(&self, o: &$r) -> Self { self.mdiv(o) }
            fn add_inplace(&mut self, o: &Self) -> &mut Self { *self = self.madd(o); self }
            fn sub_inplace(&mut self, o: &Self) -> &mut Self { *self = self.msub(o); self }
            fn mul_inplace(&mut self, o: &Self) -> &mut Self { *self = self.mmul(o); self }
            fn div_inplace(&mut self, o: &$r) -> &mut Self { *self = self.mdiv(o); self }
        }
    };
}
field!([const P: u64] Fp<P>, FpR<P>, Fp(0), Fp(1), Fp(P - 1));

pub type F2 = Fp<2>;
pub type F3 = Fp<3>;
pub type F5 = Fp<5>;
pub type Big = Fp<1000003>;

// ---------------------------------------------------------------- rationals
/// Exact rationals. D is a label that lets the harness give tensors a maximum degree.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q<const D: u32>(pub i128, pub i128);
impl<const D: u32> Debug for Q<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.1 == 1 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "{}/{}", self.0, self.1)
        }
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
impl<const D: u32> Q<D> {
    pub fn new(n: i128, d: i128) -> Self {
        assert!(d != 0, "division by zero");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q(s * n / g, s * d / g)
    }
    fn ck(x: Option<i128>) -> i128 {
        x.expect("rational too large")
    }
}
impl<const D: u32> From<i8> for Q<D> {
    fn from(x: i8) -> Self {
        Q(x as i128, 1)
    }
}
impl<const D: u32> From<i16> for Q<D> {
    fn from(x: i16) -> Self {
        Q(x as i128, 1)
    }
}
impl<const D: u32> FromDegreeType for Q<D> {
    fn from_degree(d: &u32) -> Self {
        Q(*d as i128, 1)
    }
}
impl<const D: u32> CoefficientBase for Q<D> {}
impl<const D: u32> Commutative for Q<D> {}
impl<const D: u32> Sc for Q<D> {
    type R = Q<D>;
    fn z() -> Self {
        Q(0, 1)
    }
    fn o() -> Self {
        Q(1, 1)
    }
    fn madd(&self, o: &Self) -> Self {
        let a = Self::ck(self.0.checked_mul(o.1));
        let b = Self::ck(o.0.checked_mul(self.1));
        Self::new(Self::ck(a.checked_add(b)), Self::ck(self.1.checked_mul(o.1)))
    }
    fn msub(&self, o: &Self) -> Self {
        self.madd(&Q(-o.0, o.1))
    }
    fn mmul(&self, o: &Self) -> Self {
        Self::new(Self::ck(self.0.checked_mul(o.0)), Self::ck(self.1.checked_mul(o.1)))
    }
    fn mdiv(&self, r: &Self) -> Self {
        assert!(r.0 != 0, "division by zero");
        self.mmul(&Self::new(r.1, r.0))
    }
    fn enc(&self) -> u64 {
        (self.0 as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (self.1 as u64)
    }
    fn nth(i: usize) -> Self {
        let v = ((i * 5 + 2) % 17) as i128 - 8;
        Q(if v == 0 { 9 } else { v }, 1)
    }
    fn int(i: i64) -> Self {
        Q(i as i128, 1)
    }
    fn rat(i: i64) -> Self {
        Q(i as i128, 1)
    }
}
field!([const D: u32] Q<D>, Q<D>, Q(0, 1), Q(1, 1), Q(-1, 1));

// ---------------------------------------------------------------- polynomials
/// Polynomials over the rationals in indeterminates x0, x1, ...: a computation on tensors whose
/// coefficients are distinct indeterminates is the computation for all coefficients at once (along
/// the path taken by non-zero, non-one coefficients). A monomial is a product of at most eight
/// indeterminates, sixteen bits each, in decreasing order.
#[derive(Clone, PartialEq)]
pub enum Poly<const D: u32> {
    C(Q<D>),
    T(Vec<(u128, Q<D>)>),
}
fn mono_mul(mut a: u128, mut b: u128) -> u128 {
    if a == 0 {
        return b;
    }
    if b == 0 {
        return a;
    }
    let mut v = [0u16; 16];
    let mut n = 0;
    while a != 0 {
        v[n] = a as u16;
        a >>= 16;
        n += 1;
    }
    while b != 0 {
        v[n] = b as u16;
        b >>= 16;
        n += 1;
    }
    assert!(n <= 8, "monomial too long");
    v[..n].sort_unstable();
    let mut r = 0u128;
    for i in 0..n {
        r = r << 16 | v[i] as u128;
    }
    r
}
impl<const D: u32> Poly<D> {
    pub fn var(i: usize) -> Self {
        assert!(i < 65_000);
        Poly::T(vec![(i as u128 + 1, Q(1, 1))])
    }
    fn terms(&self) -> Vec<(u128, Q<D>)> {
        match self {
            Poly::C(q) if q.0 == 0 => vec![],
            Poly::C(q) => vec![(0, *q)],
            Poly::T(v) => v.clone(),
        }
    }
    fn norm(v: Vec<(u128, Q<D>)>) -> Self {
        match v.len() {
            0 => Poly::C(Q(0, 1)),
            1 if v[0].0 == 0 => Poly::C(v[0].1),
            _ => Poly::T(v),
        }
    }
    fn lin(&self, o: &Self, sub: bool) -> Self {
        let (a, b) = (self.terms(), o.terms());
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else {
                let q = if sub { b[j].1.mneg() } else { b[j].1 };
                if i < a.len() && a[i].0 == b[j].0 {
                    let s = a[i].1.madd(&q);
                    if s.0 != 0 {
                        r.push((a[i].0, s));
                    }
                    i += 1;
                } else {
                    r.push((b[j].0, q));
                }
                j += 1;
            }
        }
        Self::norm(r)
    }
}
impl<const D: u32> Debug for Poly<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = self.terms();
        if t.is_empty() {
            return write!(f, "0");
        }
        for (i, (m, q)) in t.iter().enumerate() {
            if i > 0 {
                write!(f, " + ")?;
            }
            write!(f, "{:?}", q)?;
            let mut m = *m;
            while m != 0 {
                write!(f, "*x{}", (m as u16) - 1)?;
                m >>= 16;
            }
        }
        Ok(())
    }
}
impl<const D: u32> From<i8> for Poly<D> {
    fn from(x: i8) -> Self {
        Poly::C(Q::from(x))
    }
}
impl<const D: u32> From<i16> for Poly<D> {
    fn from(x: i16) -> Self {
        Poly::C(Q::from(x))
    }
}
impl<const D: u32> FromDegreeType for Poly<D> {
    fn from_degree(d: &u32) -> Self {
        Poly::C(Q::from_degree(d))
    }
}
impl<const D: u32> CoefficientBase for Poly<D> {}
impl<const D: u32> Commutative for Poly<D> {}
impl<const D: u32> Sc for Poly<D> {
    type R = Q<D>;
    fn z() -> Self {
        Poly::C(Q(0, 1))
    }
    fn o() -> Self {
        Poly::C(Q(1, 1))
    }
    fn madd(&self, o: &Self) -> Self {
        self.lin(o, false)
    }
    fn msub(&self, o: &Self) -> Self {
        self.lin(o, true)
    }
    fn mmul(&self, o: &Self) -> Self {
        let (a, b) = (self.terms(), o.terms());
        if a.len() == 1 && b.len() == 1 {
            return Self::norm(vec![(mono_mul(a[0].0, b[0].0), a[0].1.mmul(&b[0].1))]);
        }
        let mut v = Vec::with_capacity(a.len() * b.len());
        for (m, p) in &a {
            for (n, q) in &b {
                v.push((mono_mul(*m, *n), p.mmul(q)));
            }
        }
        v.sort_by(|x, y| x.0.cmp(&y.0));
        let mut r: Vec<(u128, Q<D>)> = Vec::with_capacity(v.len());
        for (m, q) in v {
            match r.last_mut() {
                Some(l) if l.0 == m => l.1 = l.1.madd(&q),
                _ => r.push((m, q)),
            }
        }
        r.retain(|x| x.1 .0 != 0);
        Self::norm(r)
    }
    fn mdiv(&self, r: &Q<D>) -> Self {
        let mut v = self.terms();
        for t in v.iter_mut() {
            t.1 = t.1.mdiv(r);
        }
        Self::norm(v)
    }
    fn enc(&self) -> u64 {
        let mut h = 7u64;
        for (m, q) in self.terms() {
            h = h.wrapping_mul(1099511628211) ^ (m as u64) ^ ((m >> 64) as u64).wrapping_mul(31) ^ q.enc().wrapping_mul(77);
        }
        h
    }
    fn nth(i: usize) -> Self {
        Poly::var(i)
    }
    fn int(i: i64) -> Self {
        Poly::C(Q(i as i128, 1))
    }
    fn rat(i: i64) -> Q<D> {
        Q(i as i128, 1)
    }
}
field!([const D: u32] Poly<D>, Q<D>, Poly::C(Q(0, 1)), Poly::C(Q(1, 1)), Poly::C(Q(-1, 1)));

// ---------------------------------------------------------------- floats
macro_rules! float {
    ($t:ty) => {
        impl Sc for $t {
            type R = $t;
            fn z() -> Self { 0.0 }
            fn o() -> Self { 1.0 }
            fn madd(&self, o: &Self) -> Self { *self + *o }
            fn msub(&self, o: &Self) -> Self { *self - *o }
            fn mmul(&self, o: &Self) -> Self { *self * *o }
            fn mdiv(&self, r: &Self) -> Self { *self / *r }
            fn enc(&self) -> u64 { if *self == 0.0 { 0 } else { (*self as f64).to_bits() } }
            // Small integers, on which float arithmetic is exact.
            fn nth(i: usize) -> Self { let v = (i * 5 + 2) % 17; if v == 8 { 9.0 } else { v as $t - 8.0 } }
            fn int(i: i64) -> Self { i as $t }
            fn rat(i: i64) -> Self { i as $t }
        }
    };
}
float!(f32);
float!(f64);

// ---------------------------------------------------------------- instrumented scalar
/// A residue that knows whether it is alive: reads of memory that holds no coefficient, double
/// drops and lost coefficients are recorded.
pub struct Tracked {
    magic: u64,
    id: u64,
    pub v: u64,
    check: u64,
}
const LIVE: u64 = 0x1BADB002_C0FFEE11;
const GONE: u64 = 0xDEADDEAD_00000001;
pub const TP: u64 = 10007;

struct Ledger {
    next: u64,
    live: HashSet<u64>,
    errors: Vec<String>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger { next: 1, live: HashSet::new(), errors: vec![] });
}
fn complain(e: String) {
    let _ = LEDGER.try_with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            if l.errors.len() < 10 {
                l.errors.push(e)
            }
        }
    });
}
thread_local! {
    static FUSE: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}
/// Make the n-th use of a tracked value from now on panic (u64::MAX: none); returns the uses so far.
pub fn fuse(n: u64) -> u64 {
    FUSE.with(|f| {
        let u = f.get().0;
        f.set((0, n));
        u
    })
}
fn burn() {
    let blown = FUSE.with(|f| {
        let (u, n) = f.get();
        f.set((u + 1, n));
        u == n
    });
    if blown {
        panic!("injected panic");
    }
}
/// Forget everything; call while no tracked value exists.
pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        l.errors.clear();
        l.next = 1;
    });
}
/// Errors so far, and how many counted values are alive.
pub fn ledger() -> (Vec<String>, usize) {
    LEDGER.with(|l| {
        let l = l.borrow();
        (l.errors.clone(), l.live.len())
    })
}
impl Tracked {
    const fn raw(v: u64) -> Self {
        Tracked { magic: LIVE, id: 0, v, check: !v }
    }
    pub fn make(v: u64) -> Self {
        let id = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            let id = l.next;
            l.next += 1;
            l.live.insert(id);
            id
        });
        Tracked { magic: LIVE, id, v: v % TP, check: !(v % TP) }
    }
    fn ok(&self, what: &str) -> u64 {
        burn();
        if self.magic != LIVE || self.check != !self.v {
            complain(format!("{} of memory that holds no coefficient (tag {:#x}, value {:#x})", what, self.magic, self.v));
            return 1;
        }
        if self.id != 0 && !LEDGER.with(|l| l.borrow().live.contains(&self.id)) {
            complain(format!("{} of a coefficient that was dropped (value {})", what, self.v));
        }
        self.v
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic == GONE {
            complain("a coefficient dropped twice in place".into());
            return;
        }
        if self.magic != LIVE || self.check != !self.v {
            complain(format!("drop of memory that holds no coefficient (tag {:#x})", self.magic));
            return;
        }
        if self.id != 0 {
            let id = self.id;
            let there = LEDGER.try_with(|l| l.try_borrow_mut().map(|mut l| l.live.remove(&id)).unwrap_or(true)).unwrap_or(true);
            if !there {
                complain(format!("a coefficient dropped twice (value {})", self.v));
            }
        }
        self.magic = GONE;
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::make(self.ok("copy"))
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.ok("read") == o.ok("read")
    }
}
impl Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.ok("read"))
    }
}
impl From<i8> for Tracked {
    fn from(x: i8) -> Self {
        Tracked::make(md::<TP>(x as i64))
    }
}
impl From<i16> for Tracked {
    fn from(x: i16) -> Self {
        Tracked::make(md::<TP>(x as i64))
    }
}
impl FromDegreeType for Tracked {
    fn from_degree(d: &u32) -> Self {
        Tracked::make(md::<TP>(*d as i64))
    }
}
impl CoefficientBase for Tracked {}
impl Commutative for Tracked {}
impl Sc for Tracked {
    type R = FpR<TP>;
    fn z() -> Self {
        Tracked::make(0)
    }
    fn o() -> Self {
        Tracked::make(1)
    }
    fn madd(&self, o: &Self) -> Self {
        Tracked::make((self.ok("read") + o.ok("read")) % TP)
    }
    fn msub(&self, o: &Self) -> Self {
        Tracked::make((self.ok("read") + TP - o.ok("read")) % TP)
    }
    fn mmul(&self, o: &Self) -> Self {
        Tracked::make(self.ok("read") * o.ok("read") % TP)
    }
    fn mdiv(&self, r: &FpR<TP>) -> Self {
        assert!(r.0 != 0, "division by zero in the field");
        Tracked::make(self.ok("read") * pw::<TP>(r.0, TP - 2) % TP)
    }
    fn enc(&self) -> u64 {
        self.v
    }
    fn nth(i: usize) -> Self {
        Tracked::make((i as u64 * 7919 + 13) % (TP - 1) + 1)
    }
    fn int(i: i64) -> Self {
        Tracked::make(md::<TP>(i))
    }
    fn rat(i: i64) -> FpR<TP> {
        FpR(md::<TP>(i))
    }
}
field!([] Tracked, FpR<TP>, Tracked::raw(0), Tracked::raw(1), Tracked::raw(TP - 1));
