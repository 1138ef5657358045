//! C21: printing terminates and shows the contents.
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::implementation::SimpleDenseVector;
use std::fmt::{self, Write};
use vp_harness::ctx::*;
use vp_harness::scalars::*;
use vp_harness::vecs::{IntBasis, Keys};
use vp_harness::words::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

fn shown(w: &[u32]) -> String {
    let l: Vec<String> = w.iter().rev().map(|x| x.to_string()).collect();
    format!("({})", l.join(", "))
}
/// A sink that accepts only so much.
struct Short(String, usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
fn word<const N: u32>(w: &[u32]) -> Result<(), String> {
    let k = key::<N>(w);
    let want = shown(w);
    for (how, got) in [("for users", format!("{}", k)), ("for debugging", format!("{:?}", k)), ("to_string", k.to_string())] {
        step(1);
        if got != want {
            return Err(format!("printed {} as {:?} instead of {:?}", how, got, want));
        }
    }
    // What was written before a failing sink stops it is the beginning of the text, and the failure is reported.
    let mut s = Short(String::new(), want.len() - 1);
    if write!(s, "{}", k).is_ok() || !want.starts_with(&s.0) {
        return Err(format!("a full sink is ignored, it got {:?}", s.0));
    }
    Ok(())
}
fn run<const N: u32>(tier: Tier) {
    let d = depth::<N>();
    explore_words(N, d, tier, &mut |w| {
        if state(&(N, w)) {
            case(|| format!("width {} word {:?}", N, w), || word::<N>(w));
        }
    });
    if N > 60 {
        return;
    }
    // Vectors: every size up to a bound.
    let max = tier.pick(60, 400).min(start(N, d as u32 + 1) as usize);
    for len in 0..=max {
        case(|| format!("width {}: vector of {} coefficients", N, len), || {
            let f: Vec<f64> = (0..len).map(|i| (i as f64 - 3.0) * 0.5).collect();
            let g: Vec<Big> = (0..len).map(Big::nth).collect();
            let z: Vec<f32> = vec![0.0; len];
            vector::<N, f64>(f)?;
            vector::<N, Big>(g)?;
            vector::<N, f32>(z)
        });
    }
}
fn vector<const N: u32, S: Sc + fmt::Display>(c: Vec<S>) -> Result<(), String> {
    let mut want = String::new();
    for (i, x) in c.iter().enumerate() {
        want.push_str(&format!("{}{}", x, shown(&unrank(N, i as u128))));
    }
    let v = SimpleDenseVector::<'static, TensorBasis<N>, S>::from(c);
    let got = format!("{}", v);
    step(1);
    state(&(N, &want));
    outcome(&got);
    if got != want {
        return Err(format!("printed as {:?} instead of {:?}", got, want));
    }
    Ok(())
}
/// Vectors over another basis: coefficients and keys of that basis.
fn other<const G: usize>() {
    for len in 0..=12usize {
        case(|| format!("vector of {} coefficients over the integer basis {}", len, G), || {
            let c: Vec<Big> = (0..len).map(Big::nth).collect();
            let mut want = String::new();
            for (i, x) in c.iter().enumerate() {
                want.push_str(&format!("{}{}", x, IntBasis::<G>::k(i)));
            }
            let got = format!("{}", SimpleDenseVector::<'static, IntBasis<G>, Big>::from(c));
            step(1);
            outcome(&got);
            if got != want {
                return Err(format!("printed as {:?} instead of {:?}", got, want));
            }
            Ok(())
        });
    }
}
/// Vectors around powers of two and ten.
fn large<const N: u32>(max: usize) {
    for p in [100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000] {
        for len in [p - 1, p, p + 1] {
            if len <= max {
                case(|| format!("width {}: vector of {} coefficients", N, len), || vector::<N, f64>((0..len).map(|i| i as f64 - 700.5).collect()));
                alive();
            }
        }
    }
}
fn two<const N: u32, const M: u32>(tier: Tier) {
    for (w, x) in pair_words::<N, M>(tier.pick(150, 1500)) {
        case(|| format!("widths {} and {} in turn: words {:?} and {:?}", N, M, w, x), || {
            let (k, j) = (key::<N>(&w), key::<M>(&x));
            let got = (format!("{}", k), format!("{}", j), format!("{}", k), format!("{:?}", j), format!("{:?}", k));
            let (a, b) = (shown(&w), shown(&x));
            step(5);
            if got != (a.clone(), b.clone(), a.clone(), b.clone(), a) {
                return Err(format!("printed as {:?}", got));
            }
            Ok(())
        });
    }
    for len in 0..=12usize {
        if len as u128 <= start(N, depth::<N>() as u32 + 1) {
            case(|| format!("widths {} and {} in turn: vectors of {} coefficients", N, M, len), || {
                let c: Vec<f64> = (0..len).map(|i| (i as f64 - 3.0) * 0.5).collect();
                vector::<N, f64>(c.clone())?;
                vector::<M, f64>(c.clone())?;
                vector::<N, f64>(c)
            });
        }
    }
}
fn main() {
    let mut g = width_groups(
        "all widths 1..=66 and both sides of every power of two up to 2^32-1; per width the word set of C01; for widths up to 60 dense vectors of every size up to 60 (thorough 400) over three scalar types",
        vp_harness::all_widths!(run),
    );
    g.push(group("other-basis", "vectors of every size up to 12 over bases other than words", |_| {
        other::<1>();
        other::<2>();
    }));
    g.push(group("large", "vectors of sizes around powers of two and round numbers up to 10001 (thorough 100001)", |t| {
        large::<1>(59);
        large::<2>(t.pick(10001, 100001));
        large::<3>(t.pick(10001, 100001));
        large::<10>(t.pick(10001, 100001));
        large::<300>(t.pick(10001, 100001));
    }));
    g.push(vp_harness::words::pair_group(vp_harness::width_pairs!(two)));
    vp_harness::ctx::main(g);
}
