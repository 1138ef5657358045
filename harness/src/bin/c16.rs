//! C16: coefficient operations are the IEEE operations, in place or not.
use rustyalgebra::coefficients::{CoefficientField, FromDegreeType};
use vp_harness::ctx::*;

#[global_allocator]
static A: vp_harness::alloc::Guarded = vp_harness::alloc::Guarded;

macro_rules! checks {
    ($m:ident, $t:ident, $bits:ty, $mant:expr, $exps:expr) => {
        mod $m {
            use super::*;
            use std::hint::black_box;
            fn same(what: &str, got: $t, want: $t) -> Result<(), String> {
                if got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan()) {
                    Ok(())
                } else {
                    Err(format!("{}: {:?} instead of {:?}", what, got, want))
                }
            }
            fn inplace(what: &str, a: $t, f: impl FnOnce(&mut $t) -> &mut $t, want: $t) -> Result<(), String> {
                let mut x = a;
                let p = &x as *const $t;
                let r = f(&mut x);
                if r as *const $t != p {
                    return Err(format!("{} does not return the changed coefficient", what));
                }
                let v = *r;
                same(what, v, want)?;
                same(what, x, want)
            }
            pub fn unary(a: $t) -> Result<(), String> {
                let a = black_box(a);
                same("negation", CoefficientField::uminus(&a), -a)?;
                same("inverse", <$t as CoefficientField>::inv(a), 1.0 / a)?;
                same("inverse of a reference", <$t as CoefficientField>::inv(&a), 1.0 / a)
            }
            pub fn binary(a: $t, b: $t) -> Result<(), String> {
                let (a, b) = (black_box(a), black_box(b));
                same("sum", CoefficientField::add(&a, &b), a + b)?;
                same("difference", CoefficientField::sub(&a, &b), a - b)?;
                same("product", CoefficientField::mul(&a, &b), a * b)?;
                same("quotient", CoefficientField::div(&a, &b), a / b)?;
                same("fraction", <$t as CoefficientField>::from_rational(a, b), a / b)?;
                inplace("in-place sum", a, |x| CoefficientField::add_inplace(x, &b), a + b)?;
                inplace("in-place difference", a, |x| CoefficientField::sub_inplace(x, &b), a - b)?;
                inplace("in-place product", a, |x| CoefficientField::mul_inplace(x, &b), a * b)?;
                inplace("in-place quotient", a, |x| CoefficientField::div_inplace(x, &b), a / b)?;
                let mut x = a;
                CoefficientField::mul_inplace(CoefficientField::add_inplace(&mut x, &b), &b);
                same("sum then product in a chain", x, (a + b) * b)
            }
            fn values(exps: &[u64], mants: &[u64]) -> Vec<$t> {
                let mut v = vec![];
                for sign in 0..2u64 {
                    for &e in exps {
                        for &m in mants {
                            v.push(<$t>::from_bits(((sign << (<$bits>::BITS as u64 - 1)) | (e << $mant) | m) as $bits));
                        }
                    }
                }
                for x in [0.1, 1.0 / 3.0, 2.0 / 3.0, 3.0, 7.0, 10.0, 1e10, 123456789.0, 0.7, 1e-20] {
                    v.push(x as $t);
                    v.push(-x as $t);
                }
                v
            }
            pub fn pairs(t: Tier) {
                let top = (1u64 << $exps) - 1;
                let bias = top / 2;
                let full = (1u64 << $mant) - 1;
                let exps: Vec<u64> = match t {
                    Tier::Quick => vec![0, 1, 2, bias / 2, bias - $mant - 1, bias - $mant, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + $mant, bias + $mant + 1, bias + bias / 2, top - 2, top - 1, top],
                    Tier::Thorough => {
                        let step = if top > 300 { 16 } else { 1 };
                        (0..=top).filter(|e| e % step == 0 || *e < 3 || *e + 3 > top || (*e as i64 - bias as i64).abs() < 4).collect()
                    }
                };
                let mants: Vec<u64> = t.pick(vec![0, 1, 2, full / 2, full / 2 + 1, full / 3, full - 1, full], vec![0, 1, full / 2 + 1, full / 3, full]);
                let all = values(&exps, &mants);
                for &a in &all {
                    case(|| format!("{} {:?} ({:#x}) against {} values", stringify!($t), a, a.to_bits(), all.len()), || {
                        unary(a)?;
                        for &b in &all {
                            state(&(stringify!($t), a.to_bits(), b.to_bits()));
                            if let Err(e) = binary(a, b) {
                                return Err(format!("with {:?} ({:#x}): {}", b, b.to_bits(), e));
                            }
                            outcome(&(a + b).to_bits());
                        }
                        step(12 * all.len() as u64 + 3);
                        Ok(())
                    });
                }
            }
            pub fn constants(t: Tier) {
                case(|| format!("{} constants", stringify!($t)), || {
                    step(3);
                    same("zero", <$t as CoefficientField>::ZERO, 0.0)?;
                    same("one", <$t as CoefficientField>::ONE, 1.0)?;
                    same("minus one", <$t as CoefficientField>::MONE, -1.0)
                });
                for i in i8::MIN..=i8::MAX {
                    case(|| format!("{} from the i8 {}", stringify!($t), i), || {
                        state(&(stringify!($t), "i8", i));
                        same("conversion", <$t as From<i8>>::from(i), i as $t)?;
                        for j in i8::MIN..=i8::MAX {
                            same("fraction of integers", <$t as CoefficientField>::from_rational(i, j), i as $t / j as $t)?;
                        }
                        step(257);
                        Ok(())
                    });
                }
                for i in i16::MIN..=i16::MAX {
                    case(|| format!("{} from the i16 {}", stringify!($t), i), || {
                        state(&(stringify!($t), "i16", i));
                        step(4);
                        same("conversion", <$t as From<i16>>::from(i), i as $t)?;
                        for j in [1i16, -1, 2, 3, 7, 1000, i16::MAX, i16::MIN] {
                            same("fraction of integers", <$t as CoefficientField>::from_rational(i, j), i as $t / j as $t)?;
                            same("fraction of integers", <$t as CoefficientField>::from_rational(j, i), j as $t / i as $t)?;
                        }
                        Ok(())
                    });
                }
                let mut degree = |d: u32| {
                    case(|| format!("{} from the degree {}", stringify!($t), d), || {
                        state(&(stringify!($t), "degree", d));
                        step(1);
                        same("conversion", <$t as FromDegreeType>::from_degree(&d), d as $t)
                    });
                };
                for d in 0..t.pick(70_000, 20_000_000) {
                    degree(d);
                }
                for b in 0..32 {
                    for o in 0..9u32 {
                        degree((1u32 << b).wrapping_add(o));
                        degree((1u32 << b).wrapping_sub(o));
                        degree((1u32 << b).wrapping_mul(3).wrapping_sub(o));
                    }
                }
            }
        }
    };
}
checks!(single, f32, u32, 23, 8);
checks!(double, f64, u64, 52, 11);

fn all_patterns(part: u64, parts: u64) {
    let block = 1u64 << 20;
    for base in (0..1u64 << 32).step_by(block as usize) {
        if (base >> 20) % parts != part {
            continue;
        }
        case(|| format!("f32 bit patterns {:#x}..{:#x}", base, base + block), || {
            for b in base..base + block {
                let a = f32::from_bits(b as u32);
                if let Err(e) = single::unary(a) {
                    return Err(format!("{:?} ({:#x}): {}", a, b, e));
                }
                for x in [1.5f32, -0.0, f32::INFINITY] {
                    if let Err(e) = single::binary(a, x) {
                        return Err(format!("{:?} ({:#x}) and {:?}: {}", a, b, x, e));
                    }
                }
            }
            step(block * 39);
            state(&("patterns", base));
            Ok(())
        });
    }
}
fn main() {
    let mut g = vec![
        group("f32-pairs", "all pairs of f32 values with boundary exponents and mantissas (thorough: every exponent)", single::pairs),
        group("f64-pairs", "all pairs of f64 values with boundary exponents and mantissas (thorough: every 16th exponent)", double::pairs),
        group("f32-conversions", "constants, all i8, all i16, all fractions of i8, degrees below 70000 (thorough 20 million) and near powers of two", single::constants),
        group("f64-conversions", "constants, all i8, all i16, all fractions of i8, degrees below 70000 (thorough 20 million) and near powers of two", double::constants),
    ];
    for p in 0..4 {
        g.push(group(format!("f32-patterns-{}", p), "thorough only: all 2^32 f32 bit patterns", move |t| {
            if t == Tier::Thorough {
                all_patterns(p, 4)
            }
        }));
    }
    vp_harness::ctx::main(g);
}
