//! Reference model of words over an alphabet 1..=n, and the bounded word sets that are explored.
use crate::ctx::Tier;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

pub type Word = Vec<u32>;

/// Rank of a word (first letter first) in the list of all words by length, then letters.
pub fn rank(n: u32, w: &[u32]) -> u128 {
    let n = n as u128;
    let mut r: u128 = 0;
    for &l in w {
        r = r * n + l as u128;
    }
    r
}
/// The word of a rank.
pub fn unrank(n: u32, mut r: u128) -> Word {
    let n = n as u128;
    let mut w = vec![];
    while r > 0 {
        let l = (r - 1) % n + 1;
        w.push(l as u32);
        r = (r - l) / n;
    }
    w.reverse();
    w
}
/// Number of words with fewer than d letters.
pub fn start(n: u32, d: u32) -> u128 {
    let mut s = 0u128;
    let mut p = 1u128;
    for _ in 0..d {
        s += p;
        p *= n as u128;
    }
    s
}
/// The next word in rank order.
pub fn succ(n: u32, w: &[u32]) -> Word {
    let mut v = w.to_vec();
    let mut i = v.len();
    loop {
        if i == 0 {
            v.insert(0, 1);
            return v;
        }
        i -= 1;
        if v[i] == n {
            v[i] = 1;
        } else {
            v[i] += 1;
            return v;
        }
    }
}

pub fn depth<const N: u32>() -> usize {
    TensorKey::<N>::max_depth() as usize
}
pub fn key<const N: u32>(w: &[u32]) -> TensorKey<N> {
    TensorKey::<N>::from_letters(w)
}
/// Read a key back without relying on its order of letters being right elsewhere.
pub fn read<const N: u32>(k: &TensorKey<N>) -> Word {
    let s = k.size();
    (0..s).map(|i| k.get_letter(s - 1 - i)).collect()
}
pub fn max_degree<const N: u32>() -> u32 {
    TensorBasis::<N>::max_degree()
}

/// Letters that matter: all of a small alphabet, else both ends, the middle
/// and both sides of every power of two.
pub fn letters(n: u32, all_up_to: u32) -> Vec<u32> {
    if n <= all_up_to {
        return (1..=n).collect();
    }
    let mut v = vec![1, 2, 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
    for b in 1..32 {
        for x in [(1u64 << b) - 1, 1 << b, (1 << b) + 1] {
            if x >= 1 && x <= n as u64 {
                v.push(x as u32);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All words with at most `max_len` letters whose number stays below `cap`, complete length by length.
pub fn all_short(n: u32, max_len: usize, cap: u128) -> Vec<Word> {
    let mut v = vec![vec![]];
    let mut level: Vec<Word> = vec![vec![]];
    for _ in 0..max_len {
        if (level.len() as u128) * (n as u128) + v.len() as u128 > cap {
            break;
        }
        let mut next = vec![];
        for w in &level {
            for l in 1..=n {
                let mut x = w.clone();
                x.push(l);
                next.push(x);
            }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    v
}

/// Calls f on every word of every length up to `max_len` that differs from a
/// constant background word in at most `dev` positions (background and
/// deviating letters from the letters that matter).
pub fn deviating(n: u32, max_len: usize, dev: usize, vals: &[u32], f: &mut dyn FnMut(&[u32])) {
    let mut back: Vec<u32> = vec![1, n, n / 2 + 1];
    back.sort();
    back.dedup();
    for len in 0..=max_len {
        for &b in &back {
            let mut w = vec![b; len];
            f(&w);
            rec(&mut w, 0, dev, vals, b, f);
        }
    }
    fn rec(w: &mut Vec<u32>, from: usize, left: usize, vals: &[u32], b: u32, f: &mut dyn FnMut(&[u32])) {
        if left == 0 {
            return;
        }
        for p in from..w.len() {
            for &v in vals {
                if v == b {
                    continue;
                }
                w[p] = v;
                f(w);
                rec(w, p + 1, left - 1, vals, b, f);
            }
            w[p] = b;
        }
    }
}

/// The word set of a width: all short words and all words deviating little from a constant one.
pub fn explore_words(n: u32, max_len: usize, tier: Tier, f: &mut dyn FnMut(&[u32])) {
    for w in all_short(n, max_len, tier.pick(250, 6000)) {
        f(&w);
    }
    let vals = letters(n, tier.pick(5, 12));
    // Two deviations where that stays affordable.
    let pairs = max_len * max_len / 2 * vals.len() * vals.len() * max_len / 3;
    let dev = if pairs < tier.pick(12_000, 3_000_000) { 2 } else { 1 };
    deviating(n, max_len, dev, &vals, f);
}

#[macro_export]
macro_rules! width_table {
    ($f:ident; $($n:literal),* $(,)?) => { vec![$(($n as u32, $f::<$n> as fn($crate::ctx::Tier))),*] };
}
/// Every width up to 66, and both sides of every power of two up to the largest width there is.
#[macro_export]
macro_rules! all_widths {
    ($f:ident) => {
        $crate::width_table!($f;
            1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24,
            25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46,
            47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
            100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 566, 1000, 1023, 1024,
            1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384,
            16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 262143,
            262144, 262145, 524287, 524288, 524289, 1000000, 1048575, 1048576, 1048577, 2097151,
            2097152, 2097153, 4194303, 4194304, 4194305, 8388607, 8388608, 8388609, 16777215,
            16777216, 16777217, 33554431, 33554432, 33554433, 67108863, 67108864, 67108865,
            134217727, 134217728, 134217729, 268435455, 268435456, 268435457, 536870911, 536870912,
            536870913, 1000000000, 1073741823, 1073741824, 1073741825, 2147483647, 2147483648,
            2147483649, 3000000000, 4294967294, 4294967295)
    };
}

/// Pairs of words over two alphabets that are easily taken for each other: the same letters, or the same
/// bits when letters are packed.
pub fn pair_words<const N: u32, const M: u32>(cap: u128) -> Vec<(Word, Word)> {
    let (dn, dm) = (depth::<N>(), depth::<M>());
    let mut v: Vec<(Word, Word)> = vec![];
    let low = N.min(M);
    for w in all_short(low, dn.min(dm), cap) {
        v.push((w.clone(), w));
    }
    for len in 1..=dn.min(dm) {
        for l in [1, low / 2 + 1, low] {
            v.push((vec![l; len], vec![l; len]));
        }
    }
    let bits = |n: u32| 32 - n.leading_zeros();
    let mut from: Vec<Word> = all_short(N, dn.min(dm), cap);
    for len in 1..=dn.min(dm) {
        for l in letters(N, 5) {
            let mut w = vec![1; len];
            w[len - 1] = l;
            from.push(w.clone());
            w[0] = l;
            from.push(w);
        }
    }
    for w in from {
        let mut data: u128 = w.iter().fold(0, |a, &l| (a << bits(N)) + l as u128 - 1);
        let mut x = vec![];
        for _ in 0..w.len() {
            x.push((data & ((1 << bits(M)) - 1)) + 1);
            data >>= bits(M);
        }
        x.reverse();
        if data == 0 && x.iter().all(|&l| l <= M as u128) {
            v.push((w, x.into_iter().map(|l| l as u32).collect()));
        }
    }
    v.sort();
    v.dedup();
    for p in &v {
        crate::ctx::state(&(N, M, p));
    }
    v
}
/// Two alphabets used in turn: anything remembered about one of them must not show in the other.
#[macro_export]
macro_rules! width_pairs {
    ($f:ident) => { $crate::width_pairs!($f; 1 2, 2 3, 2 4, 3 4, 3 5, 4 5, 4 7, 5 6, 5 9, 8 9, 8 15, 15 16, 16 17, 31 33, 100 101, 255 256, 256 257, 256 511, 1 257, 2 258,
        3 259, 2 65538, 3 65539, 1000 1001, 65535 65536, 65536 65537, 1048576 1048577, 1073741824 2147483648, 2147483648 2147483649, 4294967294 4294967295) };
    ($f:ident; $($n:literal $m:literal),*) => { vec![$($f::<$n, $m> as fn($crate::ctx::Tier)),*] };
}
pub fn pair_group(fs: Vec<fn(Tier)>) -> crate::ctx::Group {
    crate::ctx::group("two-alphabets", "30 pairs of widths used in turn, operation by operation, on words with the same letters or the same packed bits and on the same indices and degrees", move |t| {
        for f in &fs {
            f(t)
        }
    })
}

/// Groups of a per-width exploration: the widths dealt out so that groups take similar time.
pub fn width_groups(bounds: &'static str, table: Vec<(u32, fn(Tier))>) -> Vec<crate::ctx::Group> {
    const G: usize = 8;
    (0..G)
        .map(|g| {
            let part: Vec<(u32, fn(Tier))> = table.iter().cloned().enumerate().filter(|(i, _)| i % G == g).map(|(_, x)| x).collect();
            crate::ctx::group(format!("widths-{}-mod-{}", g, G), bounds, move |t| {
                for (_, f) in &part {
                    f(t)
                }
            })
        })
        .collect()
}
