//! C20: every schedule of threads that request and use Hall sets, with the real code on a
//! controlled scheduler. Each schedule runs in a process of its own, so that all statics start
//! afresh and a schedule that hangs or crashes is just another outcome.
#[path = "../../harness/src/ctx.rs"]
mod ctx;

mod exec;

use ctx::{case, group, Tier};
use exec::*;
use rustyalgebra::lie::vp_hooks::{get_hall_set, HallSet, HallSetObject};
use std::sync::Mutex;

// ---------------------------------------------------------------- what threads do
const WIDTHS: [u32; 129] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 514, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 16386, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 131074, 262143, 262144, 262145, 262146, 524287, 524288, 524289, 524290, 1048575, 1048576, 1048577, 1048578, 2097151, 2097152, 2097153, 2097154, 4194303, 4194304, 4194305, 4194306, 8388607, 8388608, 8388609, 8388610, 16777215, 16777216, 16777217, 16777218, 33554431, 33554432, 33554433, 33554434, 67108863, 67108864, 67108865, 67108866, 134217727, 134217728, 134217729, 134217730, 268435455, 268435456, 268435457, 268435458, 536870911, 536870912, 536870913, 536870914, 1073741823, 1073741824, 1073741825, 1073741826, 2147483647, 2147483648, 2147483649, 2147483650, 4294967294, 4294967295];
fn get(w: u32, grow: Option<u32>) -> HallSetObject {
    match w {
        1 => get_hall_set::<1>(grow),
        2 => get_hall_set::<2>(grow),
        3 => get_hall_set::<3>(grow),
        4 => get_hall_set::<4>(grow),
        5 => get_hall_set::<5>(grow),
        6 => get_hall_set::<6>(grow),
        7 => get_hall_set::<7>(grow),
        8 => get_hall_set::<8>(grow),
        9 => get_hall_set::<9>(grow),
        10 => get_hall_set::<10>(grow),
        11 => get_hall_set::<11>(grow),
        12 => get_hall_set::<12>(grow),
        15 => get_hall_set::<15>(grow),
        16 => get_hall_set::<16>(grow),
        17 => get_hall_set::<17>(grow),
        20 => get_hall_set::<20>(grow),
        21 => get_hall_set::<21>(grow),
        30 => get_hall_set::<30>(grow),
        31 => get_hall_set::<31>(grow),
        32 => get_hall_set::<32>(grow),
        33 => get_hall_set::<33>(grow),
        62 => get_hall_set::<62>(grow),
        63 => get_hall_set::<63>(grow),
        64 => get_hall_set::<64>(grow),
        65 => get_hall_set::<65>(grow),
        66 => get_hall_set::<66>(grow),
        100 => get_hall_set::<100>(grow),
        127 => get_hall_set::<127>(grow),
        128 => get_hall_set::<128>(grow),
        129 => get_hall_set::<129>(grow),
        130 => get_hall_set::<130>(grow),
        255 => get_hall_set::<255>(grow),
        256 => get_hall_set::<256>(grow),
        257 => get_hall_set::<257>(grow),
        258 => get_hall_set::<258>(grow),
        511 => get_hall_set::<511>(grow),
        512 => get_hall_set::<512>(grow),
        513 => get_hall_set::<513>(grow),
        514 => get_hall_set::<514>(grow),
        1023 => get_hall_set::<1023>(grow),
        1024 => get_hall_set::<1024>(grow),
        1025 => get_hall_set::<1025>(grow),
        1026 => get_hall_set::<1026>(grow),
        2047 => get_hall_set::<2047>(grow),
        2048 => get_hall_set::<2048>(grow),
        2049 => get_hall_set::<2049>(grow),
        2050 => get_hall_set::<2050>(grow),
        4095 => get_hall_set::<4095>(grow),
        4096 => get_hall_set::<4096>(grow),
        4097 => get_hall_set::<4097>(grow),
        4098 => get_hall_set::<4098>(grow),
        8191 => get_hall_set::<8191>(grow),
        8192 => get_hall_set::<8192>(grow),
        8193 => get_hall_set::<8193>(grow),
        8194 => get_hall_set::<8194>(grow),
        16383 => get_hall_set::<16383>(grow),
        16384 => get_hall_set::<16384>(grow),
        16385 => get_hall_set::<16385>(grow),
        16386 => get_hall_set::<16386>(grow),
        32767 => get_hall_set::<32767>(grow),
        32768 => get_hall_set::<32768>(grow),
        32769 => get_hall_set::<32769>(grow),
        32770 => get_hall_set::<32770>(grow),
        65535 => get_hall_set::<65535>(grow),
        65536 => get_hall_set::<65536>(grow),
        65537 => get_hall_set::<65537>(grow),
        65538 => get_hall_set::<65538>(grow),
        131071 => get_hall_set::<131071>(grow),
        131072 => get_hall_set::<131072>(grow),
        131073 => get_hall_set::<131073>(grow),
        131074 => get_hall_set::<131074>(grow),
        262143 => get_hall_set::<262143>(grow),
        262144 => get_hall_set::<262144>(grow),
        262145 => get_hall_set::<262145>(grow),
        262146 => get_hall_set::<262146>(grow),
        524287 => get_hall_set::<524287>(grow),
        524288 => get_hall_set::<524288>(grow),
        524289 => get_hall_set::<524289>(grow),
        524290 => get_hall_set::<524290>(grow),
        1048575 => get_hall_set::<1048575>(grow),
        1048576 => get_hall_set::<1048576>(grow),
        1048577 => get_hall_set::<1048577>(grow),
        1048578 => get_hall_set::<1048578>(grow),
        2097151 => get_hall_set::<2097151>(grow),
        2097152 => get_hall_set::<2097152>(grow),
        2097153 => get_hall_set::<2097153>(grow),
        2097154 => get_hall_set::<2097154>(grow),
        4194303 => get_hall_set::<4194303>(grow),
        4194304 => get_hall_set::<4194304>(grow),
        4194305 => get_hall_set::<4194305>(grow),
        4194306 => get_hall_set::<4194306>(grow),
        8388607 => get_hall_set::<8388607>(grow),
        8388608 => get_hall_set::<8388608>(grow),
        8388609 => get_hall_set::<8388609>(grow),
        8388610 => get_hall_set::<8388610>(grow),
        16777215 => get_hall_set::<16777215>(grow),
        16777216 => get_hall_set::<16777216>(grow),
        16777217 => get_hall_set::<16777217>(grow),
        16777218 => get_hall_set::<16777218>(grow),
        33554431 => get_hall_set::<33554431>(grow),
        33554432 => get_hall_set::<33554432>(grow),
        33554433 => get_hall_set::<33554433>(grow),
        33554434 => get_hall_set::<33554434>(grow),
        67108863 => get_hall_set::<67108863>(grow),
        67108864 => get_hall_set::<67108864>(grow),
        67108865 => get_hall_set::<67108865>(grow),
        67108866 => get_hall_set::<67108866>(grow),
        134217727 => get_hall_set::<134217727>(grow),
        134217728 => get_hall_set::<134217728>(grow),
        134217729 => get_hall_set::<134217729>(grow),
        134217730 => get_hall_set::<134217730>(grow),
        268435455 => get_hall_set::<268435455>(grow),
        268435456 => get_hall_set::<268435456>(grow),
        268435457 => get_hall_set::<268435457>(grow),
        268435458 => get_hall_set::<268435458>(grow),
        536870911 => get_hall_set::<536870911>(grow),
        536870912 => get_hall_set::<536870912>(grow),
        536870913 => get_hall_set::<536870913>(grow),
        536870914 => get_hall_set::<536870914>(grow),
        1073741823 => get_hall_set::<1073741823>(grow),
        1073741824 => get_hall_set::<1073741824>(grow),
        1073741825 => get_hall_set::<1073741825>(grow),
        1073741826 => get_hall_set::<1073741826>(grow),
        2147483647 => get_hall_set::<2147483647>(grow),
        2147483648 => get_hall_set::<2147483648>(grow),
        2147483649 => get_hall_set::<2147483649>(grow),
        2147483650 => get_hall_set::<2147483650>(grow),
        4294967294 => get_hall_set::<4294967294>(grow),
        4294967295 => get_hall_set::<4294967295>(grow),
        _ => unreachable!(),
    }
}
/// Everything a Hall set answers (each answer takes and releases its lock).
fn answers(h: &HallSetObject, w: u32, all: bool) -> Vec<String> {
    let mut v = vec![];
    let keys: Vec<u64> = if all { vec![0, 1, 2, 3, 30, 31, 1000, u64::MAX] } else { vec![w as u64] };
    for k in keys {
        v.push(format!("{:?}", h.is_letter(k)));
        if all {
            v.push(format!("{:?} {:?} {:?}", h.key_details(k), h.lparent_details(k), h.rparent_details(k)));
        }
    }
    if all {
        for d in [0, 1, 2, 3, 7, 19, 29, 30, 100] {
            v.push(format!("{:?}", h.degree_range(d)));
        }
    } else {
        v.push(format!("{:?} {:?}", h.key_details(0), h.degree_range(0)));
    }
    v
}
/// The answers to a thread that is alone: another process runs just that.
fn alone(w: u32, all: bool) -> Vec<String> {
    EXPECTED.lock().unwrap().iter().find(|x| x.0 == w && x.1 == all).map(|x| x.2.clone()).expect("prepared")
}
static EXPECTED: Mutex<Vec<(u32, bool, Vec<String>)>> = Mutex::new(vec![]);

fn prepare(ws: &[u32], all_answers: bool) {
    for &w in ws {
        static WIDTH: Mutex<(u32, bool)> = Mutex::new((0, false));
        *WIDTH.lock().unwrap() = (w, all_answers);
        fn body() {
            let (w, a) = *WIDTH.lock().unwrap();
            tell(&answers(&get(w, None), w, a).join("\n"));
        }
        init();
        let m = shared();
        let r = execute(&[], body);
        // A request by a single thread has to work too.
        case(
            || format!("one thread requests the Hall set of width {}", w),
            || match &r.bad {
                Some(b) => Err(b.clone()),
                None => Ok(()),
            },
        );
        let text = String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).to_string();
        EXPECTED.lock().unwrap().push((w, all_answers, text.split('\n').map(|s| s.to_string()).collect()));
    }
}
/// What one thread does, step by step.
#[derive(Clone, Copy, Debug)]
enum Do {
    /// Request the Hall set of the width.
    Get(u32, Option<u32>),
    /// Ask the last one obtained a few things.
    Use,
    /// Ask it everything.
    UseAll,
    /// Let go of all handles.
    Drop,
}
use Do::*;

/// Run the threads, main taking part as the last one if told so, and compare what they saw.
fn threads(programs: &'static [&'static [Do]], before: &'static [Do], after: &'static [Do]) {
    let perform = |who: u64, p: &[Do]| -> Vec<(u32, usize, Option<HallSetObject>)> {
        let mut got: Vec<(u32, usize, Option<HallSetObject>)> = vec![];
        for d in p {
            match *d {
                Get(w, g) => {
                    let h = get(w, g);
                    log(who);
                    got.push((w, h.vp_identity(), Some(h)));
                }
                Use | UseAll => {
                    let (w, _, h) = got.last().unwrap();
                    let full = matches!(d, UseAll);
                    let a = answers(h.as_ref().unwrap(), *w, full);
                    let e = alone(*w, full);
                    assert!(a == e, "the Hall set of width {} answers {:?} instead of {:?} when used by a single thread", w, a, e);
                    log(who + 10);
                }
                Drop => {
                    for g in got.iter_mut() {
                        g.2 = None;
                    }
                }
            }
        }
        got
    };
    let mut seen = perform(0, before);
    let hs: Vec<_> = programs.iter().enumerate().map(|(i, p)| shuttle::thread::spawn(move || perform(i as u64 + 1, p))).collect();
    for h in hs {
        seen.extend(h.join().expect("thread"));
    }
    seen.extend(perform(9, after));
    for (i, a) in seen.iter().enumerate() {
        for b in &seen[..i] {
            if a.0 == b.0 {
                assert!(a.1 == b.1, "two requests for the Hall set of width {} obtained different Hall sets", a.0);
            } else {
                assert!(a.1 != b.1, "requests for the Hall sets of widths {} and {} obtained the same Hall set", a.0, b.0);
            }
        }
    }
}

macro_rules! scenario {
    ($out:ident, $name:literal, $bounds:literal, [$($w:literal),*], ($q:expr, $t:expr), $before:expr, $programs:expr, $after:expr) => {{
        fn body() {
            threads($programs, $before, $after)
        }
        $out.push(group($name, $bounds, |t: Tier| {
            init();
            prepare(&[$($w),*], false);
            prepare(&[$($w),*], true);
            all($name, body, t.pick($q, $t));
        }));
    }};
}
const ALL: usize = usize::MAX;
fn main() {
    let mut v = vec![];
    scenario!(v, "two-same", "2 threads, one request each for the same width, all schedules", [2], (ALL, ALL), &[], &[&[Get(2, None)], &[Get(2, None)]], &[Get(2, None), UseAll]);
    scenario!(v, "two-different", "2 threads, one request each for different widths, all schedules", [2, 3], (ALL, ALL), &[], &[&[Get(2, None)], &[Get(3, None)]], &[Get(3, None), UseAll, Get(2, None), UseAll]);
    scenario!(v, "two-grown", "2 threads, requests with and without an initial degree", [2], (ALL, ALL), &[], &[&[Get(2, Some(5))], &[Get(2, None)]], &[Get(2, Some(7)), UseAll]);
    scenario!(v, "two-use", "2 threads, request and use", [2], (4, 6), &[], &[&[Get(2, None), Use], &[Get(2, None), Use]], &[]);
    scenario!(v, "two-twice", "2 threads, two requests each", [3], (6, ALL), &[], &[&[Get(3, None), Get(3, None)], &[Get(3, None), Drop, Get(3, None)]], &[]);
    scenario!(v, "two-crossed", "2 threads request two widths in opposite order", [1, 30], (5, ALL), &[], &[&[Get(1, None), Get(30, None)], &[Get(30, None), Get(1, None)]], &[]);
    scenario!(v, "warm", "2 threads request a Hall set that is already there and a new one", [2, 3], (4, 5), &[Get(2, None)], &[&[Get(2, None), Use, Get(3, None)], &[Get(3, None), Get(2, None), Use]], &[]);
    scenario!(v, "dropped", "handles dropped before others request", [2], (ALL, ALL), &[Get(2, None), Drop], &[&[Get(2, None), Drop, Get(2, None)], &[Get(2, None), Drop]], &[Get(2, None)]);
    scenario!(v, "readers", "2 threads ask everything of one Hall set while a third requests another", [2, 3], (2, 3), &[Get(2, None)], &[&[Get(2, None), UseAll], &[Get(2, None), Use], &[Get(3, None)]], &[]);
    scenario!(v, "three-same", "3 threads, one request each for the same width", [2], (3, 4), &[], &[&[Get(2, None)], &[Get(2, None)], &[Get(2, None)]], &[Get(2, None)]);
    scenario!(v, "three-mixed", "3 threads, two widths", [2, 3], (2, 4), &[], &[&[Get(2, None), Get(3, None)], &[Get(3, None)], &[Get(2, None)]], &[Get(2, None), Get(3, None)]);
    scenario!(v, "four-same", "4 threads, one request each for the same width", [30], (1, 2), &[], &[&[Get(30, None)], &[Get(30, None)], &[Get(30, None)], &[Get(30, None)]], &[Get(30, None)]);
    scenario!(v, "two-far", "2 threads, requests for widths that agree in their low bits", [1, 257, 65537], (4, 6), &[], &[&[Get(1, None), Get(257, None)], &[Get(257, None), Get(65537, None), Get(1, None)]], &[Get(1, None), UseAll, Get(257, None), UseAll, Get(65537, None), UseAll]);
    v.push(group("many-widths", "one thread requests the Hall sets of all widths of a list (small ones and both sides of every power of two up to 2^32-1), forwards and backwards", |_| {
        init();
        fn body() {
            let hs: Vec<HallSetObject> = WIDTHS.iter().map(|w| get(*w, None)).collect();
            let again: Vec<HallSetObject> = WIDTHS.iter().rev().map(|w| get(*w, Some(2))).collect();
            for (i, a) in WIDTHS.iter().enumerate() {
                for (j, b) in WIDTHS.iter().enumerate() {
                    let same = hs[i].vp_identity() == again[WIDTHS.len() - 1 - j].vp_identity();
                    assert!(same == (i == j), "the Hall sets of widths {} and {}: same {}", a, b, same);
                }
                for k in [0, 1, 2, *a as u64 - 1, *a as u64, *a as u64 + 1] {
                    assert!(hs[i].is_letter(k).unwrap() == (k >= 1 && k <= *a as u64), "width {}: key {} as a letter", a, k);
                }
            }
        }
        all("many-widths", body, 0);
    }));
    ctx::main(v);
}
