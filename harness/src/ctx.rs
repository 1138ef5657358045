//! The explorer's bookkeeping: numbered cases, progress for the supervisor,
//! counters for the evidence, verdicts.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// q in the quick tier, t in the thorough one.
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Group {
    pub name: String,
    pub bounds: &'static str,
    pub run: Box<dyn Fn(Tier) + Send>,
}
pub fn group(name: impl Into<String>, bounds: &'static str, run: impl Fn(Tier) + Send + 'static) -> Group {
    Group { name: name.into(), bounds, run: Box::new(run) }
}

struct Ctx {
    n: u64,
    describe: Option<u64>,
    status: *mut u64,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    samples: Vec<String>,
    next_sample: u64,
    outcomes: HashSet<u64>,
    name: String,
    last_panic: String,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx {
        n: 0, describe: None, status: std::ptr::null_mut(), states: HashSet::new(),
        transitions: 0, traces: 0, samples: vec![], next_sample: 1, outcomes: HashSet::new(),
        name: String::new(), last_panic: String::new(),
    });
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// How a step of the code under test ended.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| CTX.with(|c| c.borrow().last_panic.clone()))
}

/// One numbered case: `f` runs the code under test and compares it with the
/// model; an error or a panic is a violation and ends the group.
pub fn case(desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    let (n, describe, sample) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.n += 1;
        c.traces += 1;
        unsafe { std::ptr::write_volatile(c.status, c.n) };
        let s = c.n == c.next_sample;
        if s {
            c.next_sample *= 7;
        }
        (c.n, c.describe, s)
    });
    if describe == Some(n) {
        finish(Some((desc(), "the process died or hung while executing this case".into())));
    }
    if sample {
        let d = desc();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.samples.len() < 8 {
                c.samples.push(if d.chars().count() > 600 { d.chars().take(600).collect::<String>() + " ..." } else { d })
            }
        });
    }
    let r = match caught(f) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", p)),
    };
    if let Err(e) = r {
        finish(Some((desc(), e)));
    }
}

/// Count `k` executed operations of the code under test.
pub fn step(k: u64) {
    CTX.with(|c| c.borrow_mut().transitions += k);
}
/// Record a state (or input) of the explored space; returns whether it is new.
pub fn state<H: Hash + ?Sized>(h: &H) -> bool {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    CTX.with(|c| c.borrow_mut().states.insert(s.finish()))
}
/// Record an observed outcome, to show that the exploration is not vacuous.
pub fn outcome<H: Hash + ?Sized>(h: &H) {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.outcomes.len() < 2_000_000 {
            c.outcomes.insert(s.finish());
        }
    });
}
/// Touch the progress counter without starting a case.
pub fn alive() {
    CTX.with(|c| {
        let c = c.borrow();
        unsafe { std::ptr::write_volatile(c.status.add(1), std::ptr::read_volatile(c.status.add(1)) + 1) };
    });
}

fn finish(violation: Option<(String, String)>) -> ! {
    let (line, code) = CTX.with(|c| {
        let c = c.borrow();
        let v = match &violation {
            None => "null".to_string(),
            Some((d, e)) => format!("{{\"case\":{},\"what\":{},\"detail\":{}}}", c.n, jstr(d), jstr(e)),
        };
        let s: Vec<String> = c.samples.iter().map(|s| jstr(s)).collect();
        (
            format!(
                "{{\"group\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"outcomes\":{},\"samples\":[{}],\"violation\":{}}}",
                jstr(&c.name), c.traces, c.states.len(), c.transitions, c.outcomes.len(), s.join(","), v
            ),
            if violation.is_some() { 10 } else { 0 },
        )
    });
    println!("RESULT {}", line);
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    unsafe { libc::_exit(code) }
}

/// Entry point of a check: `--list --tier T`, or `--group G --tier T --status FILE [--describe N]`.
pub fn main(groups: Vec<Group>) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    if args.iter().any(|a| a == "--list") {
        for g in &groups {
            println!("GROUP {{\"name\":{},\"bounds\":{}}}", jstr(&g.name), jstr(g.bounds));
        }
        return;
    }
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let name = opt("--group").expect("--group");
    let describe = opt("--describe").map(|s| s.parse().unwrap());
    let status = match opt("--status") {
        Some(f) => unsafe {
            let path = std::ffi::CString::new(f).unwrap();
            let fd = libc::open(path.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
            assert!(fd >= 0);
            assert!(libc::ftruncate(fd, 16) == 0);
            let p = libc::mmap(std::ptr::null_mut(), 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut u64
        },
        None => Box::leak(Box::new([0u64; 2])).as_mut_ptr(),
    };
    let g = groups.into_iter().find(|g| g.name == name).expect("no such group");
    let status = status as usize;
    // A thread of its own, with a stack that ordinary recursion does not exhaust.
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            std::panic::set_hook(Box::new(|i| {
                let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
                if std::env::var("VP_LOUD").is_ok() {
                    eprintln!("panic: {}{}", msg, loc);
                }
                let _ = CTX.try_with(|c| {
                    if let Ok(mut c) = c.try_borrow_mut() {
                        c.last_panic = format!("{}{}", msg, loc);
                    }
                });
            }));
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                c.describe = describe;
                c.status = status as *mut u64;
                c.name = g.name.clone();
            });
            // A panic outside a case is an error of the harness, not a verdict.
            if let Err(e) = caught(|| (g.run)(tier)) {
                eprintln!("harness error: {}", e);
                unsafe { libc::_exit(3) }
            }
            finish(None)
        })
        .unwrap()
        .join()
        .unwrap();
}
