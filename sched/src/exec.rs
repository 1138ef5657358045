//! Executions of a multi-threaded program under given schedules, each in a process of its own, and the
//! enumeration of all schedules.
use crate::ctx::{alive, case, outcome, state, step};
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use shuttle::{Config, Runner};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- one execution
const STEPS: usize = 20_000;
#[repr(C)]
pub struct Shared {
    len: u32,
    done: u32,
    pub msg_len: u32,
    log_len: u32,
    /// (enabled, chosen, whether the running thread could go on)
    steps: [[u8; 3]; STEPS],
    pub msg: [u8; 1 << 16],
    log: [u64; 256],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}
pub fn tell(s: &str) {
    let m = shared();
    if m.msg_len == 0 {
        let b = s.as_bytes();
        let n = b.len().min(m.msg.len());
        m.msg[..n].copy_from_slice(&b[..n]);
        m.msg_len = n as u32;
    }
}
/// Something a thread saw, in the order in which it was seen (no scheduling point).
pub fn log(x: u64) {
    let m = shared();
    if (m.log_len as usize) < m.log.len() {
        m.log[m.log_len as usize] = x;
        m.log_len += 1;
    }
}

/// Follows the given choices, then always the first; notes what there was to choose from.
struct Follow {
    prefix: Vec<u8>,
    started: bool,
}
impl Scheduler for Follow {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.started {
            return None;
        }
        self.started = true;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        // The running thread first, unless it asked to wait; then the others in turn.
        let mut ids: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        ids.sort();
        let mut goes_on = false;
        if let Some(c) = current {
            if let Some(p) = ids.iter().position(|i| *i == c) {
                ids.remove(p);
                if yielding {
                    ids.push(c);
                } else {
                    ids.insert(0, c);
                    goes_on = true;
                }
            }
        }
        let m = shared();
        let n = m.len as usize;
        if n >= STEPS {
            tell("a thread never gets anywhere (too many steps)");
            unsafe { libc::_exit(2) }
        }
        let c = self.prefix.get(n).copied().unwrap_or(0);
        if c as usize >= ids.len() {
            tell("DIVERGED");
            unsafe { libc::_exit(4) }
        }
        m.steps[n] = [ids.len() as u8, c, goes_on as u8];
        m.len += 1;
        Some(ids[c as usize])
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

pub struct Run {
    pub steps: Vec<[u8; 3]>,
    pub bad: Option<String>,
    pub log: Vec<u64>,
}
pub type Body = fn();

pub fn execute(prefix: &[u8], body: Body) -> Run {
    let m = shared();
    m.len = 0;
    m.done = 0;
    m.msg_len = 0;
    m.log_len = 0;
    let status = unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::alarm(20);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            std::panic::set_hook(Box::new(|i| {
                let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                tell(&msg);
                libc::_exit(2);
            }));
            let mut config = Config::new();
            config.stack_size = 1 << 18;
            config.silence_warnings = true;
            config.failure_persistence = shuttle::FailurePersistence::None;
            let f = Follow { prefix: prefix.to_vec(), started: false };
            let r = catch_unwind(AssertUnwindSafe(|| Runner::new(f, config).run(body)));
            shared().done = r.is_ok() as u32;
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        st
    };
    let m = shared();
    let msg = String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).to_string();
    if msg == "DIVERGED" {
        panic!("the same schedule went differently the second time");
    }
    let bad = if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        if s == libc::SIGKILL {
            panic!("an execution was killed");
        }
        Some(if s == libc::SIGALRM { "a request never returns".to_string() } else { format!("the process died of signal {}", s) })
    } else if m.done != 1 {
        Some(msg)
    } else {
        None
    };
    Run { steps: m.steps[..m.len as usize].to_vec(), bad, log: m.log[..m.log_len as usize].to_vec() }
}

// ---------------------------------------------------------------- all schedules
struct Explorer {
    name: &'static str,
    body: Body,
    bound: usize,
}
impl Explorer {
    fn explore(&self, prefix: Vec<u8>, expect: &[[u8; 3]]) {
        let mut run = None;
        state(&(self.name, &prefix));
        case(
            || format!("{}, schedule (0: the running thread goes on, n: another thread) {:?} then 0s", self.name, prefix),
            || {
                let r = execute(&prefix, self.body);
                step(r.steps.len() as u64);
                outcome(&r.log);
                let bad = r.bad.clone();
                run = Some(r);
                match bad {
                    // Make sure that it is the schedule.
                    Some(b) => match execute(&prefix, self.body).bad {
                        Some(_) => Err(b),
                        None => panic!("the failure {:?} did not repeat", b),
                    },
                    None => Ok(()),
                }
            },
        );
        alive();
        let run = run.unwrap();
        for (a, b) in expect.iter().zip(&run.steps) {
            assert!(a[0] == b[0] && a[2] == b[2], "the same schedule prefix offered different choices");
        }
        let mut cost: usize = run.steps[..prefix.len()].iter().filter(|s| s[2] == 1 && s[1] != 0).count();
        for i in prefix.len()..run.steps.len() {
            let s = run.steps[i];
            if cost + s[2] as usize <= self.bound {
                for alt in 1..s[0] {
                    let mut p: Vec<u8> = run.steps[..i].iter().map(|s| s[1]).collect();
                    p.push(alt);
                    self.explore(p, &run.steps[..i + 1]);
                }
            }
            cost += (s[2] == 1 && s[1] != 0) as usize;
        }
    }
}
pub fn all(name: &'static str, body: Body, bound: usize) {
    // The same schedule twice gives the same observations.
    let (a, b) = (execute(&[], body), execute(&[], body));
    assert!(a.steps == b.steps && a.log == b.log, "uncontrolled nondeterminism");
    let bound = std::env::var("VP_BOUND").ok().map_or(bound, |b| b.parse().unwrap());
    Explorer { name, body, bound }.explore(vec![], &[]);
}
pub fn init() {
    if unsafe { SHARED.is_null() } {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            SHARED = p as *mut Shared;
        }
    }
}
