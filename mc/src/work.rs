//! Worker processes, shared counters, crash and hang detection.

use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub const MAXW: usize = 16;
pub const TEXT: usize = 1 << 20;
// only what is written takes up memory
pub const VIOL: usize = 1 << 26;

#[repr(C)]
pub struct WShared {
    pub seq: AtomicU64,
    pub in_impl: AtomicU32,
    pub done: AtomicU32,
    pub len: AtomicU32,
    pub viol_len: AtomicU32,
    pub viols: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub runs: AtomicU64,
    pub accepted: AtomicU64,
    pub rejected: AtomicU64,
    pub open: AtomicU64,
    pub automaton: AtomicU64,
    pub truncated: AtomicU32,
    pub sample_len: AtomicU32,
    pub text: [u8; TEXT],
    pub viol: [u8; VIOL],
    pub sample: [u8; 4096],
}
#[repr(C)]
pub struct Shared {
    pub next: AtomicU64,
    pub stop: AtomicU32,
    pub timeup: AtomicU32,
    pub w: [WShared; MAXW],
}

/// What a worker sees.
pub struct Ctl {
    pub sh: &'static Shared,
    pub id: usize,
    pub all: bool,
    pub n_samples: u32,
    pub known: &'static std::collections::HashSet<String>,
}
impl Ctl {
    pub fn me(&self) -> &'static WShared {
        &self.sh.w[self.id]
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed) != 0
    }
    pub fn enter(&self, text: &str) {
        let m = self.me();
        let n = text.len().min(TEXT);
        unsafe {
            std::ptr::copy_nonoverlapping(text.as_ptr(), m.text.as_ptr() as *mut u8, n);
        }
        m.len.store(n as u32, Relaxed);
        m.in_impl.store(1, Release);
    }
    pub fn leave(&self) {
        let m = self.me();
        m.in_impl.store(0, Release);
        m.seq.store(m.seq.load(Relaxed) + 1, Relaxed);
    }
    pub fn add(c: &AtomicU64, n: u64) {
        c.store(c.load(Relaxed) + n, Relaxed);
    }
    pub fn sample(&mut self, text: &str) {
        // the 1st, 10th, 100th, ... case of each worker
        let r = self.me().runs.load(Relaxed);
        let mut p = 1;
        while p < r {
            p *= 10;
        }
        if p != r || self.n_samples >= 12 || text.len() > 300 || text.contains('\0') {
            return;
        }
        self.n_samples += 1;
        let m = self.me();
        let o = m.sample_len.load(Relaxed) as usize;
        let n = text.len();
        if o + n + 1 < m.sample.len() {
            unsafe {
                let d = m.sample.as_ptr() as *mut u8;
                std::ptr::copy_nonoverlapping(text.as_ptr(), d.add(o), n);
                *d.add(o + n) = 0;
            }
            m.sample_len.store((o + n + 1) as u32, Relaxed);
        }
    }
    pub fn violation(&self, text: &str, what: &str) {
        if self.known.contains(text) {
            return;
        }
        let m = self.me();
        m.viols.store(m.viols.load(Relaxed) + 1, Relaxed);
        let mut rec: Vec<u8> = vec![];
        rec.extend((what.len() as u32).to_le_bytes());
        rec.extend((text.len() as u32).to_le_bytes());
        rec.extend(what.as_bytes());
        rec.extend(text.as_bytes());
        let o = m.viol_len.load(Relaxed) as usize;
        if o + rec.len() < VIOL {
            unsafe {
                let d = m.viol.as_ptr() as *mut u8;
                std::ptr::copy_nonoverlapping(rec.as_ptr(), d.add(o), rec.len());
            }
            m.viol_len.store((o + rec.len()) as u32, Relaxed);
        } else if self.all {
            self.sh.stop.store(1, Relaxed);
        }
        if !self.all {
            self.sh.stop.store(1, Relaxed);
        }
    }
}

#[derive(Default, Debug)]
pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub open: u64,
    pub automaton: u64,
    pub units: u64,
    pub truncated: bool,
    pub samples: Vec<String>,
    pub viols: Vec<(String, String)>,
    pub nviols: u64,
    pub error: Option<String>,
}

pub fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

/// Child-process set-up: silent output, bounded memory, no core files.
fn child_setup() {
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(n, 1);
        if std::env::var_os("MC_STDERR").is_none() {
            libc::dup2(n, 2);
        }
        let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    if std::env::var_os("MC_STDERR").is_none() { std::panic::set_hook(Box::new(|_| {})); }
}

pub const STACK: usize = 16 << 20;

/// Run `f` in a forked child. Ok(code) or Err(signal or hang).
pub fn isolated<F: FnOnce() -> i32 + Send + 'static>(limit: Duration, stack: usize, f: F) -> Result<i32, String> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            child_setup();
            let h = std::thread::Builder::new().stack_size(stack).spawn(f).unwrap();
            let c = h.join().unwrap_or(99);
            libc::_exit(c);
        }
        let t0 = Instant::now();
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                if libc::WIFEXITED(st) {
                    return Ok(libc::WEXITSTATUS(st));
                }
                return Err(format!("killed by signal {}", libc::WTERMSIG(st)));
            }
            if t0.elapsed() > limit {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return Err("does not end".into());
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// Fork `nw` workers over units 0..n of `mk()`'s unit runner.
pub fn run_workers(
    nw: usize,
    n_units: u64,
    all: bool,
    deadline: Option<Instant>,
    known: &'static std::collections::HashSet<String>,
    run: &(dyn Fn(u64, &mut Ctl, &mut dyn std::any::Any) + Sync),
    mk: &(dyn Fn() -> Box<dyn std::any::Any> + Sync),
    finish: &(dyn Fn(&mut Ctl, &mut dyn std::any::Any) + Sync),
    confirm: &dyn Fn(&str) -> Result<i32, String>,
) -> Totals {
    let sh = shared();
    let mut pids = vec![];
    for id in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            child_setup();
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, || {
                        let mut ctl = Ctl { sh, id, all, n_samples: 0, known };
                        let mut st = mk();
                        loop {
                            if ctl.stopped() || sh.timeup.load(Relaxed) != 0 {
                                break;
                            }
                            let u = sh.next.fetch_add(1, Relaxed);
                            if u >= n_units {
                                break;
                            }
                            run(u, &mut ctl, &mut *st);
                        }
                        finish(&mut ctl, &mut *st);
                        ctl.me().done.store(1, Release);
                        0
                    })
                    .unwrap()
                    .join()
                    .unwrap_or(98)
            });
            unsafe { libc::_exit(r) };
        }
        pids.push(pid);
    }
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
    let mut alive = vec![true; nw];
    let mut tot = Totals::default();
    let text_of = |w: &WShared| {
        let n = w.len.load(Relaxed) as usize;
        String::from_utf8_lossy(&w.text[..n]).into_owned()
    };
    let mut suspects: Vec<(String, String)> = vec![];
    while alive.iter().any(|&a| a) {
        std::thread::sleep(Duration::from_millis(10));
        for i in 0..nw {
            if !alive[i] {
                continue;
            }
            let w = &sh.w[i];
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) };
            if r == pids[i] {
                alive[i] = false;
                let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && w.done.load(Acquire) == 1;
                if !ok {
                    if w.in_impl.load(Acquire) == 1 {
                        suspects.push((text_of(w), format!("worker status {:#x}", st)));
                    } else {
                        tot.error = Some(format!("worker {} died with status {:#x} after {:?}", i, st, text_of(w)));
                    }
                    sh.stop.store(1, Relaxed);
                }
                continue;
            }
            let s = w.seq.load(Relaxed);
            if s != last[i].0 || w.in_impl.load(Relaxed) == 0 {
                last[i] = (s, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(10) {
                suspects.push((text_of(w), "no progress for 10 s".into()));
                unsafe {
                    libc::kill(pids[i], libc::SIGKILL);
                    libc::waitpid(pids[i], &mut st, 0);
                }
                alive[i] = false;
                sh.stop.store(1, Relaxed);
            }
        }
        if let Some(d) = deadline {
            if Instant::now() > d && sh.timeup.load(Relaxed) == 0 {
                sh.timeup.store(1, Relaxed);
            }
        }
    }
    for (text, why) in suspects {
        // one is enough
        if !all && tot.nviols > 0 {
            break;
        }
        match confirm(&text) {
            Ok(c) => tot.error = Some(format!("{} on {:?}, but a fresh run ends with {}", why, text, c)),
            Err(e) => {
                tot.nviols += 1;
                tot.viols.push((format!("the code under test {} on this text", e), text))
            }
        }
    }
    tot.units = sh.next.load(Relaxed).min(n_units);
    tot.truncated = sh.timeup.load(Relaxed) != 0;
    for i in 0..nw {
        let w = &sh.w[i];
        tot.states += w.states.load(Relaxed);
        tot.transitions += w.transitions.load(Relaxed);
        tot.runs += w.runs.load(Relaxed);
        tot.accepted += w.accepted.load(Relaxed);
        tot.rejected += w.rejected.load(Relaxed);
        tot.open += w.open.load(Relaxed);
        tot.nviols += w.viols.load(Relaxed);
        tot.automaton = tot.automaton.max(w.automaton.load(Relaxed));
        let n = w.sample_len.load(Relaxed) as usize;
        for s in w.sample[..n].split(|&b| b == 0) {
            if !s.is_empty() {
                tot.samples.push(String::from_utf8_lossy(s).into_owned());
            }
        }
        let n = w.viol_len.load(Relaxed) as usize;
        let mut o = 0;
        while o + 8 <= n {
            let g = |i: usize| u32::from_le_bytes(w.viol[i..i + 4].try_into().unwrap()) as usize;
            let (a, b) = (g(o), g(o + 4));
            o += 8;
            let st = |i: usize, l: usize| String::from_utf8_lossy(&w.viol[i..i + l]).into_owned();
            tot.viols.push((st(o, a), st(o + a, b)));
            o += a + b;
        }
    }
    if tot.nviols > 0 && tot.viols.is_empty() {
        tot.viols.push(("fails on a text that is too long to be recorded".into(), String::new()));
    }
    unsafe {
        libc::munmap(sh as *const _ as *mut _, std::mem::size_of::<Shared>());
    }
    tot
}
