//! Case framework: a check enumerates named cases in a fixed order; worker processes claim cases
//! from a shared counter; a case that fails, crashes or hangs is a violation.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

const NW: usize = 8;
const MSG: usize = 3000;
#[repr(C)]
pub struct Slot {
    /// 1 + index of the running case (0: none)
    pub cur: AtomicU64,
    pub since_ms: AtomicU64,
    pub len: AtomicU64,
    pub name: [u8; MSG],
    /// set by the fatal handler: a message that is a verdict
    pub fatal_len: AtomicU64,
    pub fatal: [u8; MSG],
}
#[repr(C)]
pub struct Shared {
    pub next: AtomicU64,
    pub stop: AtomicU64,
    pub slots: [Slot; NW],
}

static mut SLOT: *mut Slot = std::ptr::null_mut();

/// When this process's check began, and the seconds after which explorations are cut short.
static BEGAN: std::sync::OnceLock<(Instant, f64, f64)> = std::sync::OnceLock::new();
/// After every execution: the case is alive; may its exploration go on?
fn pacer(exploring: f64) -> bool {
    unsafe {
        if !SLOT.is_null() {
            (*SLOT).since_ms.store(now_ms(), Ordering::SeqCst);
        }
    }
    let (t0, case, all) = BEGAN.get().expect("begin of the check");
    let so_far = t0.elapsed().as_secs_f64();
    exploring > *case || (exploring > 0.25 && so_far > *all) || (exploring > 0.02 && so_far > 1.4 * *all)
}

fn put(buf: &mut [u8; MSG], len: &AtomicU64, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(MSG);
    buf[..n].copy_from_slice(&b[..n]);
    len.store(n as u64, Ordering::SeqCst);
}
fn get(buf: &[u8; MSG], len: &AtomicU64) -> String {
    String::from_utf8_lossy(&buf[..(len.load(Ordering::SeqCst) as usize).min(MSG)]).into_owned()
}

fn fatal(msg: &str) -> ! {
    unsafe {
        if !SLOT.is_null() {
            let m = format!("{msg} [schedule {:?}]", simrt::current_trace());
            put(&mut (*SLOT).fatal, &(*SLOT).fatal_len, &m);
        } else {
            eprintln!("{msg} [schedule {:?}]", simrt::current_trace());
        }
        libc::_exit(101)
    }
}

/// Message left by `fatal` in a child process of this worker.
pub fn fatal_message() -> String {
    unsafe {
        if SLOT.is_null() {
            return "the child process reported a fatal condition (see stderr)".into();
        }
        let m = get(&(*SLOT).fatal, &(*SLOT).fatal_len);
        (*SLOT).fatal_len.store(0, Ordering::SeqCst);
        m
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    idx: u64,
    claimed: u64,
    only: Option<u64>,
    shared: *mut Shared,
    t0: Instant,
    pub counts: Counts,
    fails: Vec<(u64, String, String)>,
    group: String,
}

#[derive(Default, Clone)]
pub struct Counts {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub extra: std::collections::BTreeMap<String, u64>,
    pub maxima: std::collections::BTreeMap<String, f64>,
    pub groups: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub capped: bool,
}

/// Handle given to a running case.
pub struct Case<'a> {
    pub k: &'a mut Counts,
    pub tier: Tier,
    errs: Vec<String>,
}
impl Counts {
    pub fn pack(&self) -> Vec<f64> {
        let g = |k: &str| *self.extra.get(k).unwrap_or(&0) as f64;
        let m = |k: &str| *self.maxima.get(k).unwrap_or(&0.);
        vec![self.states as f64, self.transitions as f64, self.traces as f64, self.capped as u8 as f64, g("schedules"), g("scheduling_points"), g("task_switches"), g("steals"), g("executions_in_fresh_processes"), g("capped_explorations"), m("max_choices_in_one_execution"), m("max_tasks"), m("most_schedules_of_one_body"), g("memory_accesses_examined"), m("conflicting_sites")]
    }
    pub fn unpack_add(&mut self, v: &[f64]) {
        self.states += v[0] as u64;
        self.transitions += v[1] as u64;
        self.traces += v[2] as u64;
        self.capped |= v[3] != 0.;
        for (i, k) in ["schedules", "scheduling_points", "task_switches", "steals", "executions_in_fresh_processes", "capped_explorations"].iter().enumerate() {
            if v[4 + i] != 0. {
                *self.extra.entry(k.to_string()).or_default() += v[4 + i] as u64;
            }
        }
        for (i, k) in ["max_choices_in_one_execution", "max_tasks", "most_schedules_of_one_body"].iter().enumerate() {
            let e = self.maxima.entry(k.to_string()).or_insert(0.);
            *e = e.max(v[10 + i]);
        }
        if v[13] != 0. {
            *self.extra.entry("memory_accesses_examined".into()).or_default() += v[13] as u64;
            let e = self.maxima.entry("conflicting_sites".into()).or_insert(0.);
            *e = e.max(v[14]);
        }
    }
}
impl<'a> Case<'a> {
    /// for use in a child process
    pub fn detached(k: &'a mut Counts, tier: Tier) -> Self {
        Case { k, tier, errs: vec![] }
    }
    pub fn errors(&mut self) -> Vec<String> {
        std::mem::take(&mut self.errs)
    }
    /// distinct (object, argument) states put through the code under test
    pub fn state(&mut self, n: u64) {
        self.k.states += n
    }
    /// operations of the code under test executed
    pub fn step(&mut self, n: u64) {
        self.k.transitions += n
    }
    /// complete executions compared with the reference
    pub fn trace(&mut self, n: u64) {
        self.k.traces += n
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.k.extra.entry(k.into()).or_default() += n
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.k.maxima.entry(k.into()).or_insert(0.);
        if v > *e {
            *e = v
        }
    }
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.errs.len() < 4 {
            self.errs.push(m.into())
        }
    }
    pub fn failed(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn check(&mut self, ok: bool, m: impl FnOnce() -> String) {
        if !ok {
            self.fail(m())
        }
    }
    pub fn sched(&mut self, s: &simrt::Stats) {
        self.add("schedules", s.execs);
        self.add("scheduling_points", s.points);
        self.add("task_switches", s.switches);
        self.add("steals", s.steals);
        self.k.states += s.choices + s.execs;
        self.k.transitions += s.switches + s.execs;
        self.k.traces += s.execs;
        if s.capped {
            self.k.capped = true;
            self.add("capped_explorations", 1);
        }
        if s.diverged > 0 {
            self.fail("MACHINERY: a replayed schedule diverged");
        }
        self.max("max_choices_in_one_execution", s.max_choices as f64);
        self.max("max_tasks", s.max_tasks as f64);
        if s.accesses > 0 {
            self.add("memory_accesses_examined", s.accesses);
            self.max("conflicting_sites", s.racy_sites as f64);
        }
    }
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Label for the cases that follow (only used to report coverage).
    pub fn group(&mut self, g: &str) {
        self.group = g.to_string()
    }
    pub fn case(&mut self, name: impl Fn() -> String, f: impl FnOnce(&mut Case)) {
        let idx = self.idx;
        self.idx += 1;
        match self.only {
            Some(o) => {
                if o != idx {
                    return;
                }
            }
            None => {
                if idx != self.claimed {
                    return;
                }
                unsafe {
                    if (*self.shared).stop.load(Ordering::Relaxed) != 0 {
                        return;
                    }
                    self.claimed = (*self.shared).next.fetch_add(1, Ordering::SeqCst);
                }
            }
        }
        let nm = name();
        unsafe {
            if !SLOT.is_null() {
                put(&mut (*SLOT).name, &(*SLOT).len, &nm);
                (*SLOT).since_ms.store(now_ms(), Ordering::SeqCst);
                (*SLOT).cur.store(idx + 1, Ordering::SeqCst);
            }
        }
        let before = self.counts.transitions;
        let mut c = Case { k: &mut self.counts, tier: self.tier, errs: vec![] };
        let t = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        crate::alloc::reset();
        if let Err(e) = r {
            c.errs.push(format!("panicked: {}", simrt::panic_msg(&*e)));
        }
        let errs = std::mem::take(&mut c.errs);
        self.counts.cases += 1;
        *self.counts.groups.entry(self.group.clone()).or_default() += 1;
        let dt = t.elapsed().as_secs_f64();
        let e = self.counts.maxima.entry("slowest_case_s".into()).or_insert(0.);
        if dt > *e {
            *e = dt
        }
        if self.only.is_some() || std::env::var("FSMC_VERBOSE").is_ok() {
            eprintln!("case {idx} {nm}: {dt:.3}s, {} operations", self.counts.transitions - before);
        }
        let n_samples = self.counts.samples.len();
        if n_samples < 3 || (n_samples < 6 && idx % 97 == 0) {
            self.counts.samples.push(nm.clone());
        }
        for e in errs {
            self.fails.push((idx, nm.clone(), e));
        }
        unsafe {
            if !SLOT.is_null() {
                (*SLOT).cur.store(0, Ordering::SeqCst);
                if self.fails.len() > 40 {
                    (*self.shared).stop.store(1, Ordering::SeqCst);
                }
            }
        }
    }
    fn report(&self) -> String {
        let mut s = String::new();
        let k = &self.counts;
        for (n, v) in [("cases", k.cases), ("states", k.states), ("transitions", k.transitions), ("traces", k.traces), ("total", self.idx), ("capped", k.capped as u64)] {
            s += &format!("N\t{n}\t{v}\n");
        }
        for (n, v) in &k.extra {
            s += &format!("X\t{n}\t{v}\n");
        }
        for (n, v) in &k.groups {
            s += &format!("G\t{n}\t{v}\n");
        }
        for (n, v) in &k.maxima {
            s += &format!("M\t{n}\t{v:e}\n");
        }
        for n in &k.samples {
            s += &format!("S\t{}\n", clean(n));
        }
        for (i, n, m) in &self.fails {
            s += &format!("F\t{i}\t{}\t{}\n", clean(n), clean(m));
        }
        s += &format!("T\t{}\n", self.t0.elapsed().as_secs_f64());
        s
    }
}
fn clean(s: &str) -> String {
    s.replace(['\t', '\n', '\r'], " ")
}

pub type CheckFn = fn(&mut Ctx);

fn usage() -> ! {
    eprintln!("usage: fsmc check <ID> | fsmc replay <FILE> | fsmc list");
    std::process::exit(2)
}

/// JSON string
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

pub struct CheckDef {
    pub id: &'static str,
    pub f: CheckFn,
    /// the bounds of the exploration and what a state, a transition and a trace are
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn main(defs: &[CheckDef]) -> ! {
    // replay recorded scheduling/allocation hooks need the handler early
    simrt::set_fatal(fatal);
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage()
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    // nothing comes near these limits unless the code under test takes many more steps than today
    let (case, all) = if tier == Tier::Quick { (100., if simrt::tsan::instrumented() { 180. } else { 240. }) } else { (3600., 6. * 3600.) };
    let _ = BEGAN.set((Instant::now(), case, all));
    simrt::set_pacer(pacer);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args[1].as_str() {
        "list" => {
            for d in defs {
                println!("{}", d.id)
            }
            std::process::exit(0)
        }
        "check" if args.len() == 3 => {
            let d = defs.iter().find(|d| d.id == args[2]).unwrap_or_else(|| usage());
            std::process::exit(run_check(d, tier, seed))
        }
        "case" if args.len() == 4 => {
            let d = defs.iter().find(|d| d.id == args[2]).unwrap_or_else(|| usage());
            std::process::exit(run_case(d, tier, seed, args[3].parse().unwrap_or_else(|_| usage())))
        }
        "replay" if args.len() == 3 => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
            let d = defs.iter().find(|d| d.id == field("property:")).unwrap_or_else(|| usage());
            let tier = if field("tier:") == "thorough" { Tier::Thorough } else { Tier::Quick };
            std::process::exit(run_case(d, tier, seed, field("case:").parse().expect("case index")))
        }
        _ => usage(),
    }
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn run_case(d: &CheckDef, tier: Tier, seed: u64, idx: u64) -> i32 {
    silence_panics();
    let mut ctx = Ctx { tier, seed, idx: 0, claimed: 0, only: Some(idx), shared: std::ptr::null_mut(), t0: Instant::now(), counts: Counts::default(), fails: vec![], group: String::new() };
    (d.f)(&mut ctx);
    for (i, n, m) in &ctx.fails {
        println!("case {i} ({n}): {m}");
    }
    println!("property={} case={idx}: {}", d.id, if ctx.fails.is_empty() { "no violation" } else { "violation" });
    (!ctx.fails.is_empty()) as i32
}

fn root_dir() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn run_check(d: &CheckDef, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let sh = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    };
    let dir = std::env::temp_dir().join(format!("fsmc-{}-{}", d.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut pids = vec![];
    for w in 0..NW {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                // die with the parent
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // a crash is a verdict, not a core file
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_DATA, &lim);
                SLOT = &mut (*sh).slots[w];
            }
            let log = std::fs::File::create(dir.join(format!("{w}.log"))).unwrap();
            unsafe {
                use std::os::fd::AsRawFd;
                libc::dup2(log.as_raw_fd(), 1);
                libc::dup2(log.as_raw_fd(), 2);
            }
            silence_panics();
            let first = unsafe { (*sh).next.fetch_add(1, Ordering::SeqCst) };
            let mut ctx = Ctx { tier, seed, idx: 0, claimed: first, only: None, shared: sh, t0, counts: Counts::default(), fails: vec![], group: String::new() };
            let r = catch_unwind(AssertUnwindSafe(|| (d.f)(&mut ctx)));
            if let Err(e) = r {
                eprintln!("the enumeration itself panicked: {}", simrt::panic_msg(&*e));
                unsafe { libc::_exit(3) }
            }
            std::fs::write(dir.join(format!("{w}.txt")), ctx.report()).expect("report");
            unsafe { libc::_exit(0) }
        }
        assert!(pid > 0, "fork");
        pids.push(pid);
    }
    // supervise
    let limit_ms: u64 = if tier == Tier::Quick { 200_000 } else { 1_200_000 };
    let mut done = [false; NW];
    let mut fails: Vec<(u64, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    while done.iter().any(|x| !x) {
        std::thread::sleep(std::time::Duration::from_millis(5));
        for w in 0..NW {
            if done[w] {
                continue;
            }
            let slot = unsafe { &(*sh).slots[w] };
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            let cur = slot.cur.load(Ordering::SeqCst);
            if r == pids[w] {
                done[w] = true;
                if libc::WIFEXITED(st) {
                    let code = libc::WEXITSTATUS(st);
                    if code == 0 {
                        continue;
                    }
                    let f = get(&slot.fatal, &slot.fatal_len);
                    if code == 101 && !f.is_empty() && cur > 0 {
                        fails.push((cur - 1, get(&slot.name, &slot.len), f));
                    } else {
                        errors.push(format!("worker {w} exited with code {code}: {}", tail(&dir.join(format!("{w}.log")))));
                    }
                } else {
                    let sig = libc::WTERMSIG(st);
                    if cur > 0 && [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
                        fails.push((cur - 1, get(&slot.name, &slot.len), format!("the process was ended by signal {sig}: {}", tail(&dir.join(format!("{w}.log"))))));
                    } else {
                        errors.push(format!("worker {w} was ended by signal {sig}"));
                    }
                }
                unsafe { (*sh).stop.store(1, Ordering::SeqCst) };
            } else if cur > 0 && now_ms().saturating_sub(slot.since_ms.load(Ordering::SeqCst)) > limit_ms {
                fails.push((cur - 1, get(&slot.name, &slot.len), format!("did not terminate within {} s", limit_ms / 1000)));
                unsafe {
                    libc::kill(pids[w], libc::SIGKILL);
                    libc::waitpid(pids[w], &mut st, 0);
                    (*sh).stop.store(1, Ordering::SeqCst);
                }
                done[w] = true;
            }
        }
    }
    // merge
    let mut k = Counts::default();
    let (mut total, mut extra_total) = (0, 0u64);
    // what the other binary of this check covered
    let mut texts: Vec<String> = (0..NW).filter_map(|w| std::fs::read_to_string(dir.join(format!("{w}.txt"))).ok()).collect();
    let part = std::env::var("FSMC_PART").ok().filter(|p| !p.is_empty());
    if let Some(p) = &part {
        match std::fs::read_to_string(p) {
            Ok(t) => {
                let n = t.lines().find_map(|l| l.strip_prefix("N\ttotal\t")).and_then(|x| x.parse::<u64>().ok());
                extra_total = n.unwrap_or(0);
                texts.push(t.lines().filter(|l| !l.starts_with("N\ttotal")).collect::<Vec<_>>().join("\n"));
            }
            Err(e) => errors.push(format!("no report of the other binary: {e}")),
        }
    }
    for text in texts {
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => {
                    let v: u64 = p[2].parse().unwrap_or(0);
                    match p[1] {
                        "cases" => k.cases += v,
                        "states" => k.states += v,
                        "transitions" => k.transitions += v,
                        "traces" => k.traces += v,
                        "total" => total = total.max(v),
                        "capped" => k.capped |= v != 0,
                        _ => {}
                    }
                }
                "X" => *k.extra.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0),
                "G" => *k.groups.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0),
                "M" => {
                    let v: f64 = p[2].parse().unwrap_or(0.);
                    let e = k.maxima.entry(p[1].into()).or_insert(0.);
                    *e = e.max(v);
                }
                "S" => k.samples.push(p[1].into()),
                "F" => fails.push((p[1].parse().unwrap_or(0), p[2].into(), p[3].into())),
                _ => {}
            }
        }
    }
    total += extra_total;
    let _ = std::fs::remove_dir_all(&dir);
    fails.sort();
    // machinery failures are never verdicts
    fails.retain(|(i, n, m)| {
        if m.contains("MACHINERY:") {
            errors.push(format!("case {i} ({n}): {m}"));
            false
        } else {
            true
        }
    });
    // known findings
    let known = known_findings(d.id);
    let mut new = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for (i, n, m) in &fails {
        if let Some(kf) = known.iter().find(|kf| *kf == n) {
            if seen.insert(kf.clone()) {
                println!("KNOWN-FINDING: property={} {n}: {m}", d.id);
            }
        } else {
            new.push((*i, n.clone(), m.clone()));
        }
    }
    let complete = new.is_empty() && errors.is_empty() && k.cases == total;
    let root = root_dir();
    let part_out = std::env::var("FSMC_PART_OUT").ok();
    let to_part = part_out.is_some();
    if let Some(part_out) = &part_out {
        let mut t = String::new();
        for (n, v) in [("cases", k.cases), ("states", k.states), ("transitions", k.transitions), ("traces", k.traces), ("total", total), ("capped", k.capped as u64)] {
            t += &format!("N\t{n}\t{v}\n");
        }
        t += &k.extra.iter().map(|(n, v)| format!("X\t{n}\t{v}\n")).collect::<String>();
        t += &k.groups.iter().map(|(n, v)| format!("G\t{n}\t{v}\n")).collect::<String>();
        t += &k.maxima.iter().map(|(n, v)| format!("M\t{n}\t{v:e}\n")).collect::<String>();
        t += &k.samples.iter().map(|n| format!("S\t{}\n", clean(n))).collect::<String>();
        std::fs::write(part_out, t).expect("part");
    }
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut cov = String::new();
    cov += &format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{},", k.states, k.transitions, k.traces, k.cases);
    cov += &format!("\"exhaustive\":{},\"bounds\":{},", complete && !k.capped, js(d.bounds));
    for (n, v) in &k.extra {
        cov += &format!("{}:{v},", js(n));
    }
    for (n, v) in &k.maxima {
        cov += &format!("{}:{v:.6e},", js(n));
    }
    cov += "\"cases_by_group\":{";
    cov += &k.groups.iter().map(|(n, v)| format!("{}:{v}", js(n))).collect::<Vec<_>>().join(",");
    cov += "},\"samples\":[";
    k.samples.sort();
    k.samples.dedup();
    let step = (k.samples.len() / 12).max(1);
    cov += &k.samples.iter().step_by(step).take(14).map(|s| js(s)).collect::<Vec<_>>().join(",");
    cov += "]";
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{tier_s}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(d.id),
        d.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        new.len()
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    // a violation found by the instrumented binary is the last word
    if !to_part || !new.is_empty() {
        std::fs::write(root.join("evidence").join(format!("{}.json", d.id)), ev).expect("evidence");
    }
    for e in &errors {
        eprintln!("ERROR: {e}");
    }
    if let Some((i, n, m)) = new.first() {
        let rd = root.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-{}{i}.txt", d.id, if to_part { "first" } else { "" }));
        let bin = std::env::args().next().unwrap_or_default();
        let _ = std::fs::write(&path, format!("property: {}\ntier: {tier_s}\ncase: {i}\nname: {n}\nmessage: {m}\nreplay with: {bin} replay {}\n", d.id, path.display()));
        println!("case {i}: {n}: {m}");
        for (i, n, m) in new.iter().skip(1).take(5) {
            println!("case {i}: {n}: {m}");
        }
        println!("VIOLATION property={} replay={}", d.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        return 3;
    }
    if !complete {
        eprintln!("ERROR: only {} of {total} cases were run", k.cases);
        return 3;
    }
    println!("property={} held: cases={} states={} transitions={} traces={} wall={:.1}s", d.id, k.cases, k.states, k.transitions, k.traces, t0.elapsed().as_secs_f64());
    0
}

fn tail(p: &std::path::Path) -> String {
    let t = std::fs::read(p).unwrap_or_default();
    let t = String::from_utf8_lossy(&t);
    let v: Vec<&str> = t.lines().rev().take(4).collect();
    clean(&v.into_iter().rev().collect::<Vec<_>>().join(" | "))
}

/// Case names listed as `known: property=<id> case=<name>` in known_findings.txt.
fn known_findings(id: &str) -> Vec<String> {
    let p = root_dir().join("known_findings.txt");
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let pre = format!("known: property={id} case=");
    text.lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.trim().to_string()).collect()
}
