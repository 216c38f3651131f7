//! Exhaustive-exploration engine: deterministic enumeration of cases, sharded over threads,
//! each case executed on the real code and compared with a reference model.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

pub type R = Result<(), String>;

/// Deterministic 64-bit hash used only for counting distinct model states.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut f = Fnv::default();
    t.hash(&mut f);
    f.finish()
}

const MAXSH: usize = 64;
static CUR_CASE: [AtomicU64; MAXSH] = [const { AtomicU64::new(0) }; MAXSH];
static CUR_SCEN: [AtomicUsize; MAXSH] = [const { AtomicUsize::new(usize::MAX) }; MAXSH];
static TICKS: [AtomicU64; MAXSH] = [const { AtomicU64::new(0) }; MAXSH];
static STOP: AtomicBool = AtomicBool::new(false);
static SCEN_NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
    static SHARD: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

unsafe extern "C" {
    fn signal(signum: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

fn put_num(buf: &mut [u8; 96], pos: &mut usize, mut v: u64) {
    let mut d = [0u8; 20];
    let mut n = 0;
    loop {
        d[n] = b'0' + (v % 10) as u8;
        v /= 10;
        n += 1;
        if v == 0 {
            break;
        }
    }
    while n > 0 {
        n -= 1;
        buf[*pos] = d[n];
        *pos += 1;
    }
}
fn crash_note(kind: &[u8], shard: usize) -> ! {
    let mut buf = [0u8; 96];
    let mut p = 0;
    for b in b"\nMC-CRASH kind=" {
        buf[p] = *b;
        p += 1;
    }
    for b in kind {
        buf[p] = *b;
        p += 1;
    }
    for b in b" scen=" {
        buf[p] = *b;
        p += 1;
    }
    put_num(&mut buf, &mut p, CUR_SCEN[shard].load(Ordering::Relaxed) as u64);
    for b in b" case=" {
        buf[p] = *b;
        p += 1;
    }
    put_num(&mut buf, &mut p, CUR_CASE[shard].load(Ordering::Relaxed));
    buf[p] = b'\n';
    p += 1;
    unsafe {
        write(1, buf.as_ptr().cast(), p);
        _exit(101)
    }
}
extern "C" fn on_signal(sig: i32) {
    let shard = SHARD.with(Cell::get);
    let k: &[u8] = match sig {
        6 => b"SIGABRT",
        11 => b"SIGSEGV",
        7 => b"SIGBUS",
        4 => b"SIGILL",
        8 => b"SIGFPE",
        _ => b"SIG",
    };
    crash_note(k, shard)
}

pub struct Obs {
    pub transitions: u64,
    pub skip_tick: u64,
    states: Vec<u64>,
}
impl Obs {
    /// count `n` compared operations
    #[inline]
    pub fn t(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(h64(t));
    }
}

#[derive(Clone)]
pub struct Violation {
    pub scenario: String,
    pub case: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Sc<'r> {
    run: &'r Run,
    name: &'r str,
    shard: usize,
    nsh: usize,
    idx: u64,
    only: Option<u64>,
    pub cases: u64,
    pub obs: Obs,
    states: HashSet<u64>,
    violations: Vec<Violation>,
    known_hit: Vec<(String, String)>,
    samples: Vec<String>,
    pub thorough: bool,
    dead: bool,
}

impl<'r> Sc<'r> {
    /// true when the enumerator may stop early (a violation was found or another shard stopped)
    pub fn done(&self) -> bool {
        self.dead || STOP.load(Ordering::Relaxed)
    }
    /// run one case (if it belongs to this shard).  `desc` is evaluated only for samples and failures.
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Obs) -> R) {
        let i = self.idx;
        self.idx += 1;
        match self.only {
            Some(o) => {
                if o != i {
                    return;
                }
                println!("REPLAY scenario={} case={} {}", self.name, i, desc());
            }
            None => {
                if self.dead || (i as usize) % self.nsh != self.shard {
                    return;
                }
            }
        }
        CUR_CASE[self.shard].store(i, Ordering::Relaxed);
        TICKS[self.shard].fetch_add(1, Ordering::Relaxed);
        self.cases += 1;
        if self.samples.len() < 2 && (i > 3 || self.only.is_some()) {
            self.samples.push(format!("{}#{}: {}", self.name, i, clip(&desc(), 300)));
        }
        let obs = &mut self.obs;
        let r = catch_unwind(AssertUnwindSafe(|| body(obs)));
        for s in self.obs.states.drain(..) {
            self.states.insert(s);
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(_) => format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        };
        let d = desc();
        if let Some(k) = self.run.known.iter().find(|k| k.1 == self.name && (d.contains(&k.2) && msg.contains(&k.3))) {
            if !self.known_hit.contains(&(k.0.clone(), k.4.clone())) {
                self.known_hit.push((k.0.clone(), k.4.clone()));
            }
            return;
        }
        self.violations.push(Violation { scenario: self.name.to_string(), case: i, desc: d, msg });
        self.dead = true;
        STOP.store(true, Ordering::Relaxed);
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

/// Runs `f`, returns Ok(value) or Err(panic message), without stopping the exploration.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Run {
    pub prop: String,
    /// bounds of the exploration: 0, 1 or 2, each containing the one before
    pub level: u8,
    /// level >= 1
    pub thorough: bool,
    /// level 2
    pub deepest: bool,
    start: Instant,
    replay: Option<(String, u64)>,
    replay_idx: Option<(usize, u64)>,
    only: Option<String>,
    // (property, scenario, case substring, message substring, text)
    known: Vec<(String, String, String, String, String)>,
    nsh: usize,
    states: HashSet<u64>,
    cases: u64,
    transitions: u64,
    per: BTreeMap<String, (u64, u64, u64, f64)>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    known_hit: Vec<(String, String)>,
    pub bounds: Vec<String>,
}

impl Run {
    /// Arguments: [--level 0|1|2] [--replay SCENARIO CASE] [--replay-index N CASE] [--only SUBSTR] [--known FILE]
    pub fn new(prop: &str) -> Run {
        let a: Vec<String> = std::env::args().collect();
        let mut r = Run {
            prop: prop.to_string(),
            level: 0,
            thorough: false,
            deepest: false,
            start: Instant::now(),
            replay: None,
            replay_idx: None,
            only: None,
            known: vec![],
            nsh: std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8),
            states: HashSet::new(),
            cases: 0,
            transitions: 0,
            per: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known_hit: vec![],
            bounds: vec![],
        };
        for i in 0..a.len() {
            match a[i].as_str() {
                "--replay" => r.replay = Some((a[i + 1].clone(), a[i + 2].parse().unwrap())),
                "--replay-index" => r.replay_idx = Some((a[i + 1].parse().unwrap(), a[i + 2].parse().unwrap())),
                "--level" => r.level = a[i + 1].parse().unwrap(),
                "--only" => r.only = Some(a[i + 1].clone()),
                "--known" => {
                    // tab separated: known <prop> <scenario> <case substring> <message substring> <text>
                    for l in std::fs::read_to_string(&a[i + 1]).unwrap_or_default().lines() {
                        let f: Vec<&str> = l.split('\t').collect();
                        if f.len() >= 6 && f[0] == "known" && f[1] == prop {
                            r.known.push((f[1].into(), f[2].into(), f[3].into(), f[4].into(), f[5].into()));
                        }
                    }
                }
                _ => {}
            }
        }
        (r.thorough, r.deepest) = (r.level >= 1, r.level >= 2);
        std::panic::set_hook(Box::new(|info| {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| format!("{info}"));
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            let text = format!("{m}{loc}");
            if m.contains("unsafe precondition") || m.contains("cannot unwind") {
                println!("\nMC-ABORTING {text}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = text);
        }));
        unsafe {
            for s in [4, 6, 7, 8, 11] {
                signal(s, on_signal as *const () as usize);
            }
        }
        std::thread::spawn(|| {
            let mut last = [(0u64, 0u32); MAXSH];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                for s in 0..MAXSH {
                    let t = TICKS[s].load(Ordering::Relaxed);
                    if CUR_SCEN[s].load(Ordering::Relaxed) == usize::MAX || t != last[s].0 {
                        last[s] = (t, 0);
                    } else {
                        last[s].1 += 1;
                        if last[s].1 > 120 {
                            crash_note(b"HANG", s);
                        }
                    }
                }
            }
        });
        r
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        let s: String = s.into();
        let note = if s.contains("thorough") { format!(" [this run: level {}; 0 = the first figures, 1 = those marked thorough, 2 = beyond them, see `deepest` in the source]", self.level) } else { String::new() };
        self.bounds.push(s + &note);
    }

    /// Tell the watchdog that a long case is still making progress.
    pub fn tick() {
        SHARD.with(|s| TICKS[s.get()].fetch_add(1, Ordering::Relaxed));
    }

    pub fn scenario(&mut self, name: &str, f: impl Fn(&mut Sc) + Sync) {
        let scen_no = {
            let mut g = SCEN_NAMES.lock().unwrap();
            g.push(name.to_string());
            g.len() - 1
        };
        let only = match (&self.replay, self.replay_idx) {
            (Some((s, c)), _) => {
                if s != name {
                    return;
                }
                Some(*c)
            }
            (None, Some((n, c))) => {
                if n != scen_no {
                    return;
                }
                Some(c)
            }
            _ => None,
        };
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        STOP.store(false, Ordering::Relaxed);
        let nsh = if only.is_some() { 1 } else { self.nsh };
        let thorough = self.thorough;
        let this: &Run = self;
        let results: Vec<_> = std::thread::scope(|sc| {
            let f = &f;
            let hs: Vec<_> = (0..nsh)
                .map(|shard| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            SHARD.with(|s| s.set(shard));
                            CUR_SCEN[shard].store(scen_no, Ordering::Relaxed);
                            let mut s = Sc {
                                run: this,
                                name,
                                shard,
                                nsh,
                                idx: 0,
                                only,
                                cases: 0,
                                obs: Obs { transitions: 0, skip_tick: 0, states: vec![] },
                                states: HashSet::new(),
                                violations: vec![],
                                known_hit: vec![],
                                samples: vec![],
                                thorough,
                                dead: false,
                            };
                            f(&mut s);
                            CUR_SCEN[shard].store(usize::MAX, Ordering::Relaxed);
                            (s.cases, s.obs.transitions, s.states, s.violations, s.known_hit, s.samples)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("enumerator itself panicked")).collect()
        });
        let (mut c, mut t) = (0, 0);
        let tag = h64(name);
        let mut st: HashSet<u64> = HashSet::new();
        for (cases, tr, states, v, k, smp) in results {
            c += cases;
            t += tr;
            st.extend(states);
            self.violations.extend(v);
            for x in k {
                if !self.known_hit.contains(&x) {
                    self.known_hit.push(x);
                }
            }
            if self.samples.len() < 40 {
                self.samples.extend(smp.into_iter().take(1));
            }
        }
        let nst = st.len() as u64;
        self.states.extend(st.into_iter().map(|x| x ^ tag));
        self.cases += c;
        self.transitions += t;
        self.per.insert(name.to_string(), (c, nst, t, t0.elapsed().as_secs_f64()));
        if only.is_some() {
            return;
        }
        eprintln!("  {name}: cases={c} states={nst} transitions={t} {:.2}s", t0.elapsed().as_secs_f64());
    }

    /// Prints one MC-RESULT json line and exits 0 (clean), 1 (violation).
    pub fn finish(mut self) -> ! {
        self.violations.sort_by_key(|v| v.case);
        for (p, text) in &self.known_hit {
            println!("KNOWN-FINDING: property={p} {text}");
        }
        for v in &self.violations {
            println!("MC-VIOLATION {}", js(&format!("scenario={} case={} input={} failure={}", v.scenario, v.case, v.desc, v.msg)));
        }
        let mut o = String::new();
        let per: Vec<String> = self
            .per
            .iter()
            .map(|(k, v)| format!("{}:{{\"cases\":{},\"states\":{},\"transitions\":{},\"wall_s\":{:.2}}}", js(k), v.0, v.1, v.2, v.3))
            .collect();
        let smp: Vec<String> = self.samples.iter().take(12).map(|s| js(s)).collect();
        let b: Vec<String> = self.bounds.iter().map(|s| js(s)).collect();
        let viol: Vec<String> = self
            .violations
            .iter()
            .map(|v| format!("{{\"scenario\":{},\"case\":{},\"input\":{},\"failure\":{}}}", js(&v.scenario), v.case, js(&v.desc), js(&v.msg)))
            .collect();
        let _ = write!(
            o,
            "MC-RESULT {{\"property\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"wall_s\":{:.2},\"scenarios\":{{{}}},\"samples\":[{}],\"bounds\":[{}],\"violations\":[{}],\"known\":{}}}",
            js(&self.prop),
            self.cases,
            self.states.len(),
            self.transitions,
            self.start.elapsed().as_secs_f64(),
            per.join(","),
            smp.join(","),
            b.join(","),
            viol.join(","),
            self.known_hit.len()
        );
        println!("{o}");
        std::process::exit(i32::from(!self.violations.is_empty()))
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// All sequences over 0..k of length exactly n, in lexicographic order.
pub fn sequences(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    if k == 0 && n > 0 {
        return;
    }
    let mut v = vec![0usize; n];
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// All permutations of 0..n (Heap's algorithm).
pub fn permutations(n: usize, mut f: impl FnMut(&[usize])) {
    let mut a: Vec<usize> = (0..n).collect();
    let mut c = vec![0usize; n];
    f(&a);
    let mut i = 0;
    while i < n {
        if c[i] < i {
            if i % 2 == 0 {
                a.swap(0, i);
            } else {
                a.swap(c[i], i);
            }
            f(&a);
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

/// All k-element subsets of 0..n.
pub fn combinations(n: usize, k: usize, mut f: impl FnMut(&[usize])) {
    if k > n {
        return;
    }
    let mut c: Vec<usize> = (0..k).collect();
    loop {
        f(&c);
        let mut i = k;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if c[i] < n - k + i {
                break;
            }
        }
        c[i] += 1;
        for j in i + 1..k {
            c[j] = c[j - 1] + 1;
        }
    }
}
