use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Stop;
pub type R = Result<(), Stop>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// a count below n; now and then a larger one, or one next to a number that stands in the code's source
    pub fn size(&mut self, n: usize) -> usize {
        let d = NUMS.lock().unwrap();
        if !d.is_empty() && self.below(6) == 0 {
            let x = d[self.below(d.len())] as usize + self.below(3);
            return x.saturating_sub(1).min(48);
        }
        match self.below(64) {
            0 => self.below(10 * n).min(48),
            1 | 2 => self.below(3 * n),
            _ => self.below(n),
        }
    }
    /// one of the atoms; now and then an unusual one, or a text that stands in the code's source
    pub fn atom(&mut self, xs: &[&str]) -> String {
        let d = WORDS.lock().unwrap();
        if !d.is_empty() && self.below(8) == 0 {
            let w = d[self.below(d.len())].clone();
            let o = xs[self.below(xs.len())];
            return match self.below(5) {
                0 => format!("{}{}", w, o),
                1 => format!("{}{}", o, w),
                _ => w,
            };
        }
        if self.below(40) == 0 {
            return ODD[self.below(ODD.len())].to_string();
        }
        if self.below(24) == 0 {
            let x = self.pick::<&str>(xs).to_string();
            return self.similar(&x);
        }
        self.pick::<&str>(xs).to_string()
    }
    /// another text that a lenient comparison would take for this one
    pub fn similar(&mut self, s: &str) -> String {
        let t = match self.below(10) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => format!("0{}", s),
            3 => format!("+{}", s),
            4 => format!("{}.0", s),
            5 => format!("{}0", s),
            6 => s.chars().rev().collect(),
            7 => s.chars().skip(1).collect(),
            8 => s.trim_start_matches('0').to_string(),
            _ => format!("{}{}", s, s.chars().last().unwrap_or('_')),
        };
        if t.is_empty() { s.to_string() } else { t }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    per_kind: std::collections::BTreeMap<String, u64>,
    pub rules: Vec<String>,
    pub viol: Option<(String, String)>,
    trace: Option<std::fs::File>,
    deadline: Instant,
    slowest: (u64, String),
    pub scratch: std::path::PathBuf,
}

/// texts and numbers that the code under test has gained, used to build inputs
pub static WORDS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static NUMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
const ODD: [&str; 30] = [
    "A", "X", "aa", "ab", "a1", "x1", "?a", "?x", "-1", "0", "1", "10", "1.5", "a_b", "a-b", "é", "#a", "EXPR", "VAR", "VAL", "OP", "$x", "<", ">=", "==>", "*", "+", "'a", ":", "averyverylongnameforanatom",
];

static START: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
static PANIC: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<String> = Mutex::new(String::new());

/// processor seconds this process has used (a case is not slow because the machine is busy)
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.lock().unwrap().clear();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.lock().unwrap().clone())
}

impl Cx {
    /// scales an iteration count with the tier
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick * 12 } else { quick }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    /// One case: `desc` is the input written out, `f` runs the real code and compares.
    pub fn case(
        &mut self,
        kind: &str,
        desc: String,
        nontrivial: bool,
        f: impl FnOnce() -> Result<(), String>,
    ) -> R {
        if let Some(t) = &mut self.trace {
            let _ = writeln!(t, "{}\t{}", kind, desc);
            let _ = t.flush();
        }
        {
            let mut c = CUR.lock().unwrap();
            c.0 = kind.to_string();
            c.1 = desc.clone();
        }
        START.store(self.evals + 1, Ordering::SeqCst);
        let t0 = Instant::now();
        let r = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {}", p)),
        };
        START.store(0, Ordering::SeqCst);
        let ms = t0.elapsed().as_millis() as u64;
        if ms > self.slowest.0 {
            self.slowest = (ms, format!("{}: {}", kind, clip(&desc, 400)));
        }
        self.evals += 1;
        *self.per_kind.entry(kind.to_string()).or_insert(0) += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            kind.hash(&mut h);
            desc.hash(&mut h);
            if self.distinct.insert(h.finish()) {
                let k = self.distinct.len();
                if self.samples.len() < 6 && (k % 97 == 1) {
                    self.samples.push(format!("{}: {}", kind, clip(&desc, 400)));
                }
            }
        }
        if let Err(e) = r {
            self.viol = Some((format!("{}: {}", kind, desc), e));
            return Err(Stop);
        }
        Ok(())
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n).collect::<String>() + "…" } else { s.to_string() }
}

fn write_out(v: &serde_json::Value) {
    let p = OUT.lock().unwrap().clone();
    std::fs::write(p, serde_json::to_string_pretty(v).unwrap()).unwrap();
}

pub fn main_entry(run: impl Fn(&mut Cx, &str) -> R) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args[1].clone();
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    let budget: u64 = get("--budget").map_or(if thorough { 240 } else { 40 }, |s| s.parse().unwrap());
    *OUT.lock().unwrap() = get("--out").expect("--out");
    let scratch = std::path::PathBuf::from(get("--scratch").expect("--scratch"));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let mut p = PANIC.lock().unwrap();
        if p.is_empty() {
            *p = format!("{} at {}", m, loc);
        }
    }));
    if let Some(w) = get("--words") {
        *WORDS.lock().unwrap() = serde_json::from_str(&w).unwrap();
    }
    if let Some(w) = get("--nums") {
        *NUMS.lock().unwrap() = serde_json::from_str(&w).unwrap();
    }
    let limit: u64 = get("--case-limit").map_or(60, |s| s.parse().unwrap());
    std::thread::spawn(move || {
        let (mut case, mut at, mut since) = (0, 0.0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = START.load(Ordering::SeqCst);
            if s == 0 || s != case {
                case = s;
                at = cpu();
                since = Instant::now();
            } else if cpu() > at + limit as f64 || since.elapsed().as_secs() > 4 * limit {
                let c = CUR.lock().unwrap().clone();
                write_out(&serde_json::json!({
                    "evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [], "per_kind": {},
                    "violation": {"input": format!("{}: {}", c.0, c.1),
                        "detail": format!("no result within {} s of processor time (such inputs normally take milliseconds)", limit)}
                }));
                std::process::exit(0);
            }
        }
    });
    let mut cx = Cx {
        rng: Rng::new(seed ^ prop.bytes().fold(0u64, |a, b| a * 131 + b as u64)),
        thorough,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        per_kind: Default::default(),
        rules: vec![],
        viol: None,
        trace: get("--trace").map(|p| std::fs::File::create(p).unwrap()),
        deadline: Instant::now() + Duration::from_secs(budget),
        slowest: (0, String::new()),
        scratch,
    };
    // big stack: the real code recurses over terms
    let h = std::thread::Builder::new().stack_size(512 << 20);
    let cxr = std::sync::Arc::new(Mutex::new(None));
    let cxr2 = cxr.clone();
    // `run` is only used by this one thread while main waits for it
    let runp: &(dyn Fn(&mut Cx, &str) -> R) = &run;
    struct P(*const (dyn Fn(&mut Cx, &str) -> R + 'static));
    unsafe impl Send for P {}
    let p = P(unsafe { std::mem::transmute(runp) });
    h.spawn(move || {
        let p = p;
        let f = unsafe { &*p.0 };
        let r = guarded(|| {
            let _ = f(&mut cx, &prop);
        });
        if let Err(e) = r {
            // the code under test gave way while an input was being set up
            if cx.viol.is_none() {
                let c = CUR.lock().map(|c| c.clone()).unwrap_or_default();
                cx.viol = Some((format!("setting up a case after {}: {}", c.0, c.1), format!("panicked: {}", e)));
            }
        }
        *cxr2.lock().unwrap() = Some(cx);
    })
    .unwrap()
    .join()
    .unwrap();
    let cx = cxr.lock().unwrap().take().unwrap();
    let viol = match &cx.viol {
        Some((i, d)) => serde_json::json!({"input": i, "detail": d}),
        None => serde_json::Value::Null,
    };
    write_out(&serde_json::json!({
        "evaluations": cx.evals,
        "distinct_nontrivial": cx.distinct.len(),
        "rule": cx.rules.join("; "),
        "samples": cx.samples,
        "per_kind": cx.per_kind,
        "slowest_case": {"ms": cx.slowest.0, "input": cx.slowest.1},
        "violation": viol,
    }));
}
