//! Replay / bounded stand-in harness: runs the real crate in /repo on deterministic cases.
mod gspec;
mod p_build;
mod p_cfg;
mod p_io;
mod p_route;
mod p_tags;
mod pbf;
mod rng;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: rng::Rng,
    pub idx: u64,
    pub dir: PathBuf,
    pub verbose: bool,
    pub desc: String,
    /// hash of what makes this case distinct; 0: trivial
    pub key: u64,
    pub evals: u64,
}
impl Case {
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            eprintln!("{}", s);
            self.desc += &s;
            self.desc += "\n";
        }
    }
    pub fn key<T: std::fmt::Debug>(&mut self, x: &T) {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ self.key;
        for b in format!("{:?}", x).bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.key = h | 1;
    }
    /// path of a fresh file in the scratch directory
    pub fn file(&self, name: &str) -> PathBuf {
        let p = self.dir.join(format!("{}-{}", self.idx, name));
        let _ = std::fs::remove_file(&p);
        p
    }
}
pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Case) -> R;

fn table(p: &str) -> Option<CaseFn> {
    Some(match p {
        "C01" => p_route::c01,
        "C02" => p_route::c02,
        "C03" => p_route::c03,
        "C04" => p_route::c04,
        "C05" => p_route::c05,
        "C06" => p_build::c06,
        "C07" => p_build::c07,
        "C08" => p_build::c08,
        "C09" => p_build::c09,
        "C10" => p_build::c10,
        "C11" => p_cfg::c11,
        "C12" => p_tags::c12,
        "C13" => p_io::c13,
        "C14" => p_io::c14,
        "C15" => p_io::c15,
        "C16" => p_cfg::c16,
        "C17" => p_cfg::c17,
        _ => return None,
    })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

static NOW: [AtomicU64; 64] = {
    const Z: AtomicU64 = AtomicU64::new(u64::MAX);
    [Z; 64]
};
extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
/// an abort (out of memory, double panic): tell which cases were running
extern "C" fn on_abort(_: i32) {
    let mut buf = [0u8; 4096];
    let mut n = 0;
    for b in b"\nABORTED-CASES" {
        buf[n] = *b;
        n += 1;
    }
    for a in NOW.iter() {
        let mut v = a.load(Ordering::SeqCst);
        if v == u64::MAX {
            continue;
        }
        buf[n] = b' ';
        n += 1;
        let mut d = [0u8; 20];
        let mut k = 0;
        loop {
            d[k] = b'0' + (v % 10) as u8;
            k += 1;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            buf[n] = d[k];
            n += 1;
        }
    }
    buf[n] = b'\n';
    n += 1;
    unsafe {
        write(1, buf.as_ptr(), n);
        _exit(134)
    }
}

fn run_one(f: CaseFn, prop: &str, seed: u64, idx: u64, dir: &PathBuf, verbose: bool) -> (Case, R) {
    let mut c = Case { rng: rng::Rng::new(seed, prop, idx), idx, dir: dir.clone(), verbose, desc: String::new(), key: 0, evals: 0 };
    let r = match catch_unwind(AssertUnwindSafe(|| f(&mut c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("the code crashed (panic): {}", m))
        }
    };
    (c, r)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let secs: f64 = get("--secs").map(|s| s.parse().unwrap()).unwrap_or(10.0);
    let max: u64 = get("--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX - 1);
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let hang: u64 = get("--hang").map(|s| s.parse().unwrap()).unwrap_or(25);
    let dir = PathBuf::from(get("--dir").expect("--dir"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = table(&prop).expect("unknown property");
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        signal(6, on_abort as usize);
    }
    if let Some(k) = get("--case") {
        let k: u64 = k.parse().unwrap();
        NOW[0].store(k, Ordering::SeqCst);
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(hang));
            println!("VIOLATED case {}: does not terminate within {} s", k, hang);
            unsafe { _exit(1) }
        });
        let (_, r) = run_one(f, &prop, seed, k, &dir, true);
        match r {
            Ok(()) => println!("case {} holds", k),
            Err(m) => {
                println!("VIOLATED case {}: {}", k, m);
                std::process::exit(1);
            }
        }
        return;
    }
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let viol: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let keys = Arc::new(Mutex::new(HashSet::new()));
    let evals = Arc::new(AtomicU64::new(0));
    let cases = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let (next, stop, viol, keys, evals, cases) = (next.clone(), stop.clone(), viol.clone(), keys.clone(), evals.clone(), cases.clone());
        let (prop, dir) = (prop.clone(), dir.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed().as_secs_f64() > secs {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= max {
                        break;
                    }
                    NOW[t].store(k, Ordering::SeqCst);
                    let (c, r) = run_one(f, &prop, seed, k, &dir, false);
                    NOW[t].store(u64::MAX, Ordering::SeqCst);
                    evals.fetch_add(c.evals.max(1), Ordering::SeqCst);
                    cases.fetch_add(1, Ordering::SeqCst);
                    if c.key != 0 {
                        keys.lock().unwrap().insert(c.key);
                    }
                    if let Err(m) = r {
                        let mut v = viol.lock().unwrap();
                        if v.as_ref().map(|(i, _)| *i > k).unwrap_or(true) {
                            *v = Some((k, m));
                        }
                        stop.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    let mut seen: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); threads];
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..threads {
            let v = NOW[t].load(Ordering::SeqCst);
            if v != seen[t].0 {
                seen[t] = (v, Instant::now());
            } else if v != u64::MAX && seen[t].1.elapsed().as_secs() >= hang && !stop.load(Ordering::SeqCst) {
                println!(
                    "{{\"evaluations\":{},\"cases\":{},\"distinct\":{},\"violation\":{{\"case\":{},\"hang\":true,\"msg\":{}}}}}",
                    evals.load(Ordering::SeqCst),
                    cases.load(Ordering::SeqCst),
                    keys.lock().unwrap().len(),
                    v,
                    json_str(&format!("does not terminate within {} s", hang))
                );
                unsafe { _exit(1) }
            }
        }
    }
    let v = viol.lock().unwrap().clone();
    let vs = match &v {
        None => "null".to_string(),
        Some((k, m)) => format!("{{\"case\":{},\"hang\":false,\"msg\":{}}}", k, json_str(m)),
    };
    println!(
        "{{\"evaluations\":{},\"cases\":{},\"distinct\":{},\"violation\":{}}}",
        evals.load(Ordering::SeqCst),
        cases.load(Ordering::SeqCst),
        keys.lock().unwrap().len(),
        vs
    );
    std::process::exit(if v.is_some() { 1 } else { 0 });
}
