//! Bounded exhaustive enumeration of texts: every sequence of at most `max` fragments.
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Space {
    pub name: &'static str,
    pub fragments: Vec<String>,
    pub max: usize,
    pub sep: &'static str,
    /// every sequence is checked inside each of these (prefix, suffix) frames
    pub frames: Vec<(String, String)>,
}

impl Space {
    pub fn new(name: &'static str, fragments: &[&str], max: usize) -> Self {
        Space {
            name,
            fragments: fragments.iter().map(|s| s.to_string()).collect(),
            max,
            sep: "",
            frames: vec![(String::new(), String::new())],
        }
    }
    pub fn sep(mut self, sep: &'static str) -> Self {
        self.sep = sep;
        self
    }
    pub fn frames(mut self, f: &[(&str, &str)]) -> Self {
        self.frames = f.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        self
    }
    pub fn sequences(&self) -> u64 {
        let k = self.fragments.len() as u64;
        (0..=self.max as u32).map(|l| k.pow(l)).sum()
    }
    pub fn total(&self) -> u64 {
        self.sequences() * self.frames.len() as u64
    }
    pub fn get(&self, index: u64, out: &mut String) {
        out.clear();
        let nf = self.frames.len() as u64;
        let frame = &self.frames[(index % nf) as usize];
        let mut i = index / nf;
        let k = self.fragments.len() as u64;
        let mut l = 0u32;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        out.push_str(&frame.0);
        for j in 0..l {
            if j > 0 {
                out.push_str(self.sep);
            }
            out.push_str(&self.fragments[(i % k) as usize]);
            i /= k;
        }
        out.push_str(&frame.1);
    }
}

#[derive(Default)]
pub struct Outcome {
    /// hash of what was observed, to count distinct behaviours
    pub shape: u64,
    /// individual facts that were evaluated
    pub facts: u64,
}

pub struct Report {
    pub name: &'static str,
    pub fragments: usize,
    pub max: usize,
    pub frames: usize,
    pub evaluated: u64,
    pub facts: u64,
    pub distinct: u64,
    pub failures: Vec<(String, String)>,
    pub failure_count: u64,
    pub samples: Vec<String>,
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

/// One slot per worker in `slots`, so that the driver can find the input if the process dies.
pub fn run(
    space: &Space,
    space_index: u64,
    threads: usize,
    slots: Option<&std::fs::File>,
    f: impl Fn(&str) -> Result<Outcome, String> + Sync,
) -> Report {
    let total = space.total();
    let next = AtomicU64::new(0);
    let facts = AtomicU64::new(0);
    let failure_count = AtomicU64::new(0);
    let failures = Mutex::new(Vec::<(String, String)>::new());
    let shapes = Mutex::new(HashSet::<u64>::new());
    let done = AtomicBool::new(false);
    let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (f, next, facts, failures, shapes, current, failure_count) =
                (&f, &next, &facts, &failures, &shapes, &current, &failure_count);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut text = String::new();
                let mut my_shapes = HashSet::new();
                let mut my_facts = 0;
                const CHUNK: u64 = 512;
                loop {
                    let b = next.fetch_add(CHUNK, Ordering::Relaxed);
                    if b >= total {
                        break;
                    }
                    for i in b..(b + CHUNK).min(total) {
                        space.get(i, &mut text);
                        current[t].store(i, Ordering::Relaxed);
                        if let Some(sl) = slots {
                            let mut buf = [0u8; 16];
                            buf[..8].copy_from_slice(&space_index.to_le_bytes());
                            buf[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = sl.write_at(&buf, t as u64 * 16);
                        }
                        let msg = match catch_unwind(AssertUnwindSafe(|| f(&text))) {
                            Ok(Ok(o)) => {
                                my_shapes.insert(o.shape);
                                my_facts += o.facts;
                                continue;
                            }
                            Ok(Err(e)) => e,
                            Err(p) => format!("panicked: {}", panic_text(p)),
                        };
                        failure_count.fetch_add(1, Ordering::Relaxed);
                        let mut fl = failures.lock().unwrap();
                        if fl.len() < 2000 {
                            fl.push((text.clone(), msg));
                        }
                    }
                }
                current[t].store(u64::MAX, Ordering::Relaxed);
                facts.fetch_add(my_facts, Ordering::Relaxed);
                shapes.lock().unwrap().extend(my_shapes);
            }).unwrap());
        }
        // Watchdog: an input that is being worked on for 20 s counts as not terminating.
        let (done, current) = (&done, &current);
        s.spawn(move || {
            let mut last: Vec<(u64, Instant)> =
                (0..threads).map(|_| (u64::MAX, Instant::now())).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for t in 0..threads {
                    let c = current[t].load(Ordering::Relaxed);
                    if c != last[t].0 {
                        last[t] = (c, Instant::now());
                    } else if c != u64::MAX && last[t].1.elapsed() > Duration::from_secs(20) {
                        let mut text = String::new();
                        space.get(c, &mut text);
                        println!("{}", serde_json::json!({"hang": text, "space": space.name}));
                        std::process::exit(101);
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut samples = vec![];
    for k in 1..=3u64 {
        let mut t = String::new();
        space.get(total.saturating_sub(1) * k / 4, &mut t);
        samples.push(t);
    }
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|(t, _)| (t.len(), t.clone()));
    failures.truncate(60);
    Report {
        name: space.name,
        fragments: space.fragments.len(),
        max: space.max,
        frames: space.frames.len(),
        evaluated: total,
        facts: facts.into_inner(),
        distinct: shapes.into_inner().unwrap().len() as u64,
        failures,
        failure_count: failure_count.into_inner(),
        samples,
    }
}
