//! Explores all interleavings (up to a bound on preemptions) of small concurrent programs on the real code.
//! conc run MODE TIER WORKER OF | conc replay MODE TIER SCENARIO d,e,c,i,s,i,o,n,s
mod insertonly;
mod loading;

use serde_json::json;
use shim::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// Growing a buffer is a scheduling point at which the old buffer is already gone (filled with garbage).
pub static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ALLOC_POINTS.load(Ordering::Relaxed) || !sched::is_controlled() {
            return unsafe { System.realloc(p, l, n) };
        }
        unsafe {
            let new = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, new, l.size().min(n));
            std::ptr::write_bytes(p, 0xEE, l.size());
            sched::point("the buffer has moved");
            System.dealloc(p, l);
            new
        }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

pub type Job = Box<dyn FnOnce() + Send>;
pub type End = Box<dyn FnOnce() -> Result<(), String>>;
pub struct Scenario {
    pub name: String,
    pub bound: usize,
    pub make: Box<dyn FnMut() -> (Vec<Job>, End)>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[3] == "thorough";
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SHOW_PANICS").is_ok() {
            eprintln!("{i}")
        }
    }));
    let mut list = match a[2].as_str() {
        "vec" => insertonly::scenarios(thorough),
        "load" => loading::scenarios(thorough),
        _ => panic!(),
    };
    if a[1] == "replay" {
        let s = list.iter_mut().find(|s| s.name == a[4]).expect("no such scenario");
        let prefix: Vec<usize> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let (jobs, end) = (s.make)();
        let e = sched::execute(&prefix, s.bound, jobs);
        for (t, w) in &e.log {
            println!("thread {t}: {w}");
        }
        let r = e.problem.map(Err).unwrap_or_else(end);
        println!("{r:?}");
        std::process::exit(r.is_err() as i32);
    }
    let (w, n): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let limit = Duration::from_secs(if thorough { 120 } else { 20 });
    for (i, s) in list.iter_mut().enumerate() {
        if i % n != w {
            continue;
        }
        println!("{}", json!({"start": s.name}));
        let r = sched::explore(s.bound, Instant::now() + limit, &mut s.make);
        println!("{}", json!({
            "scenario": s.name, "bound": s.bound, "executions": r.executions, "transitions": r.transitions, "states": r.states,
            "longest": r.longest, "complete": r.complete,
            "violation": r.violation.as_ref().map(|v| json!([v.0, v.1, v.2.iter().map(|(t, w)| format!("{t}:{w}")).collect::<Vec<_>>()])),
        }));
        if r.violation.is_some() {
            // threads of the failed execution may hang
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            std::process::exit(3);
        }
    }
}
