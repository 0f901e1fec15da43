//! A controlled scheduler: of the threads of an execution exactly one runs at a time, and who runs next is decided at every
//! scheduling point. `explore` enumerates all decisions depth first, up to a bound on preemptions.
use ::std::cell::Cell;
use ::std::sync::{Condvar, Mutex, OnceLock};
use ::std::sync::mpsc;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Ready,
    BlockedRead(usize),
    BlockedWrite(usize),
    Done,
}

#[derive(Default)]
struct State {
    current: usize,
    status: Vec<Status>,
    /// (number of alternatives, chosen one) of each decision so far
    decisions: Vec<(usize, usize)>,
    prefix: Vec<usize>,
    preemptions: usize,
    bound: usize,
    steps: u64,
    log: Vec<(usize, &'static str)>,
    problem: Option<String>,
    finished: bool,
}

static STATE: Mutex<State> = Mutex::new(State {
    current: 0, status: vec![], decisions: vec![], prefix: vec![], preemptions: 0, bound: 0, steps: 0, log: vec![],
    problem: None, finished: true,
});
static TURN: [Condvar; 8] = [const { Condvar::new() }; 8];
static END: Condvar = Condvar::new();

fn controlled() -> Option<usize> {
    let me = ME.get();
    (me != usize::MAX && !INSIDE.get()).then_some(me)
}

pub fn is_controlled() -> bool {
    controlled().is_some()
}

/// Decides who runs next. `me` is the thread that ran until now.
fn decide(s: &mut State, me: usize) {
    s.steps += 1;
    let mut options = vec![];
    if s.status[me] == Status::Ready {
        options.push(me);
    }
    if options.is_empty() || s.preemptions < s.bound {
        options.extend((0..s.status.len()).filter(|&i| i != me && s.status[i] == Status::Ready));
    }
    if options.is_empty() {
        if s.status.iter().any(|x| *x != Status::Done) && s.problem.is_none() {
            s.problem = Some(format!("deadlock: {:?}", s.status.iter().map(|x| match x {
                Status::BlockedRead(_) => "waits to read",
                Status::BlockedWrite(_) => "waits to lock",
                Status::Done => "done",
                Status::Ready => "ready",
            }).collect::<Vec<_>>()));
        }
        s.finished = true;
        END.notify_all();
        return;
    }
    let mut pick = 0;
    if options.len() > 1 {
        let at = s.decisions.len();
        pick = s.prefix.get(at).copied().unwrap_or(0);
        if pick >= options.len() {
            s.problem.get_or_insert(format!("not deterministic: decision {at} has {} alternatives, {pick} wanted", options.len()));
            pick = 0;
        }
        s.decisions.push((options.len(), pick));
    }
    let next = options[pick];
    if next != me {
        if s.status[me] == Status::Ready {
            s.preemptions += 1;
        }
        s.current = next;
        TURN[next].notify_all();
    }
}

fn wait_turn(mut s: ::std::sync::MutexGuard<'_, State>, me: usize) {
    while s.current != me || s.status[me] != Status::Ready {
        s = TURN[me].wait(s).unwrap();
    }
}

/// Another thread may run here.
pub fn point(what: &'static str) {
    let Some(me) = controlled() else { return };
    INSIDE.set(true);
    {
        let mut s = STATE.lock().unwrap();
        s.log.push((me, what));
        decide(&mut s, me);
        wait_turn(s, me);
    }
    INSIDE.set(false);
}

/// The current thread cannot go on until `addr` is released.
pub fn block(addr: usize, write: bool) {
    let me = controlled().unwrap();
    INSIDE.set(true);
    {
        let mut s = STATE.lock().unwrap();
        s.log.push((me, "blocks"));
        s.status[me] = if write { Status::BlockedWrite(addr) } else { Status::BlockedRead(addr) };
        decide(&mut s, me);
        wait_turn(s, me);
    }
    INSIDE.set(false);
}

pub fn writer_waits(addr: usize) -> bool {
    INSIDE.set(true);
    let r = STATE.lock().unwrap().status.contains(&Status::BlockedWrite(addr));
    INSIDE.set(false);
    r
}

pub fn released(addr: usize) {
    if controlled().is_none() {
        return;
    }
    INSIDE.set(true);
    {
        let mut s = STATE.lock().unwrap();
        for x in s.status.iter_mut() {
            if matches!(*x, Status::BlockedRead(a) | Status::BlockedWrite(a) if a == addr) {
                *x = Status::Ready;
            }
        }
    }
    INSIDE.set(false);
    if !::std::thread::panicking() {
        point("released");
    }
}

type Job = Box<dyn FnOnce() + Send>;

fn workers() -> &'static Mutex<Vec<mpsc::Sender<(usize, Job)>>> {
    static W: OnceLock<Mutex<Vec<mpsc::Sender<(usize, Job)>>>> = OnceLock::new();
    W.get_or_init(|| {
        Mutex::new((0..8).map(|_| {
            let (tx, rx) = mpsc::channel::<(usize, Job)>();
            ::std::thread::spawn(move || {
                for (i, job) in rx {
                    INSIDE.set(true);
                    ME.set(i);
                    wait_turn(STATE.lock().unwrap(), i);
                    INSIDE.set(false);
                    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(job));
                    INSIDE.set(true);
                    let mut s = STATE.lock().unwrap();
                    if let Err(e) = r {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                        s.problem.get_or_insert(format!("thread {i} panicked: {}", m.unwrap_or_default()));
                    }
                    s.status[i] = Status::Done;
                    decide(&mut s, i);
                    ME.set(usize::MAX);
                    INSIDE.set(false);
                }
            });
            tx
        }).collect())
    })
}

pub struct Execution {
    pub decisions: Vec<(usize, usize)>,
    pub log: Vec<(usize, &'static str)>,
    pub steps: u64,
    pub problem: Option<String>,
}

/// Runs the threads under the given decisions (and the first alternative for all later ones).
pub fn execute(prefix: &[usize], bound: usize, jobs: Vec<Job>) -> Execution {
    let n = jobs.len();
    {
        let mut s = STATE.lock().unwrap();
        assert!(s.finished);
        // nobody runs until the first decision
        *s = State { current: usize::MAX, status: vec![Status::Ready; n], prefix: prefix.to_vec(), bound, ..Default::default() };
    }
    let w = workers().lock().unwrap();
    for (i, j) in jobs.into_iter().enumerate() {
        w[i].send((i, j)).unwrap();
    }
    let mut s = STATE.lock().unwrap();
    // who starts is the first decision
    if n > 1 {
        let pick = prefix.first().copied().unwrap_or(0);
        s.decisions.push((n, pick));
        s.current = pick;
    } else {
        s.current = 0;
    }
    TURN[s.current].notify_all();
    while !s.finished {
        let (g, t) = END.wait_timeout(s, ::std::time::Duration::from_secs(30)).unwrap();
        s = g;
        if t.timed_out() && !s.finished {
            s.problem.get_or_insert("no progress for 30 s".into());
            break;
        }
    }
    Execution {
        decisions: ::std::mem::take(&mut s.decisions),
        log: ::std::mem::take(&mut s.log),
        steps: s.steps,
        problem: s.problem.take(),
    }
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub longest: usize,
    pub complete: bool,
    pub violation: Option<(String, Vec<usize>, Vec<(usize, &'static str)>)>,
}

/// All executions with at most `bound` preemptions. `make` builds a fresh world and its threads, and a check for the end.
pub fn explore(bound: usize, deadline: ::std::time::Instant, mut make: impl FnMut() -> (Vec<Job>, Box<dyn FnOnce() -> Result<(), String>>)) -> Report {
    let mut prefix: Vec<usize> = vec![];
    let mut r = Report::default();
    let mut known = 0;
    loop {
        let (jobs, check) = make();
        let e = execute(&prefix, bound, jobs);
        r.executions += 1;
        r.transitions += e.steps;
        r.states += (e.decisions.len() - known) as u64;
        r.longest = r.longest.max(e.decisions.len());
        let chosen: Vec<usize> = e.decisions.iter().map(|d| d.1).collect();
        let fatal = e.problem.is_some();
        if let Some(p) = e.problem.or_else(|| check().err()) {
            r.violation = Some((p, chosen, e.log));
            if fatal {
                return r;
            }
            return r;
        }
        let mut d = e.decisions;
        while d.last().is_some_and(|(n, c)| c + 1 >= *n) {
            d.pop();
        }
        let Some((_, last)) = d.pop() else {
            r.complete = true;
            return r;
        };
        known = d.len();
        prefix = d.iter().map(|x| x.1).collect();
        prefix.push(last + 1);
        if ::std::time::Instant::now() > deadline {
            return r;
        }
    }
}
