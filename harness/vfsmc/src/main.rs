//! Explicit-state exploration of the virtual file system: all operation sequences up to a depth, on the
//! real code over a scratch directory, judged by the reference in model.rs.
mod client;
mod configs;
mod model;

use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

use client::Client;
use configs::{Config, Op};
use model::{Model, View, parent};
use vfs::{DirOrFile, FileIndex};

pub struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Self {
        let base = if std::fs::metadata("/dev/shm").is_ok_and(|m| m.is_dir()) { "/dev/shm" } else { "/tmp" };
        let mut p = PathBuf::from(base).join(format!("vfsmc-{}-{tag}", std::process::id()));
        if std::fs::create_dir_all(&p).is_err() {
            p = PathBuf::from("/tmp").join(format!("vfsmc-{}-{tag}", std::process::id()));
            std::fs::create_dir_all(&p).unwrap();
        }
        Scratch(p)
    }
    fn reset(&self) {
        for e in std::fs::read_dir(&self.0).unwrap().flatten() {
            remove_any(&e.path());
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn remove_any(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => std::fs::remove_dir_all(p).unwrap(),
        Ok(_) => std::fs::remove_file(p).unwrap(),
        Err(_) => (),
    }
}

/// Which property a failure belongs to, and what failed.
pub type Bad = (&'static str, String);
/// The properties that are looked at in this run.
#[derive(Clone)]
pub struct Tags(Vec<String>);
impl Tags {
    fn has(&self, t: &str) -> bool {
        self.0.is_empty() || self.0.iter().any(|x| x == t || x == "recover")
    }
}

pub struct World {
    pub m: Model,
    pub c: Client,
    base: PathBuf,
    bad: Vec<Bad>,
    before: Vec<(String, FileIndex, bool)>,
}

impl World {
    fn new(cfg: &Config, scratch: &Scratch) -> Self {
        scratch.reset();
        let base = scratch.0.clone();
        let mut m = Model::default();
        for d in cfg.init_dirs {
            std::fs::create_dir_all(base.join(d)).unwrap();
            m.disk_dirs.insert(d.to_string());
        }
        for (f, v) in cfg.init {
            let t = cfg.text(f, *v);
            std::fs::write(base.join(f), &t).unwrap();
            m.disk.insert(f.to_string(), t);
        }
        let c = Client::new(base.to_str().unwrap(), cfg.workspaces, cfg.builtin, false);
        c.preload();
        World { m, c, base, bad: vec![], before: vec![] }
    }
    fn disk(&self, p: &str) -> PathBuf {
        self.base.join(p)
    }
    fn event(&mut self, p: &str) {
        self.m.queue.push(p.to_owned());
    }
    fn kill_tree(&mut self, d: &str) -> Vec<String> {
        let inside = |f: &str| f.starts_with(d) && f[d.len()..].starts_with('/');
        let mut gone: Vec<String> = self.m.disk.keys().filter(|f| inside(f)).cloned().collect();
        gone.extend(self.m.disk_dirs.iter().filter(|f| inside(f)).cloned().rev());
        for g in &gone {
            self.m.disk.remove(g);
            self.m.disk_dirs.remove(g);
        }
        self.m.disk_dirs.remove(d);
        gone
    }
    /// Some(Err) is a violation, None means that the operation is not possible here.
    fn apply(&mut self, cfg: &Config, op: &Op) -> Option<Result<(), Bad>> {
        let open_before: Vec<String> = self.m.open.keys().cloned().collect();
        self.before.clear();
        for f in &open_before {
            let p = self.c.abs(f);
            let i = self.c.vfs.in_memory_file(&p);
            if let Some(i) = i {
                let cached = self.c.vfs.file(i).is_some_and(|t| t.cached.is_some());
                self.before.push((f.clone(), i, cached));
            }
        }
        self.c.notified.lock().unwrap().clear();
        let core = self.c.core_text();
        let mut db = false;
        let mut own = None;
        let mut recovered = false;
        match op {
            Op::Write(f, v) => {
                let t = cfg.text(f, *v);
                if let Some(d) = parent(f) {
                    if !self.m.disk_dirs.contains(d) {
                        return None;
                    }
                }
                if self.m.disk.get(*f) == Some(&t) || self.m.disk_dirs.contains(*f) {
                    return None;
                }
                std::fs::write(self.disk(f), &t).unwrap();
                self.m.disk.insert(f.to_string(), t);
                self.event(f);
            }
            Op::Delete(f) => {
                self.m.disk.remove(*f)?;
                std::fs::remove_file(self.disk(f)).unwrap();
                self.event(f);
            }
            Op::Mkdir(d) => {
                if self.m.disk_dirs.contains(*d) || self.m.disk.contains_key(*d) {
                    return None;
                }
                if parent(d).is_some_and(|p| !self.m.disk_dirs.contains(p)) {
                    return None;
                }
                std::fs::create_dir(self.disk(d)).unwrap();
                self.m.disk_dirs.insert(d.to_string());
                self.event(d);
            }
            Op::MkTree(d, files) => {
                // A directory that appears complete, as after a checkout: only the event of the directory
                let known = self.m.virtual_dirs.contains(*d) || self.m.queue.iter().any(|q| q == d);
                if known && !cfg.findings {
                    return None;
                }
                if self.m.disk_dirs.contains(*d) || self.m.disk.contains_key(*d) {
                    return None;
                }
                if parent(d).is_some_and(|p| !self.m.disk_dirs.contains(p)) {
                    return None;
                }
                std::fs::create_dir(self.disk(d)).unwrap();
                self.m.disk_dirs.insert(d.to_string());
                for (f, v) in *files {
                    let t = cfg.text(f, *v);
                    std::fs::write(self.disk(f), &t).unwrap();
                    self.m.disk.insert(f.to_string(), t);
                }
                self.event(d);
            }
            Op::Rmdir(d) => {
                if !self.m.disk_dirs.contains(*d) {
                    return None;
                }
                std::fs::remove_dir_all(self.disk(d)).unwrap();
                for g in self.kill_tree(d) {
                    self.event(&g);
                }
                self.event(d);
            }
            Op::Rename(a, b) => {
                if self.m.disk_dirs.contains(*b) || self.m.disk.contains_key(*b) {
                    return None;
                }
                let known = self.m.virtual_dirs.contains(*b) || self.m.queue.iter().any(|q| q == b);
                if self.m.disk_dirs.contains(*a) && known && !cfg.findings {
                    return None;
                }
                if let Some(t) = self.m.disk.remove(*a) {
                    std::fs::rename(self.disk(a), self.disk(b)).unwrap();
                    self.m.disk.insert(b.to_string(), t);
                } else if self.m.disk_dirs.contains(*a) {
                    std::fs::rename(self.disk(a), self.disk(b)).unwrap();
                    let keep = self.m.clone();
                    let gone = self.kill_tree(a);
                    self.m.disk_dirs.insert(b.to_string());
                    for g in gone {
                        let n = format!("{b}{}", &g[a.len()..]);
                        match keep.disk.get(&g) {
                            Some(t) => {
                                self.m.disk.insert(n, t.clone());
                            }
                            None => {
                                self.m.disk_dirs.insert(n);
                            }
                        }
                    }
                } else {
                    return None;
                }
                self.event(a);
                self.event(b);
            }
            Op::DeliverOne => {
                if self.m.queue.is_empty() {
                    return None;
                }
                let p = self.m.queue.remove(0);
                db |= self.c.event(&p);
                self.m.delivered(&p);
            }
            Op::DeliverAll => {
                if self.m.queue.len() < 2 {
                    return None;
                }
                for p in std::mem::take(&mut self.m.queue) {
                    db |= self.c.event(&p);
                    self.m.delivered(&p);
                }
            }
            Op::Spurious(p) => {
                // events may be repeated or arrive without a change
                if !self.m.queue.is_empty() {
                    return None;
                }
                db |= self.c.event(p);
                self.m.delivered(p);
            }
            Op::Open(f, v) => {
                let t = cfg.text(f, *v);
                let (i, d) = self.c.open(f, &t);
                if i.is_none() {
                    return Some(Err(("overlay", format!("opening {f} returned no file"))));
                }
                db |= d;
                self.m.open.insert(f.to_string(), t);
                self.m.virtual_parents(f);
                own = Some(f.to_string());
            }
            Op::Close(f) => {
                let was = self.m.open.remove(*f).is_some();
                if cfg.findings {
                    self.m.virtual_dirs = Default::default();
                    for o in self.m.open.clone().keys() {
                        self.m.virtual_parents(o);
                    }
                }
                match self.c.close(f) {
                    Ok(d) if was => db |= d,
                    Err(_) if !was => return None,
                    Ok(_) => return Some(Err(("overlay", format!("closing {f}, which is not open, succeeded")))),
                    Err(e) => return Some(Err(("overlay", format!("closing {f} failed: {e}")))),
                }
            }
            Op::Analyze(f) => {
                match self.c.analyze(f) {
                    Ok(found) => {
                        if self.m.queue.is_empty() && found != self.m.text(f).is_some() {
                            return Some(Err(("converge", format!("{f} found: {found}"))));
                        }
                        if !found {
                            return None;
                        }
                    }
                    Err(e) => return Some(Err(("converge", e))),
                }
            }
            Op::Recover => {
                if !self.m.queue.is_empty() {
                    return None;
                }
                recovered = true;
                self.m.virtual_dirs = Default::default();
                for o in self.m.open.clone().keys() {
                    self.m.virtual_parents(o);
                }
                let n = Client::new(self.base.to_str().unwrap(), cfg.workspaces, cfg.builtin, false);
                let old = std::mem::replace(&mut self.c, n);
                let notified = old.notified.clone();
                let role = old.role.get();
                let rec = old.vfs.into_panic_recovery();
                for f in &open_before {
                    let a = self.c.abs(f);
                    let a: &str = a.path();
                    if !notified.lock().unwrap().iter().any(|n| n == a) {
                        return Some(Err(("recover", format!("the open file {f} is not reported by the recovery"))));
                    }
                }
                self.c.vfs.load_panic_recovery(true, rec, |_, _, c| client::TestFile::new(c));
                self.c.role.set(role);
                if self.c.core_text().is_none() {
                    self.c.role.set(false);
                }
            }
        }
        if self.m.queue.len() > cfg.max_queue {
            return None;
        }
        // Notifications about open files
        let notified: Vec<String> = self.c.notified.lock().unwrap().iter().map(|p| self.c.rel(p)).collect();
        if recovered {
            return Some(Ok(()));
        }
        if core.is_some() && !db && self.c.core_text() != core {
            self.bad.push(("stale", format!("a change of {} did not invalidate the whole database", cfg.builtin.unwrap())));
        }
        for (f, i, cached) in &self.before {
            if !self.m.open.contains_key(f) {
                continue;
            }
            let p = self.c.abs(f);
            if self.c.vfs.in_memory_file(&p) != Some(*i) {
                self.bad.push(("overlay", format!("the open file {f} changed its index")));
            }
            let now = self.c.vfs.file(*i).is_some_and(|t| t.cached.is_some());
            if (*cached && !now || db) && !notified.contains(f) {
                self.bad.push(("notify", format!("the open file {f} was invalidated, but this is not reported")));
            }
        }
        if let Some(o) = own {
            if !notified.contains(&o) {
                self.bad.push(("notify", format!("storing the open file {o} is not reported")));
            }
        }
        for n in &notified {
            if !self.m.open.contains_key(n) {
                self.bad.push(("notify", format!("{n} is reported as an invalidated open file, but is not open")));
            }
        }
        Some(Ok(()))
    }

    /// What must hold in every state.
    fn check(&mut self, cfg: &Config) -> u64 {
        let mut facts = 0;
        // open buffers
        let mut ids: Vec<u32> = self.c.vfs.in_memory_file_ids().map(|i| i.0).collect();
        ids.sort();
        let mut want = vec![];
        for (f, t) in self.m.open.clone() {
            facts += 1;
            let p = self.c.abs(&f);
            let Some(i) = self.c.vfs.in_memory_file(&p) else {
                self.bad.push(("overlay", format!("the open file {f} is not known as in memory file")));
                continue;
            };
            want.push(i.0);
            match self.c.vfs.file(i) {
                Some(x) if *x.code == *t => (),
                Some(x) => self.bad.push(("overlay", format!("the open file {f} has the text {:?}", x.code))),
                None => self.bad.push(("overlay", format!("the open file {f} is not loaded"))),
            }
            if self.c.rel_of(i) != f {
                self.bad.push(("overlay", format!("the index of {f} belongs to {}", self.c.rel_of(i))));
            }
            match self.c.vfs.search_path(true, &p) {
                Some(DirOrFile::File(e)) if e.get_file_index() == Some(i) => {
                    let ep = e.absolute_path(&*self.c.vfs.handler);
                    if ep != p {
                        self.bad.push(("overlay", format!("the entry of {f} has the path {:?}", ep.path().to_string())));
                    }
                }
                r => self.bad.push(("overlay", format!("looking up the open file {f} gives {}", show(&r)))),
            }
        }
        want.sort();
        if ids != want {
            self.bad.push(("overlay", format!("in memory files are {ids:?}, expected {want:?}")));
        }
        if !self.m.queue.is_empty() {
            return facts;
        }
        // cached analyses
        let roots = self.c.roots.clone();
        for f in cfg.files.iter().map(|f| f.path) {
            let p = self.c.abs(f);
            let Some(DirOrFile::File(e)) = self.c.vfs.search_path(true, &p) else {
                continue;
            };
            let Some(i) = e.get_file_index() else {
                continue;
            };
            facts += 1;
            if let Some(c) = self.c.vfs.file(i).and_then(|t| t.cached.as_ref()) {
                let want: View = self.m.view(&roots, f, cfg.builtin);
                if *c != want {
                    self.bad.push(("stale", format!(
                        "the analysis of {f} is still considered valid, but it saw {c:?} and now there is {want:?}"
                    )));
                }
            }
        }
        // the tree and the contents
        let mut seen = std::collections::HashMap::new();
        for f in cfg.files.iter().map(|f| f.path) {
            facts += 1;
            let p = self.c.abs(f);
            match (self.c.vfs.search_path(true, &p), self.m.text(f)) {
                (Some(DirOrFile::File(e)), Some(t)) => {
                    let Some(i) = self.c.load(&e, false) else {
                        self.bad.push(("converge", format!("{f} cannot be loaded")));
                        continue;
                    };
                    let code = self.c.vfs.file(i).map(|x| x.code.to_string());
                    if code.as_deref() != Some(t) {
                        self.bad.push(("converge", format!("{f} is served with the text {code:?} instead of {t:?}")));
                    }
                    if let Some(o) = seen.insert(i, f) {
                        self.bad.push(("identity", format!("{f} and {o} share a file index")));
                    }
                    // the innermost workspace owns the file
                    let inner = cfg
                        .workspaces
                        .iter()
                        .filter(|w| w.is_empty() || f.starts_with(*w) && f[w.len()..].starts_with('/'))
                        .max_by_key(|w| w.len());
                    if let Some(w) = inner {
                        let root = self.c.rel(&e.parent.workspace_path());
                        if root != *w {
                            self.bad.push(("identity", format!("{f} belongs to the workspace {root:?} instead of {w:?}")));
                        }
                        let rel = e.relative_path(&*self.c.vfs.handler);
                        if rel != f[w.len()..].trim_start_matches('/') {
                            self.bad.push(("identity", format!("{f} has the path {rel:?} in the workspace {w:?}")));
                        }
                    }
                    if self.c.rel_of(i) != f || e.get_file_index() != Some(i) {
                        self.bad.push(("identity", format!("{f} has an index of {}", self.c.rel_of(i))));
                    }
                }
                (None, None) => (),
                (Some(DirOrFile::Dir(_)), None) if self.m.is_dir(f) => (),
                (got, want) => self.bad.push(("converge", format!("looking up {f} gives {}, expected {want:?}", show(&got)))),
            }
        }
        for d in cfg.dirs {
            facts += 1;
            let p = self.c.abs(d);
            let got = self.c.vfs.search_path(true, &p);
            if matches!(got, Some(DirOrFile::Dir(_))) != self.m.is_dir(d) {
                self.bad.push(("converge", format!("looking up the directory {d} gives {}", show(&got))));
            }
        }
        facts
    }
}

fn show(r: &Option<DirOrFile>) -> String {
    match r {
        None => "nothing".into(),
        Some(DirOrFile::Dir(_)) => "a directory".into(),
        Some(DirOrFile::File(f)) => format!("a file with index {:?}", f.get_file_index()),
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

enum End {
    Disabled,
    Bad(Bad),
    Ok { fp: u64, facts: u64 },
}

/// Replays a history; everything but the last operation is known to be fine.
fn replay(cfg: &Config, scratch: &Scratch, ops: &[&Op], tags: &Tags) -> End {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut w = World::new(cfg, scratch);
        for op in ops {
            w.bad.clear();
            match w.apply(cfg, op) {
                None => return End::Disabled,
                Some(Err(e)) => return End::Bad(e),
                Some(Ok(())) => (),
            }
        }
        let fp = w.c.fingerprint();
        let mut h = DefaultHasher::new();
        (&w.m, &fp).hash(&mut h);
        let fp = h.finish();
        let facts = w.check(cfg);
        match w.bad.into_iter().find(|b| tags.has(b.0)) {
            None => End::Ok { fp, facts },
            Some(e) => End::Bad(e),
        }
    }));
    match r {
        Ok(e) => e,
        Err(p) => End::Bad(("panic", format!("panicked: {}", panic_text(p)))),
    }
}

fn explore(cfg: &Config, depth: usize, threads: usize, tags: &Tags) -> serde_json::Value {
    let mut ops = cfg.ops();
    if !tags.0.is_empty() && !tags.has("recover") {
        ops.retain(|o| *o != Op::Recover);
    }
    let recover_only = tags.0 == ["recover"];
    let mut frontier: Vec<Vec<u16>> = vec![vec![]];
    let mut seen: HashSet<u64> = HashSet::new();
    let transitions = AtomicU64::new(0);
    let replays = AtomicU64::new(0);
    let facts = AtomicU64::new(0);
    let mut failures: Vec<(String, String)> = vec![];
    let mut failure_count = 0u64;
    let mut samples = vec![];
    let mut levels = vec![];
    let fmt = |s: &[u16]| {
        format!("{}: {}", cfg.name, s.iter().map(|&i| format!("{:?}", ops[i as usize])).collect::<Vec<_>>().join("; "))
    };
    for _ in 0..depth {
        let next = AtomicUsize::new(0);
        let found = Mutex::new(Vec::<(u64, Vec<u16>)>::new());
        let bad = Mutex::new(Vec::<(Vec<u16>, String)>::new());
        let active = AtomicUsize::new(threads);
        let current: Vec<Mutex<Option<(std::time::Instant, Vec<u16>)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        std::thread::scope(|s| {
            {
                // a history that never ends is a failure of its own
                let (active, current, fmt) = (&active, &current, &fmt);
                s.spawn(move || {
                    while active.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(2));
                        for c in current {
                            if let Some((t, h)) = &*c.lock().unwrap() {
                                if t.elapsed().as_secs() > 60 {
                                    println!("{}", serde_json::json!({
                                        "config": cfg.name, "states": 0, "transitions": 0, "replays": 0, "facts": 0,
                                        "depth": depth, "samples": [], "failure_count": 1,
                                        "failures": [(fmt(h), "[hang] the history does not come to an end")]}));
                                    std::process::exit(0);
                                }
                            }
                        }
                    }
                });
            }
            for t in 0..threads {
                let (current, active) = (&current, &active);
                let (next, found, bad, frontier, ops, transitions, facts, seen, replays) =
                    (&next, &found, &bad, &frontier, &ops, &transitions, &facts, &seen, &replays);
                s.spawn(move || {
                    let scratch = Scratch::new(&format!("{}-{t}", cfg.name));
                    let mut mine = vec![];
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= frontier.len() {
                            break;
                        }
                        for o in 0..ops.len() {
                            let seq: Vec<&Op> =
                                frontier[k].iter().map(|&i| &ops[i as usize]).chain([&ops[o]]).collect();
                            replays.fetch_add(1, Ordering::Relaxed);
                            let mut h = frontier[k].clone();
                            h.push(o as u16);
                            *current[t].lock().unwrap() = Some((std::time::Instant::now(), h.clone()));
                            match replay(cfg, &scratch, &seq, tags) {
                                End::Disabled => (),
                                End::Bad((t, e)) => {
                                    // what goes wrong without a recovery is reported by other checks
                                    let mine = !recover_only || seq.iter().any(|o| **o == Op::Recover);
                                    if mine {
                                        bad.lock().unwrap().push((h, format!("[{t}] {e}")))
                                    }
                                }
                                End::Ok { fp, facts: n } => {
                                    transitions.fetch_add(1, Ordering::Relaxed);
                                    facts.fetch_add(n, Ordering::Relaxed);
                                    if !seen.contains(&fp) {
                                        mine.push((fp, h));
                                    }
                                }
                            }
                        }
                    }
                    *current[t].lock().unwrap() = None;
                    active.fetch_sub(1, Ordering::SeqCst);
                    found.lock().unwrap().extend(mine);
                });
            }
        });
        let mut bad = bad.into_inner().unwrap();
        bad.sort();
        failure_count += bad.len() as u64;
        for (h, e) in bad.into_iter().take(200) {
            failures.push((fmt(&h), e));
        }
        let mut found = found.into_inner().unwrap();
        found.sort();
        frontier = vec![];
        for (fp, h) in found {
            if seen.insert(fp) {
                frontier.push(h);
            }
        }
        levels.push(frontier.len());
        if !frontier.is_empty() {
            samples.push(fmt(&frontier[frontier.len() / 2]));
        }
        if frontier.is_empty() {
            break;
        }
    }
    serde_json::json!({
        "config": cfg.name, "operations": ops.len(), "depth": depth, "states": seen.len() + 1,
        "transitions": transitions.into_inner(), "replays": replays.into_inner(), "facts": facts.into_inner(),
        "states_per_level": levels, "failures": failures.into_iter().take(200).collect::<Vec<_>>(),
        "failure_count": failure_count, "samples": samples,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::panic::set_hook(Box::new(|_| ()));
    match args.get(1).map(|s| s.as_str()) {
        Some("explore") => {
            let thorough = args[2] == "thorough";
            // names of configurations, and the properties to look at as `+tag`
            let (tags, only): (Vec<&str>, Vec<&str>) =
                args[3..].iter().map(|s| s.as_str()).partition(|s| s.starts_with('+'));
            let tags = Tags(tags.iter().map(|t| t[1..].to_owned()).collect());
            for cfg in configs::all() {
                if !only.is_empty() && !only.contains(&cfg.name) {
                    continue;
                }
                let d = if thorough { cfg.depth.1 } else { cfg.depth.0 };
                println!("{}", explore(&cfg, d, threads, &tags));
            }
        }
        _ => eprintln!("usage: vfsmc explore quick|thorough [config..]"),
    }
}
