//! Files and directories looked up and loaded from several threads.
use crate::{End, Job, Scenario};
use shim::sched;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vfs::*;

#[derive(Debug)]
struct F {
    code: Box<str>,
    index: FileIndex,
    valid: bool,
}
impl VfsFile for F {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        self.valid = false;
    }
}

struct H(SimpleLocalFS);
impl VfsHandler for H {
    fn read_and_watch_file(&self, p: &PathWithScheme) -> Option<String> {
        sched::point("read file");
        self.0.read_and_watch_file(p)
    }
    fn notify_receiver(&self) -> Option<&crossbeam_channel::Receiver<NotifyEvent>> {
        None
    }
    fn on_invalidated_in_memory_file(&self, _: PathWithScheme) {}
    fn read_and_watch_dir(&self, w: &[Arc<Workspace>], p: &str, parent: Parent) -> Entries {
        sched::point("read directory");
        self.0.read_and_watch_dir(w, p, parent)
    }
    fn read_and_watch_entry(&self, w: &[Arc<Workspace>], p: &str, parent: Parent, n: &str) -> Option<DirectoryEntry> {
        sched::point("read entry");
        self.0.read_and_watch_entry(w, p, parent, n)
    }
    fn is_unnecessary_invalidation(&self, p: &AbsPath, e: Option<&DirectoryEntry>) -> bool {
        self.0.is_unnecessary_invalidation(p, e)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    /// look the path up and load it
    Load(&'static str),
    /// load it only if a condition on its text holds, which does not
    Refuse(&'static str),
    /// only give it an index
    Index(&'static str),
    /// give it an index and load it by this index
    ByIndex(&'static str),
    /// load the first, which depends on the second
    Depend(&'static str, &'static str),
    /// load the first, which looked for the name third in the directory second
    Miss(&'static str, &'static str, &'static str),
    /// list a directory
    List(&'static str),
    /// walk the whole workspace
    Walk,
    /// a file outside of all workspaces
    Outside(&'static str),
    /// add a workspace
    Workspace(&'static str),
    /// load the file and add a file inside of it
    Sub(&'static str),
    /// load as part of the database core
    Core(&'static str),
}

pub const FILES: [(&str, &str); 5] =
    [("w/a.py", "a = 1"), ("w/b.py", "b = 1"), ("w/d/c.py", "c = 1"), ("w/d/e/f.py", "f = 1"), ("o/x.py", "x = 1")];

struct World {
    vfs: Vfs<F>,
    root: String,
    seen: Mutex<Vec<(&'static str, FileIndex)>>,
    depend: Mutex<Vec<(FileIndex, String)>>,
    added: Mutex<Vec<(&'static str, bool)>>,
    subs: Mutex<Vec<FileIndex>>,
    core: Mutex<Vec<&'static str>>,
    outside: Mutex<Vec<FileIndex>>,
    addresses: Mutex<BTreeMap<&'static str, Vec<usize>>>,
}

fn text(p: &str) -> &'static str {
    FILES.iter().find(|f| f.0 == p).unwrap().1
}

impl World {
    fn new(root: &str) -> Self {
        let h = Box::new(H(SimpleLocalFS::without_watcher()));
        let mut b = WorkspacesBuilder::new(&*h);
        b.add(h.normalize_unchecked_abs_path(&format!("{root}/w")), WorkspaceKind::TypeChecking);
        b.add(h.normalize_unchecked_abs_path("/fallback-root"), WorkspaceKind::Fallback);
        let ws: Workspaces = b.into();
        World {
            vfs: Vfs::new(h, ws),
            root: root.into(),
            seen: Default::default(),
            depend: Default::default(),
            added: Default::default(),
            subs: Default::default(),
            core: Default::default(),
            outside: Default::default(),
            addresses: Default::default(),
        }
    }
    fn path(&self, p: &str) -> PathWithScheme {
        PathWithScheme::with_file_scheme(self.vfs.handler.normalize_unchecked_abs_path(&format!("{}/{p}", self.root)))
    }
    fn entry(&self, p: &'static str) -> Arc<FileEntry> {
        match self.vfs.search_path(true, &self.path(p)) {
            Some(DirOrFile::File(e)) => {
                assert_eq!(e.absolute_path(&*self.vfs.handler), self.path(p));
                self.addresses.lock().unwrap().entry(p).or_default().push(Arc::as_ptr(&e) as usize);
                e
            }
            x => panic!("{p} is not found: {x:?}"),
        }
    }
    fn saw(&self, p: &'static str, i: FileIndex) {
        assert_eq!(self.vfs.file_path(i), &self.path(p), "the index {i} of {p} belongs to another path");
        self.seen.lock().unwrap().push((p, i));
    }
    fn loaded(&self, p: &'static str, i: FileIndex) {
        self.saw(p, i);
        let f = self.vfs.file(i).unwrap_or_else(|| panic!("{p} is not there right after loading it"));
        assert_eq!(&*f.code, text(p));
        assert_eq!(f.index, i, "{p} was made for another index");
    }
    fn load(&self, p: &'static str, core: bool) -> FileIndex {
        let e = self.entry(p);
        let i = self.vfs.ensure_file_for_file_entry(e, core, |index, code| F { code, index, valid: true }).unwrap();
        self.loaded(p, i);
        i
    }
    fn run(&self, op: Op) {
        match op {
            Op::Load(p) => {
                self.load(p, false);
            }
            Op::Core(p) => {
                self.load(p, true);
                self.core.lock().unwrap().push(p);
            }
            Op::Refuse(p) => {
                let e = self.entry(p);
                if let Some(i) =
                    self.vfs.ensure_file_for_file_entry_with_conditional(e, false, |_| false, |_, _| panic!("{p} was refused, but made"))
                {
                    self.loaded(p, i);
                }
            }
            Op::Index(p) => {
                let e = self.entry(p);
                self.saw(p, self.vfs.ensure_file_index(&e));
            }
            Op::ByIndex(p) => {
                let e = self.entry(p);
                let i = self.vfs.ensure_file_index(&e);
                self.saw(p, i);
                let f = self.vfs.ensure_file_for_file_index(i, |_, code| F { code, index: i, valid: true }).unwrap();
                assert_eq!(&*f.code, text(p));
                self.loaded(p, i);
            }
            Op::Depend(p, on) => {
                let i = self.load(p, false);
                let e = self.entry(on);
                self.saw(on, self.vfs.ensure_file_index(&e));
                e.add_invalidation(i);
                self.depend.lock().unwrap().push((i, on.into()));
            }
            Op::Miss(p, dir, name) => {
                let i = self.load(p, false);
                self.with_entries(dir, |es| es.add_missing_entry_callback(i)(name));
                self.depend.lock().unwrap().push((i, format!("{dir}/{name}")));
            }
            Op::List(dir) => self.with_entries(dir, |es| {
                let names: Vec<String> = es
                    .borrow()
                    .iter()
                    .filter(|(_, e)| !matches!(e, DirectoryEntry::MissingEntry(_)))
                    .map(|(n, _)| n.to_string())
                    .collect();
                self.check_names(dir, names);
            }),
            Op::Walk => {
                let mut n = 0;
                for es in self.vfs.workspaces.load().entries_to_type_check() {
                    es.walk_entries(&self.vfs, &mut |_, e| {
                        if let DirectoryEntry::File(_) = e {
                            n += 1;
                        }
                        true
                    });
                }
                assert!(n >= 4, "only {n} files found");
            }
            Op::Outside(p) => {
                let Some(DirectoryEntry::File(e)) = self.vfs.ensure_fallback(self.path(p)) else { panic!("{p}") };
                assert_eq!(e.name.to_string(), self.path(p).path().to_string());
                self.addresses.lock().unwrap().entry(p).or_default().push(Arc::as_ptr(&e) as usize);
                let i = self.vfs.ensure_file_for_file_entry(e, false, |index, code| F { code, index, valid: true }).unwrap();
                assert_eq!(self.vfs.file(i).map(|f| &*f.code), Some(text(p)));
                self.outside.lock().unwrap().push(i);
            }
            Op::Workspace(d) => {
                let r = self.vfs.add_workspace_without_full_access(
                    self.vfs.handler.normalize_unchecked_abs_path(&format!("{}/{d}", self.root)),
                    WorkspaceKind::SitePackages,
                );
                self.added.lock().unwrap().push((d, r));
            }
            Op::Sub(p) => {
                let i = self.load(p, false);
                let s = self.vfs.create_sub_file(i, |index| F { code: "sub".into(), index, valid: true });
                assert_ne!(s, i);
                let f = self.vfs.file(s).unwrap();
                assert_eq!((&*f.code, f.index), ("sub", s), "sub file {s}");
                self.subs.lock().unwrap().push(s);
            }
        }
    }
    fn check_names(&self, dir: &str, mut names: Vec<String>) {
        names.sort();
        let mut want: Vec<&str> = FILES
            .iter()
            .filter_map(|f| f.0.strip_prefix(dir).and_then(|r| r.strip_prefix('/')))
            .map(|r| r.split('/').next().unwrap())
            .collect();
        want.sort();
        want.dedup();
        assert_eq!(names, want, "{dir} is listed wrongly");
    }
    fn with_entries(&self, dir: &str, f: impl FnOnce(&Entries)) {
        if dir == "w" {
            let ws = self.vfs.workspaces.load();
            f(&ws.iter().next().unwrap().entries)
        } else {
            match self.vfs.search_path(true, &self.path(dir)) {
                Some(DirOrFile::Dir(d)) => f(Directory::entries(&self.vfs, &d)),
                x => panic!("{dir} is not found: {x:?}"),
            }
        }
    }
    /// Alone again: everything the threads were told has to fit together.
    fn end(mut self, changed: Option<String>) -> Result<(), String> {
        let mut index: BTreeMap<&str, FileIndex> = Default::default();
        for (p, i) in std::mem::take(&mut *self.seen.lock().unwrap()) {
            if *index.entry(p).or_insert(i) != i {
                return Err(format!("{p} has the indexes {} and {i}", index[p]));
            }
        }
        let mut all: Vec<FileIndex> = index.values().copied().chain(self.subs.lock().unwrap().iter().copied()).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        if all.len() != n {
            return Err(format!("an index was given twice: {index:?}"));
        }
        for (p, a) in self.addresses.lock().unwrap().iter() {
            if a.iter().any(|x| *x != a[0]) {
                return Err(format!("{p} was found as different entries"));
            }
        }
        for (p, i) in &index {
            match self.vfs.search_path(true, &self.path(p)) {
                Some(DirOrFile::File(e)) if e.get_file_index() == Some(*i) => (),
                x => return Err(format!("{p} is now {x:?}, expected index {i}")),
            }
        }
        for d in ["w", "w/d"] {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run(Op::List(d))));
            if r.is_err() {
                return Err(format!("{d} is listed wrongly in the end"));
            }
        }
        let outside = std::mem::take(&mut *self.outside.lock().unwrap());
        if outside.iter().any(|i| *i != outside[0] || all.contains(i)) {
            return Err(format!("the file outside has the indexes {outside:?}"));
        }
        // workspaces: each is there once, and told so once
        let mut roots: BTreeMap<&str, usize> = Default::default();
        for (d, r) in self.added.lock().unwrap().iter() {
            *roots.entry(d).or_default() += *r as usize;
        }
        for (d, r) in &roots {
            let want = self.path(d).path().to_string();
            let n = self.vfs.workspaces.load().iter().filter(|w| **w.root_path() == *want).count();
            if n != 1 || *r != 1 {
                return Err(format!("workspace {d} was added: {r} times, is there: {n} times"));
            }
        }
        if self.vfs.workspaces.load().iter().count() != 2 + roots.len() {
            return Err("a workspace was lost".into());
        }
        // core files
        let core = std::mem::take(&mut *self.core.lock().unwrap());
        if let Some(p) = core.first() {
            let path = self.path(p);
            let (_, r) = self.vfs.store_in_memory_file(true, path, "core = 2".into(), |index, _, code| F { code, index, valid: true });
            return match r {
                InvalidationResult::InvalidatedDb => Ok(()),
                _ => Err(format!("{p} is part of the core, but a change does not invalidate everything")),
            };
        }
        // what was registered is invalidated
        let depend = std::mem::take(&mut *self.depend.lock().unwrap());
        if let Some(t) = changed {
            for i in 0..self.vfs.files.len() {
                if let Some(f) = self.vfs.file_mut(FileIndex(i as u32)) {
                    f.valid = true;
                }
            }
            let path = self.path(&t);
            let _ = self.vfs.store_in_memory_file(true, path, "changed = 2".into(), |index, _, code| F { code, index, valid: true });
            for (i, on) in &depend {
                if *on == t && self.vfs.file_path(*i) != &self.path(&t) && self.vfs.file(*i).is_some_and(|f| f.valid) {
                    return Err(format!("{} depends on {on}, but did not learn about its change", self.vfs.file_path(*i).path()));
                }
            }
        }
        Ok(())
    }
}

fn root() -> &'static str {
    static R: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let base = std::env::var("CONC_SCRATCH").expect("CONC_SCRATCH");
        for (p, t) in FILES {
            let p = format!("{base}/{p}");
            std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
        }
        base
    })
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    use Op::*;
    let ops = [
        Load("w/a.py"), Load("w/d/c.py"), Load("w/d/e/f.py"), Refuse("w/a.py"), Index("w/a.py"), Index("w/d/c.py"), ByIndex("w/a.py"), ByIndex("w/d/c.py"),
        Depend("w/a.py", "w/b.py"), Depend("w/b.py", "w/a.py"), Depend("w/a.py", "w/d/c.py"), Miss("w/a.py", "w", "m.py"), Miss("w/b.py", "w", "m.py"),
        Miss("w/a.py", "w/d", "m.py"), Miss("w/b.py", "w/d", "m.py"), List("w"), List("w/d"), Walk, Outside("o/x.py"), Workspace("o"), Workspace("p"),
        Sub("w/a.py"), Core("w/a.py"),
    ];
    let mut programs: Vec<(usize, Vec<Vec<Op>>)> = vec![];
    for (i, a) in ops.iter().enumerate() {
        for b in &ops[i..] {
            programs.push((if thorough { 4 } else { 3 }, vec![vec![*a], vec![*b]]));
        }
    }
    let few = if thorough { &ops[..] } else { &ops[..16] };
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate().skip(i) {
            for c in &few[j..] {
                programs.push((if thorough { 2 } else { 1 }, vec![vec![*a], vec![*b], vec![*c]]));
            }
        }
    }
    if thorough {
        for a in ops {
            for b in ops {
                for c in ops {
                    programs.push((2, vec![vec![a, b], vec![b, c]]));
                }
            }
        }
    }
    let root = root();
    let mut all = vec![];
    for (bound, p) in programs {
        // which of the files that something depends on is changed in the end
        let mut changed: Vec<Option<String>> = p
            .iter()
            .flatten()
            .filter_map(|op| match op {
                Depend(_, on) => Some(Some(on.to_string())),
                Miss(_, dir, name) => Some(Some(format!("{dir}/{name}"))),
                _ => None,
            })
            .collect();
        changed.sort();
        changed.dedup();
        if changed.is_empty() {
            changed.push(None);
        }
        for changed in changed {
            let p = p.clone();
            all.push(Scenario {
                name: format!("{p:?}{}", changed.as_ref().map_or(String::new(), |c| format!(" then {c} changes"))).replace(['"', ' '], ""),
                bound,
                make: Box::new(move || {
                    let w = Arc::new(World::new(root));
                    let jobs = p
                        .iter()
                        .map(|ops| {
                            let w = w.clone();
                            let ops = ops.clone();
                            Box::new(move || {
                                for op in &ops {
                                    w.run(*op);
                                }
                            }) as Job
                        })
                        .collect();
                    let changed = changed.clone();
                    (jobs, Box::new(move || Arc::into_inner(w).expect("threads are done").end(changed)) as End)
                }),
            });
        }
    }
    all
}
