//! A minimal client of the VFS that follows the protocol of the type checker: it loads files, resolves
//! imports, registers what it depends on and caches what it saw.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use crossbeam_channel::Receiver;
use vfs::*;

use crate::model::{View, imports};

#[derive(Clone, Debug, PartialEq)]
pub enum Link {
    File(FileIndex),
    Namespace(Vec<String>),
    Nothing,
}

#[derive(Clone, Debug)]
pub struct TestFile {
    pub code: Box<str>,
    /// resolved imports, one list per import statement; gone after an invalidation
    pub links: Option<Vec<Vec<Link>>>,
    /// what the last analysis saw
    pub cached: Option<View>,
}
impl TestFile {
    pub fn new(code: Box<str>) -> Self {
        Self { code, links: None, cached: None }
    }
}
impl VfsFile for TestFile {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        self.links = None;
        self.cached = None;
    }
}

pub type Notified = Arc<Mutex<Vec<String>>>;
pub struct Handler {
    pub fs: SimpleLocalFS,
    pub notified: Notified,
}
impl VfsHandler for Handler {
    fn read_and_watch_file(&self, path: &PathWithScheme) -> Option<String> {
        self.fs.read_and_watch_file(path)
    }
    fn notify_receiver(&self) -> Option<&Receiver<NotifyEvent>> {
        self.fs.notify_receiver()
    }
    fn on_invalidated_in_memory_file(&self, path: PathWithScheme) {
        self.notified.lock().unwrap().push(path.path().to_string());
    }
    fn read_and_watch_dir(&self, w: &[Arc<Workspace>], path: &str, parent: Parent) -> Entries {
        self.fs.read_and_watch_dir(w, path, parent)
    }
    fn read_and_watch_entry(
        &self,
        w: &[Arc<Workspace>],
        path: &str,
        parent: Parent,
        replace_name: &str,
    ) -> Option<DirectoryEntry> {
        self.fs.read_and_watch_entry(w, path, parent, replace_name)
    }
    fn is_unnecessary_invalidation(&self, path: &AbsPath, e: Option<&DirectoryEntry>) -> bool {
        self.fs.is_unnecessary_invalidation(path, e)
    }
}

pub struct Client {
    pub vfs: Vfs<TestFile>,
    pub root: String,
    pub notified: Notified,
    pub roots: Vec<String>,
    pub builtin: Option<String>,
    /// Whether `builtin` was loaded as a file that the whole database depends on.
    pub role: std::cell::Cell<bool>,
}

enum Found {
    File(Arc<FileEntry>),
    Namespace(Vec<Arc<Directory>>),
    Nothing,
}

impl Client {
    pub fn new(root: &str, workspaces: &[&str], builtin: Option<&str>, watch: bool) -> Self {
        let notified = Notified::default();
        let n2 = notified.clone();
        let fs = if watch {
            LocalFS::with_watcher(Box::new(move |p: PathWithScheme| {
                n2.lock().unwrap().push(p.path().to_string())
            }) as Box<dyn Fn(PathWithScheme) + Sync + Send>)
        } else {
            SimpleLocalFS::without_watcher()
        };
        let handler = Box::new(Handler { fs, notified: notified.clone() });
        let mut b = WorkspacesBuilder::new(&*handler);
        for w in workspaces {
            let p = if w.is_empty() { root.to_owned() } else { format!("{root}/{w}") };
            b.add(handler.normalize_unchecked_abs_path(&p), WorkspaceKind::TypeChecking);
        }
        b.add(handler.normalize_unchecked_abs_path("/fallback-root"), WorkspaceKind::Fallback);
        let w: Workspaces = b.into();
        Client {
            vfs: Vfs::new(handler, w),
            root: root.to_owned(),
            notified,
            roots: workspaces.iter().map(|s| s.to_string()).collect(),
            builtin: builtin.map(|s| s.to_owned()),
            role: Default::default(),
        }
    }
    pub fn abs(&self, rel: &str) -> PathWithScheme {
        let p = if rel.is_empty() { self.root.clone() } else { format!("{}/{rel}", self.root) };
        PathWithScheme::with_file_scheme(self.vfs.handler.normalize_unchecked_abs_path(&p))
    }
    pub fn rel(&self, p: &str) -> String {
        p.strip_prefix(&self.root).map_or_else(|| p.to_owned(), |r| r.trim_start_matches('/').to_owned())
    }
    pub fn rel_of(&self, i: FileIndex) -> String {
        let p: &str = self.vfs.file_path(i).path();
        self.rel(p)
    }
    fn handle(&mut self, r: InvalidationResult) -> bool {
        if r == InvalidationResult::InvalidatedDb {
            for fs in self.vfs.files.iter_mut() {
                if let Some(f) = fs.file_mut() {
                    f.links = None;
                    f.cached = None;
                }
            }
            self.preload();
            return true;
        }
        false
    }
    /// Like the type checker, have the file that everything depends on loaded all the time.
    pub fn preload(&self) -> Option<FileIndex> {
        let i = self.preload_builtin();
        self.role.set(i.is_some());
        i
    }
    /// The text of the loaded file that the whole database depends on.
    pub fn core_text(&self) -> Option<String> {
        let b = self.builtin.as_ref()?;
        if !self.role.get() {
            return None;
        }
        let i = (0..self.vfs.files.len() as u32).map(FileIndex).find(|i| self.rel_of(*i) == *b)?;
        Some(self.vfs.file(i)?.code.to_string())
    }
    fn preload_builtin(&self) -> Option<FileIndex> {
        let p = self.abs(self.builtin.as_ref()?);
        let Some(DirOrFile::File(e)) = self.vfs.search_path(true, &p) else {
            return None;
        };
        self.load(&e, true)
    }
    /// The bool says whether the whole database was invalidated.
    pub fn open(&mut self, rel: &str, code: &str) -> (Option<FileIndex>, bool) {
        let p = self.abs(rel);
        let (i, r) = self.vfs.store_in_memory_file(true, p, code.into(), |_, _, c| TestFile::new(c));
        (i, self.handle(r))
    }
    pub fn close(&mut self, rel: &str) -> Result<bool, &'static str> {
        let p = self.abs(rel);
        let r = self.vfs.close_in_memory_file(true, &p, |_, _, c| TestFile::new(c))?;
        Ok(self.handle(r))
    }
    pub fn event(&mut self, rel: &str) -> bool {
        let p = self.abs(rel);
        let r = self.vfs.invalidate_path(true, p.path());
        self.handle(r)
    }
    pub fn load(&self, e: &Arc<FileEntry>, db: bool) -> Option<FileIndex> {
        self.vfs.ensure_file_for_file_entry(e.clone(), db, |_, c| TestFile::new(c))
    }
    /// What the importer of the type checker does for one name.
    fn import(&self, from: FileIndex, dirs: &[&Entries], name: &str) -> Found {
        let mut ns = vec![];
        let (py, pyi) = (format!("{name}.py"), format!("{name}.pyi"));
        for dir in dirs {
            let mut had_ns = false;
            let mut hit = None;
            {
                let b = dir.borrow();
                if let Some(DirectoryEntry::Directory(d)) = b.get(name) {
                    if let Some(f) = self.init_file(d, from) {
                        return Found::File(f);
                    }
                    had_ns = true;
                    ns.push(d.clone());
                }
                for n in [&pyi, &py] {
                    if let Some(DirectoryEntry::File(f)) = b.get(&**n) {
                        hit = Some(f.clone());
                        break;
                    }
                }
            }
            if let Some(f) = hit {
                self.vfs.ensure_file_index(&f);
                f.add_invalidation(from);
                if f.name.ends_with(".py") {
                    // the stub would take precedence
                    dir.add_missing_entry_callback(from)(&pyi);
                }
                if !had_ns {
                    dir.add_missing_entry_callback(from)(name);
                }
                return Found::File(f);
            }
            let mut add = dir.add_missing_entry_callback(from);
            add(&py);
            add(&pyi);
            if !had_ns {
                add(name);
            }
        }
        if ns.is_empty() { Found::Nothing } else { Found::Namespace(ns) }
    }
    fn init_file(&self, d: &Arc<Directory>, from: FileIndex) -> Option<Arc<FileEntry>> {
        let entries = Directory::entries(&self.vfs, d);
        for n in ["__init__.pyi", "__init__.py"] {
            let found = match entries.search(n).as_deref() {
                Some(DirectoryEntry::File(f)) => Some(f.clone()),
                _ => None,
            };
            if let Some(f) = found {
                self.vfs.ensure_file_index(&f);
                f.add_invalidation(from);
                return Some(f);
            }
            entries.add_missing_entry_callback(from)(n);
        }
        None
    }
    fn resolve(&self, from: FileIndex, dotted: &str) -> Vec<Link> {
        let w = self.vfs.workspaces.load();
        let roots: Vec<&Entries> = w
            .iter()
            .filter(|w| w.kind != WorkspaceKind::Fallback)
            .map(|w| &w.entries)
            .collect();
        let mut out = vec![];
        let mut dirs: Option<Vec<Arc<Directory>>> = None;
        for name in dotted.split('.') {
            let found = match &dirs {
                None => self.import(from, &roots, name),
                Some(ds) => {
                    let es: Vec<&Entries> = ds.iter().map(|d| Directory::entries(&self.vfs, d)).collect();
                    self.import(from, &es, name)
                }
            };
            match found {
                Found::Nothing => {
                    out.push(Link::Nothing);
                    break;
                }
                Found::File(f) => {
                    out.push(Link::File(f.get_file_index().expect("an index was ensured")));
                    if !f.name.starts_with("__init__.py") {
                        break;
                    }
                    match f.parent.maybe_dir() {
                        Ok(d) => dirs = Some(vec![d]),
                        Err(_) => break,
                    }
                }
                Found::Namespace(ds) => {
                    out.push(Link::Namespace(
                        ds.iter()
                            .map(|d| {
                                let p = d.absolute_path(&*self.vfs.handler);
                                self.rel(p.path())
                            })
                            .collect(),
                    ));
                    dirs = Some(ds);
                }
            }
        }
        out
    }
    /// Analyse a file: resolve what is not resolved yet, walk the closure, cache what was seen.
    pub fn analyze(&mut self, rel: &str) -> Result<bool, String> {
        let p = self.abs(rel);
        let Some(DirOrFile::File(e)) = self.vfs.search_path(true, &p) else {
            return Ok(false);
        };
        let Some(start) = self.load(&e, false) else {
            return Ok(false);
        };
        let mut seen = BTreeMap::new();
        let mut todo = vec![start];
        let mut visited = vec![];
        while let Some(i) = todo.pop() {
            if visited.contains(&i) {
                continue;
            }
            visited.push(i);
            let Ok(f) = self.vfs.ensure_file_for_file_index(i, |_, c| TestFile::new(c)) else {
                seen.insert(self.rel_of(i), ("<cannot be loaded>".to_owned(), vec![]));
                continue;
            };
            let code = f.code.to_string();
            let links = match &f.links {
                Some(l) => l.clone(),
                None => {
                    let l: Vec<_> = imports(&code).map(|d| self.resolve(i, d)).collect();
                    self.vfs.file_mut(i).unwrap().links = Some(l.clone());
                    l
                }
            };
            let mut rs = vec![];
            for l in links.iter().flatten() {
                rs.push(match l {
                    Link::File(t) => {
                        todo.push(*t);
                        format!("File({:?})", self.rel_of(*t))
                    }
                    Link::Namespace(n) => format!("Namespace({n:?})"),
                    Link::Nothing => "Nothing".into(),
                });
            }
            seen.insert(self.rel_of(i), (code, rs));
        }
        if let Some(b) = self.builtin.clone() {
            if let Some(i) = self.preload() {
                seen.entry(b).or_insert_with(|| (self.vfs.file(i).unwrap().code.to_string(), vec![]));
            }
        }
        self.vfs.file_mut(start).unwrap().cached = Some(View(seen));
        Ok(true)
    }
    /// Everything that can influence the future, with file indexes replaced by paths.
    pub fn fingerprint(&mut self) -> String {
        let names: Vec<String> =
            (0..self.vfs.files.len()).map(|i| self.rel_of(FileIndex(i as u32))).collect();
        let mut out = String::new();
        let w = self.vfs.workspaces.load();
        for ws in w.iter() {
            out.push_str(&format!("[{}]", self.rel(ws.root_path())));
            self.dump_entries(&ws.entries, &mut out, 0);
        }
        drop(w);
        let mut states = vec![];
        for i in 0..names.len() {
            let e = self.vfs.file_entry(FileIndex(i as u32));
            let same = match self.vfs.search_path(true, self.vfs.file_path(FileIndex(i as u32))) {
                Some(DirOrFile::File(f)) => Arc::ptr_eq(&f, e),
                _ => false,
            };
            let f = self.vfs.file(FileIndex(i as u32));
            states.push(format!(
                "{}:{same}:{}:{:?}",
                names[i],
                inv(&format!("{e:?}")),
                f.map(|f| (&f.code, &f.links, &f.cached))
            ));
        }
        states.sort();
        out.push_str(&states.join("|"));
        // canonical indexes
        let mut res = String::with_capacity(out.len());
        let mut rest = out.as_str();
        while let Some(k) = rest.find("FileIndex(") {
            res.push_str(&rest[..k]);
            let end = k + rest[k..].find(')').unwrap();
            let n: usize = rest[k + 10..end].parse().unwrap();
            res.push_str(&format!("FI<{}{}>", names[n], if n > 0 && names[..n].contains(&names[n]) { "'" } else { "" }));
            rest = &rest[end + 1..];
        }
        res.push_str(rest);
        res
    }
    fn dump_entries(&self, e: &Entries, out: &mut String, depth: usize) {
        let b = e.borrow();
        let mut names: Vec<_> = b.keys().cloned().collect();
        names.sort();
        out.push('{');
        for n in names {
            match &b[&n] {
                DirectoryEntry::File(f) => {
                    out.push_str(&format!("F {n} {:?} {};", f.get_file_index(), inv(&format!("{f:?}"))))
                }
                DirectoryEntry::MissingEntry(m) => {
                    out.push_str(&format!("M {n} {};", inv(&format!("{m:?}"))))
                }
                DirectoryEntry::Gitignore(_) => out.push_str(&format!("G {n};")),
                DirectoryEntry::Directory(d) => {
                    // Debug tells whether the entries were read already, without reading them
                    let loaded = !format!("{d:?}").starts_with("Directory { entries: OnceLock(<uninit>)");
                    out.push_str(&format!("D {n} {}{loaded}", d.is_nested_workspace()));
                    if loaded && !d.is_nested_workspace() && depth < 6 {
                        self.dump_entries(Directory::entries(&self.vfs, d), out, depth + 1);
                    }
                    out.push(';');
                }
            }
        }
        out.push('}');
    }
}

/// The invalidations of a Debug rendering, in a canonical order.
fn inv(s: &str) -> String {
    if s.contains("InvalidatesDb") {
        return "DB".into();
    }
    let Some(k) = s.find("invalidations:") else {
        return s.to_owned();
    };
    let mut v = vec![];
    let mut rest = &s[k..];
    while let Some(k) = rest.find("FileIndex(") {
        let end = k + rest[k..].find(')').unwrap();
        v.push(rest[k..end + 1].to_owned());
        rest = &rest[end..];
    }
    v.sort();
    format!("{} {v:?}", &s[..s.find("invalidations:").unwrap()])
}
