//! The reference: what a user must see, computed from the disk and the open buffers alone.
use std::collections::{BTreeMap, BTreeSet};

/// Paths are relative to the scratch directory, without a leading slash.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    pub disk: BTreeMap<String, String>, // files with their text
    pub disk_dirs: BTreeSet<String>,
    pub open: BTreeMap<String, String>,
    /// file system events that were not delivered yet
    pub queue: Vec<String>,
    /// directories that are known only because a buffer was opened in them (see DESIGN.md)
    pub virtual_dirs: BTreeSet<String>,
}

pub fn parent(p: &str) -> Option<&str> {
    p.rfind('/').map(|i| &p[..i])
}
pub fn join(d: &str, n: &str) -> String {
    if d.is_empty() { n.to_owned() } else { format!("{d}/{n}") }
}
/// Never part of the tree when it comes from the disk.
pub fn ignored(name: &str) -> bool {
    name.starts_with('.') || ["site-packages", "node_modules", "__pycache__"].contains(&name)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Resolved {
    File(String),
    Namespace(Vec<String>),
    Nothing,
}

impl Model {
    pub fn text(&self, p: &str) -> Option<&str> {
        if let Some(t) = self.open.get(p) {
            return Some(t);
        }
        if p.split('/').any(ignored) {
            return None;
        }
        self.disk.get(p).map(|s| s.as_str())
    }
    pub fn is_dir(&self, p: &str) -> bool {
        if self.virtual_dirs.contains(p) {
            return true;
        }
        if p.split('/').any(ignored) {
            return false;
        }
        self.disk_dirs.contains(p)
    }
    pub fn has_open_inside(&self, d: &str) -> bool {
        self.open.keys().any(|f| f.starts_with(d) && f[d.len()..].starts_with('/'))
    }
    pub fn virtual_parents(&mut self, f: &str) {
        let mut p = parent(f);
        while let Some(d) = p {
            self.virtual_dirs.insert(d.to_owned());
            p = parent(d);
        }
    }
    /// After the delivery of an event: directories that exist in neither the disk nor a buffer go.
    pub fn delivered(&mut self, p: &str) {
        if self.disk_dirs.contains(p) {
            return;
        }
        let inside = format!("{p}/");
        let gone: Vec<String> = self
            .virtual_dirs
            .iter()
            .filter(|d| (*d == p || d.starts_with(&inside)) && !self.has_open_inside(d))
            .cloned()
            .collect();
        for d in gone {
            self.virtual_dirs.remove(&d);
        }
    }
    /// The search order of Python: packages, then stubs, then modules; namespaces last.
    pub fn resolve(&self, dirs: &[String], name: &str) -> Resolved {
        let mut ns = vec![];
        for d in dirs {
            let sub = join(d, name);
            if self.is_dir(&sub) {
                for init in ["__init__.pyi", "__init__.py"] {
                    let p = join(&sub, init);
                    if self.text(&p).is_some() {
                        return Resolved::File(p);
                    }
                }
                ns.push(sub);
            }
            for ext in ["pyi", "py"] {
                let p = join(d, &format!("{name}.{ext}"));
                if self.text(&p).is_some() {
                    return Resolved::File(p);
                }
            }
        }
        if ns.is_empty() { Resolved::Nothing } else { Resolved::Namespace(ns) }
    }
    pub fn resolve_dotted(&self, roots: &[String], dotted: &str) -> Vec<Resolved> {
        let mut dirs = roots.to_vec();
        let mut out = vec![];
        for name in dotted.split('.') {
            let r = self.resolve(&dirs, name);
            out.push(r.clone());
            match r {
                Resolved::File(p) if p.rsplit('/').next().unwrap().starts_with("__init__.py") => {
                    dirs = vec![parent(&p).unwrap_or("").to_owned()]
                }
                Resolved::Namespace(d) => dirs = d,
                _ => break,
            }
        }
        out
    }
    /// Everything an analysis of `p` can see: the closure over imports.
    pub fn view(&self, roots: &[String], p: &str, builtin: Option<&str>) -> View {
        let mut v = View::default();
        let mut todo = vec![p.to_owned()];
        while let Some(f) = todo.pop() {
            if v.0.contains_key(&f) {
                continue;
            }
            let Some(text) = self.text(&f) else {
                continue;
            };
            let mut rs = vec![];
            for i in imports(text) {
                for r in self.resolve_dotted(roots, i) {
                    if let Resolved::File(p) = &r {
                        todo.push(p.clone());
                    }
                    rs.push(format!("{r:?}"));
                }
            }
            v.0.insert(f, (text.to_owned(), rs));
        }
        if let Some(b) = builtin {
            if let Some(t) = self.text(b) {
                v.0.entry(b.to_owned()).or_insert_with(|| (t.to_owned(), vec![]));
            }
        }
        v
    }
}

#[derive(Clone, Default, PartialEq, Eq, Debug, Hash)]
pub struct View(pub BTreeMap<String, (String, Vec<String>)>);

pub fn imports(code: &str) -> impl Iterator<Item = &str> {
    code.lines().filter_map(|l| l.strip_prefix("import "))
}
