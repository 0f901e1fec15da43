//! The bounded worlds that are explored.
#[derive(Clone)]
pub struct FileSpec {
    pub path: &'static str,
    /// the import statements of each version of the text
    pub versions: &'static [&'static [&'static str]],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Write(&'static str, usize),
    Delete(&'static str),
    Mkdir(&'static str),
    MkTree(&'static str, &'static [(&'static str, usize)]),
    Rmdir(&'static str),
    Rename(&'static str, &'static str),
    DeliverOne,
    DeliverAll,
    Spurious(&'static str),
    Open(&'static str, usize),
    Close(&'static str),
    Analyze(&'static str),
    Recover,
}

#[derive(Clone)]
pub struct Config {
    pub name: &'static str,
    pub workspaces: &'static [&'static str],
    pub files: Vec<FileSpec>,
    pub dirs: &'static [&'static str],
    pub init: &'static [(&'static str, usize)],
    pub init_dirs: &'static [&'static str],
    pub max_queue: usize,
    pub extra: Vec<Op>,
    /// files that take part in disk operations, editor operations and analyses
    pub disk: &'static [&'static str],
    pub edit: &'static [&'static str],
    pub analyze: &'static [&'static str],
    pub depth: (usize, usize),
    /// no tolerance for what known-findings.jsonl lists
    pub findings: bool,
    /// every analysis depends on this file, which is loaded as one that invalidates the database
    pub builtin: Option<&'static str>,
}

impl Config {
    pub fn text(&self, f: &str, v: usize) -> String {
        let spec = self.files.iter().find(|s| s.path == f).unwrap_or_else(|| panic!("{f}"));
        if spec.versions[v] == ["<empty>"] {
            return String::new();
        }
        let mut s = format!("# {f} version {v}\n");
        for i in spec.versions[v] {
            s.push_str(&format!("import {i}\n"));
        }
        s
    }
    pub fn ops(&self) -> Vec<Op> {
        let mut ops = vec![Op::DeliverOne, Op::DeliverAll];
        for f in self.files.iter().map(|f| f.path) {
            let n = self.files.iter().find(|s| s.path == f).unwrap().versions.len();
            if self.analyze.contains(&f) {
                ops.push(Op::Analyze(f));
            }
            if self.edit.contains(&f) {
                ops.extend((0..n).map(|v| Op::Open(f, v)));
                ops.push(Op::Close(f));
            }
            if self.disk.contains(&f) {
                ops.extend((0..n).map(|v| Op::Write(f, v)));
                ops.push(Op::Delete(f));
            }
        }
        ops.extend(self.extra.iter().copied());
        ops
    }
}

fn f(path: &'static str, versions: &'static [&'static [&'static str]]) -> FileSpec {
    FileSpec { path, versions }
}

fn base(name: &'static str, depth: (usize, usize)) -> Config {
    Config {
        name,
        workspaces: &[""],
        files: vec![],
        dirs: &[],
        init: &[],
        init_dirs: &[],
        max_queue: 2,
        extra: vec![],
        disk: &[],
        edit: &[],
        analyze: &[],
        depth,
        findings: false,
        builtin: None,
    }
}

pub fn all() -> Vec<Config> {
    use Op::*;
    let nested = Config {
        files: vec![
            f("a.py", &[&["sub.m"], &["m"]]),
            f("sub/m.py", &[&[], &["a"]]),
            f("m.py", &[&[]]),
            f("sub/p/n.py", &[&["m"]]),
        ],
        dirs: &["sub", "sub/p"],
        init: &[("a.py", 0), ("sub/m.py", 0)],
        init_dirs: &["sub"],
        extra: vec![Spurious("sub"), Spurious("sub/m.py"), Mkdir("sub/p"), Rmdir("sub/p"), Recover],
        disk: &["sub/m.py", "m.py"],
        edit: &["sub/m.py", "a.py", "sub/p/n.py"],
        analyze: &["a.py", "sub/p/n.py"],
        ..base("", (6, 7))
    };
    vec![
        // modules that import each other, stubs, cycles
        Config {
            files: vec![f("a.py", &[&["b"], &["c"]]), f("b.py", &[&["c"], &[]]), f("c.py", &[&["a"], &[]]), f("c.pyi", &[&[]])],
            init: &[("a.py", 0), ("b.py", 0)],
            extra: vec![Spurious("a.py"), Recover],
            disk: &["b.py", "c.py", "c.pyi"],
            edit: &["a.py", "c.py"],
            analyze: &["a.py", "b.py"],
            ..base("modules", (7, 9))
        },
        // a package that comes and goes
        Config {
            files: vec![
                f("a.py", &[&["d.m"]]),
                f("d/__init__.py", &[&[], &["a"]]),
                f("d/m.py", &[&["d"], &[]]),
                f("d.py", &[&[]]),
            ],
            dirs: &["d"],
            init: &[("a.py", 0)],
            max_queue: 3,
            extra: vec![
                Mkdir("d"),
                Rmdir("d"),
                MkTree("d", &[("d/m.py", 1), ("d/__init__.py", 0)]),
                Spurious("d"),
                Recover,
            ],
            disk: &["d/__init__.py", "d/m.py", "d.py"],
            edit: &["d/m.py", "a.py"],
            analyze: &["a.py", "d/m.py"],
            ..base("packages", (7, 9))
        },
        // two levels of directories
        Config {
            files: vec![
                f("a.py", &[&["d.e.m"]]),
                f("d/__init__.py", &[&[]]),
                f("d/e/m.py", &[&["a"], &[]]),
                f("d/e/n.py", &[&["d.e.m"]]),
            ],
            dirs: &["d", "d/e"],
            init: &[("a.py", 0)],
            max_queue: 3,
            extra: vec![
                Mkdir("d"),
                Rmdir("d"),
                Mkdir("d/e"),
                Rmdir("d/e"),
                MkTree("d/e", &[("d/e/m.py", 0), ("d/e/n.py", 0)]),
                Spurious("d/e"),
                Recover,
            ],
            disk: &["d/__init__.py", "d/e/m.py"],
            edit: &["d/e/m.py", "d/e/n.py"],
            analyze: &["a.py", "d/e/n.py"],
            ..base("deep", (7, 9))
        },
        // files and directories are renamed
        Config {
            files: vec![
                f("a.py", &[&["d.m"], &["b"]]),
                f("b.py", &[&["e.m"]]),
                f("c.py", &[&["e.m"]]),
                f("d/m.py", &[&[], &["b"]]),
                f("e/m.py", &[&[], &["b"]]),
            ],
            dirs: &["d", "e"],
            init: &[("a.py", 0), ("b.py", 0), ("d/m.py", 0)],
            init_dirs: &["d"],
            extra: vec![Rename("d", "e"), Rename("e", "d"), Rename("b.py", "c.py"), Rename("c.py", "b.py"), Recover],
            disk: &["d/m.py"],
            edit: &["a.py", "e/m.py"],
            analyze: &["a.py", "b.py"],
            ..base("renames", (7, 9))
        },
        // a workspace inside of another one, added in both orders
        Config { name: "nested", workspaces: &["", "sub"], ..nested.clone() },
        Config { name: "nested-first", workspaces: &["sub", ""], ..nested },
        // a file that everything depends on
        Config {
            files: vec![
                f("a.py", &[&["b"]]),
                f("b.py", &[&[], &["d.m"]]),
                f("t.py", &[&[], &[]]),
                f("d/m.py", &[&[], &["b"]]),
            ],
            dirs: &["d"],
            init: &[("a.py", 0), ("b.py", 0), ("t.py", 0)],
            extra: vec![Mkdir("d"), Rmdir("d"), Write("t.py", 0), Write("t.py", 1), Recover],
            disk: &["b.py", "d/m.py"],
            edit: &["t.py", "d/m.py"],
            analyze: &["a.py", "d/m.py"],
            builtin: Some("t.py"),
            ..base("database", (7, 9))
        },
        // a name that is a file, then a directory, then a file
        Config {
            files: vec![f("a.py", &[&["d.m"]]), f("d", &[&[], &["<empty>"]]), f("d/m.py", &[&[]]), f("d.pyi", &[&[]])],
            dirs: &["d"],
            init: &[("a.py", 0)],
            extra: vec![Mkdir("d"), Rmdir("d"), MkTree("d", &[("d/m.py", 0)]), Spurious("d"), Recover],
            disk: &["d", "d/m.py", "d.pyi"],
            edit: &["a.py", "d.pyi"],
            analyze: &["a.py"],
            ..base("swap", (7, 9))
        },
        // buffers that belong to no workspace, or have names that are ignored on disk
        Config {
            workspaces: &["w"],
            files: vec![
                f("o.py", &[&["m"], &[]]),
                f("w/m.py", &[&[], &["k"]]),
                f("w/k.py", &[&[]]),
                f("w/.h.py", &[&["m"]]),
                f("w/.d/x.py", &[&["k"]]),
            ],
            init: &[("w/m.py", 0)],
            init_dirs: &["w"],
            extra: vec![Recover],
            disk: &["w/m.py", "w/k.py"],
            edit: &["o.py", "w/.h.py", "w/.d/x.py", "w/k.py"],
            analyze: &["o.py", "w/.h.py", "w/.d/x.py"],
            ..base("outside", (6, 7))
        },
        // no tolerance: what known-findings.jsonl lists shows up here
        Config {
            files: vec![f("a.py", &[&["d"]]), f("d/m.py", &[&[]]), f("d/n.py", &[&[]])],
            dirs: &["d"],
            init: &[("a.py", 0)],
            extra: vec![MkTree("d", &[("d/n.py", 0)]), Rmdir("d")],
            edit: &["d/m.py"],
            analyze: &["a.py"],
            findings: true,
            ..base("findings", (4, 4))
        },
        Config {
            files: vec![f("a.py", &[&["d"]]), f("d/m.py", &[&[]]), f("d/n.py", &[&[]])],
            dirs: &["d"],
            init: &[("a.py", 0), ("d/m.py", 0)],
            init_dirs: &["d"],
            extra: vec![MkTree("d", &[("d/n.py", 0)]), Rmdir("d")],
            max_queue: 3,
            analyze: &["a.py"],
            findings: true,
            ..base("findings-replaced", (4, 4))
        },
    ]
}
