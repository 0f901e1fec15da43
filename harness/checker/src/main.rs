//! The real type checker, driven by requests. `checker TYPESHED ROOT FLAGS...` makes one project, then reads one request per
//! line (a JSON list of operations) and runs each in a forked copy of the fresh project, so requests cannot influence each
//! other and a crash of one is only an answer. Answers are lines of JSON: the results of the operations, the last one being
//! {"panic": ...} or {"signal": ...} if it did not come to an end.
use config::*;
use serde_json::{Value, json};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use vfs::*;
use zuban_python::*;

mod shape;

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

struct S {
    project: Option<Project>,
    root: String,
    flags: Vec<String>,
    typeshed: String,
}

fn options(root: &str, typeshed: &str, flags: &[String]) -> ProjectOptions {
    let h = LocalFS::without_watcher();
    let mut settings = Settings {
        typeshed_path: Some(h.normalize_unchecked_abs_path(typeshed)),
        mypy_path: vec![h.normalize_unchecked_abs_path(root)],
        add_global_packages_default: false,
        mode: if flags.iter().any(|f| f == "default-mode") { Mode::Default } else { Mode::Mypy },
        platform: Some("linux".into()),
        python_version: Some(PythonVersion { major: 3, minor: 12 }),
        ..Default::default()
    };
    if flags.iter().any(|f| f == "any-returns") {
        settings.untyped_function_return_mode = UntypedFunctionReturnMode::Any;
    }
    let mut t = TypeCheckerFlags::default();
    for f in flags {
        match f.as_str() {
            "strict" => t.enable_all_strict_flags(),
            "check-untyped" => t.check_untyped_defs = true,
            "unreachable" => t.warn_unreachable = true,
            "default-mode" | "any-returns" => (),
            x => panic!("unknown flag {x}"),
        }
    }
    ProjectOptions::new(settings, t)
}

fn new_project(root: &str, typeshed: &str, flags: &[String]) -> Project {
    Project::without_watcher(options(root, typeshed, flags), RunCause::LanguageServer)
}

fn pos(p: &PositionInfos) -> Value {
    json!([p.byte_position, p.line_zero_based(), p.utf8_bytes_column(), p.utf16_code_units_column(), p.code_points_column()])
}
fn range(r: (PositionInfos, PositionInfos)) -> Value {
    json!([r.0.byte_position, r.1.byte_position])
}
fn text(v: &Value) -> &str {
    v.as_str().expect("a string")
}
fn at(v: &Value) -> InputPosition {
    if let Some(n) = v.as_u64() {
        return InputPosition::NthUTF8Byte(n as usize);
    }
    let (line, column) = (v[1].as_u64().unwrap() as usize, v[2].as_u64().unwrap() as usize);
    match text(&v[0]) {
        "utf8" => InputPosition::Utf8Bytes { line, column },
        "utf16" => InputPosition::Utf16CodeUnits { line, column },
        "chars" => InputPosition::CodePoints { line, column },
        x => panic!("{x}"),
    }
}
fn or_error<T>(r: anyhow::Result<T>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(x) => f(x),
        Err(e) => json!({"error": e.to_string()}),
    }
}
fn names(root: &str, n: &Name) -> Value {
    let p = n.file_path().to_string();
    json!([p.strip_prefix(root).unwrap_or(&p).trim_start_matches('/'), n.name_range().0.byte_position, n.name_range().1.byte_position, n.name()])
}
// the type is not nameable from outside
macro_rules! diagnostic {
    ($d:expr) => {{
        let d = $d;
        let (s, e) = (d.start_position(), d.end_position());
        let severity = match d.severity() {
            Severity::Error => "error",
            Severity::Warning => "warning",
            Severity::Information => "information",
            Severity::Hint => "hint",
        };
        json!([s.byte_position, e.byte_position, s.line_one_based(), severity, d.mypy_error_code(), d.message()])
    }};
}

impl S {
    fn p(&mut self) -> &mut Project {
        self.project.as_mut().unwrap()
    }
    fn path(&self, p: &str) -> PathWithScheme {
        let h = LocalFS::without_watcher();
        PathWithScheme::with_file_scheme(h.normalize_unchecked_abs_path(&format!("{}/{p}", self.root)))
    }
    fn document(&mut self, p: &str, f: impl FnOnce(&mut Document, &str) -> Value) -> Value {
        let path = self.path(p);
        let root = self.root.clone();
        match self.p().document(&path) {
            Some(mut d) => f(&mut d, &root),
            None => Value::Null,
        }
    }
    fn run(&mut self, op: &Value) -> Value {
        let o = op.as_array().unwrap();
        let arg = |i: usize| text(&o[i]);
        match arg(0) {
            "store" => {
                let path = self.path(arg(1));
                self.p().store_in_memory_file(path, arg(2).into());
                Value::Null
            }
            "close" => {
                let path = self.path(arg(1));
                match self.p().close_in_memory_file(&path) {
                    Ok(()) => Value::Null,
                    Err(e) => json!({"error": e}),
                }
            }
            "delete-directory" => {
                let path = self.path(arg(1));
                match self.p().delete_directory_of_in_memory_files(&path) {
                    Ok(()) => Value::Null,
                    Err(e) => json!({"error": e}),
                }
            }
            "write" => {
                let path = format!("{}/{}", self.root, arg(1));
                std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).unwrap();
                std::fs::write(&path, arg(2)).unwrap();
                Value::Null
            }
            // only what the requests before this one wrote; files with the name .keep belong to the project
            "clean" => {
                fn clean(d: &std::path::Path) {
                    for e in std::fs::read_dir(d).unwrap() {
                        let p = e.unwrap().path();
                        if p.is_dir() {
                            clean(&p);
                            let _ = std::fs::remove_dir(&p);
                        } else if p.file_name().unwrap() != ".keep" {
                            std::fs::remove_file(&p).unwrap();
                        }
                    }
                }
                clean(std::path::Path::new(&self.root));
                Value::Null
            }
            "restart" => {
                self.project = Some(new_project(&self.root, &self.typeshed, &self.flags));
                Value::Null
            }
            "remove" => {
                std::fs::remove_file(format!("{}/{}", self.root, arg(1))).unwrap();
                Value::Null
            }
            "event" => {
                let path = self.path(arg(1));
                self.p().invalidate_path(path.path());
                Value::Null
            }
            // ["lsp", path, "utf8"|"utf16"|"chars", [[sl, sc, el, ec, text] | text]]
            "lsp" => {
                let path = self.path(arg(1));
                let kind = o[2].clone();
                let changes = o[3]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| match c.as_str() {
                        Some(t) => lsp_types::TextDocumentContentChangeEvent { range: None, range_length: None, text: t.into() },
                        None => {
                            let n = |i: usize| c[i].as_u64().unwrap() as u32;
                            lsp_types::TextDocumentContentChangeEvent {
                                range: Some(lsp_types::Range {
                                    start: lsp_types::Position { line: n(0), character: n(1) },
                                    end: lsp_types::Position { line: n(2), character: n(3) },
                                }),
                                range_length: None,
                                text: text(&c[4]).into(),
                            }
                        }
                    })
                    .collect();
                let r = self.p().store_file_with_lsp_changes(path, changes, |p| at(&json!([kind, p.line, p.character])));
                or_error(r, |()| Value::Null)
            }
            "code" => {
                let path = self.path(arg(1));
                json!(self.p().code_of_in_memory_file(&path))
            }
            "diag" => self.document(arg(1), |d, _| d.diagnostics().iter().map(|d| diagnostic!(d)).collect()),
            "check" => {
                let root = self.root.clone();
                let current = Some(root.as_str());
                match self.p().diagnostics() {
                    Ok(ds) => json!({
                        "files": ds.checked_files,
                        "bad": ds.files_with_errors,
                        "summary": ds.summary(),
                        "issues": ds.issues.iter().map(|d| d.as_string(&DiagnosticConfig::default(), current)).collect::<Vec<_>>(),
                    }),
                    Err(e) => json!({"error": e.to_string()}),
                }
            }
            // ["goto", path, position, follow imports]
            "goto" => self.document(arg(1), |d, root| {
                let follow = o[3].as_bool().unwrap();
                or_error(d.goto(at(&o[2]), GotoGoal::Indifferent, follow, |n| names(root, &n)), |v| json!(v))
            }),
            "infer" => self.document(arg(1), |d, root| {
                or_error(d.infer_definition(at(&o[2]), GotoGoal::Indifferent, false, |n| names(root, &n.name)), |v| json!(v))
            }),
            "references" => self.document(arg(1), |d, root| {
                let r = d.references(at(&o[2]), ReferencesGoal::OnlyTypeCheckedWorkspaces, true, |n| names(root, &n));
                or_error(r, |v| json!(v))
            }),
            "can-rename" => self.document(arg(1), |d, _| or_error(d.is_valid_rename_location(at(&o[2])), |r| r.map_or(Value::Null, range))),
            "rename" => self.document(arg(1), |d, root| {
                or_error(d.references_for_rename(at(&o[2]), arg(3)), |r| {
                    json!({
                        "changes": r.changes.iter().map(|c| {
                            let p = c.path.path().to_string();
                            json!([p.strip_prefix(root).unwrap_or(&p).trim_start_matches('/'), c.ranges.iter().map(|r| range(*r)).collect::<Vec<_>>()])
                        }).collect::<Vec<_>>(),
                        "files": r.renames().map(|f| json!([f.from_uri(), f.to_uri()])).collect::<Vec<_>>(),
                    })
                })
            }),
            "complete" => self.document(arg(1), |d, _| {
                let r = d.complete(at(&o[2]), true, |r, c| Some(json!([c.label(), c.insert_text(), range(r), c.kind().0])));
                or_error(r, |v| json!(v))
            }),
            "signatures" => self.document(arg(1), |d, _| {
                or_error(d.call_signatures(at(&o[2])), |s| match s {
                    Some(s) => s.into_iterator().map(|c| json!([&*c.label, c.is_valid_with_arguments, c.current_param])).collect(),
                    None => Value::Null,
                })
            }),
            "documentation" => self.document(arg(1), |d, _| {
                or_error(d.documentation(at(&o[2]), false), |s| match s {
                    Some(s) => json!([s.documentation, range(s.on_symbol_range)]),
                    None => Value::Null,
                })
            }),
            "selection" => self.document(arg(1), |d, _| or_error(d.selection_ranges(at(&o[2])), |r| r.map(range).collect())),
            "tokens" => self.document(arg(1), |d, _| {
                or_error(d.semantic_tokens(None), |r| {
                    r.map(|t| json!([t.position().byte_position, t.length(), t.lsp_type.0, t.pretty_properties()])).collect()
                })
            }),
            "hints" => self.document(arg(1), |d, _| {
                or_error(d.inlay_hints(at(&o[2]), at(&o[3])), |r| r.map(|h| json!([h.position.byte_position, h.label()])).collect())
            }),
            "actions" => self.document(arg(1), |d, _| {
                or_error(d.code_actions(at(&o[2]), Some(at(&o[3])), false), |r| {
                    r.iter()
                        .map(|a| json!([a.title, a.start_of_change.byte_position, a.end_of_change.byte_position, a.replacement]))
                        .collect()
                })
            }),
            "folding" => self.document(arg(1), |d, _| d.folding_ranges().map(|f| json!([pos(&f.start), pos(&f.end), format!("{:?}", f.kind)])).collect()),
            "symbols" => self.document(arg(1), |d, root| d.symbols().map(|s| names(root, &s.as_name())).collect()),
            "positions" => self.document(arg(1), |d, _| d.symbols().map(|s| json!([pos(&s.as_name().name_range().0), pos(&s.as_name().name_range().1)])).collect()),
            "recover" => {
                let r = self.project.take().unwrap().into_panic_recovery();
                let o = options(&self.root, &self.typeshed, &self.flags);
                self.project = Some(Project::from_recovery(Box::new(LocalFS::without_watcher()), o, r));
                Value::Null
            }
            // everything at every position: only crashes and wrong ranges are of interest
            "everything" => self.everything(arg(1), arg(2)),
            x => panic!("unknown operation {x}"),
        }
    }
    fn everything(&mut self, p: &str, code: &str) -> Value {
        let mut problems = vec![];
        let mut queries = 0;
        let mut answered = 0;
        let n = code.len();
        let mut ask = |s: &mut Self, op: Value| {
            queries += 1;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.run(&op))) {
                Err(_) => problems.push(json!([op, PANIC.lock().unwrap().take()])),
                Ok(answer) => {
                    answered += (!answer.is_null() && answer.as_array().is_none_or(|a| !a.is_empty())) as usize;
                    if let Err(e) = shape::check(p, code, &op, &answer) {
                        problems.push(json!([op, e]));
                    }
                }
            }
        };
        for op in ["diag", "tokens", "folding", "symbols"] {
            ask(self, json!([op, p]));
        }
        ask(self, json!(["hints", p, 0, n]));
        ask(self, json!(["actions", p, 0, n]));
        for i in (0..=n).filter(|i| code.is_char_boundary(*i)) {
            for op in [
                json!(["goto", p, i, true]), json!(["infer", p, i]), json!(["references", p, i]), json!(["can-rename", p, i]),
                json!(["rename", p, i, "renamed"]), json!(["complete", p, i]), json!(["signatures", p, i]),
                json!(["documentation", p, i]), json!(["selection", p, i]), json!(["actions", p, i, i]),
            ] {
                ask(self, op);
            }
        }
        json!({"queries": queries, "answered": answered, "problems": problems})
    }
}

static PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = S { project: None, root: a[2].trim_end_matches('/').into(), flags: a[3..].to_vec(), typeshed: a[1].clone() };
    // In a thread pool of its own, because threads do not survive a fork; the copies make their own ones.
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    s.project = Some(pool.install(|| new_project(&s.root, &s.typeshed, &s.flags)));
    drop(pool);
    std::thread::sleep(std::time::Duration::from_millis(20));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SHOW_PANICS").is_ok() {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *PANIC.lock().unwrap() = Some(i.to_string());
    }));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut fds = [0; 2];
        unsafe { pipe(fds.as_mut_ptr()) };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(60) };
            let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let mut answers = vec![];
            let ops: Value = serde_json::from_str(&line).unwrap();
            // a large stack, as the program itself uses
            std::thread::scope(|t| {
                let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(t, || {
                    for op in ops.as_array().unwrap() {
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.run(op))) {
                            Ok(v) => answers.push(v),
                            Err(_) => {
                                answers.push(json!({"panic": PANIC.lock().unwrap().take()}));
                                break;
                            }
                        }
                    }
                });
                t.unwrap().join().unwrap();
            });
            w.write_all(serde_json::to_string(&answers).unwrap().as_bytes()).unwrap();
            drop(w);
            unsafe { _exit(0) };
        }
        unsafe { close(fds[1]) };
        let mut answer = String::new();
        unsafe { std::fs::File::from_raw_fd(fds[0]) }.read_to_string(&mut answer).unwrap();
        let mut status = 0;
        unsafe { waitpid(pid, &mut status, 0) };
        if status != 0 {
            answer = json!([{"signal": status & 0x7f, "status": status >> 8}]).to_string();
        }
        out.write_all(answer.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
