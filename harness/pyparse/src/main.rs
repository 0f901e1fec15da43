mod cursor;
mod dump;
mod edits;
mod explore;
mod inv;
mod literals;
mod spaces;
use explore::{Outcome, Report, Space, run};
use std::hash::{DefaultHasher, Hash, Hasher};

fn shape(tree: &parsa_python::PyTree) -> u64 {
    let mut h = DefaultHasher::new();
    for n in tree.nodes() {
        format!("{:?}", n.type_()).hash(&mut h);
    }
    h.finish()
}

fn check_one(mode: &str, text: &str) -> Result<Outcome, String> {
    match mode {
        "lossless" => {
            let (leaves, tree) = inv::lossless(text)?;
            Ok(Outcome { shape: shape(&tree), facts: leaves as u64 })
        }
        "navigation" => {
            let tree = parsa_python::parse(text.into());
            let facts = inv::navigation(&tree)?;
            Ok(Outcome { shape: shape(&tree), facts: facts as u64 })
        }
        "cursor" => {
            let facts = cursor::check(text)?;
            Ok(Outcome { shape: shape(&parsa_python::parse(text.into())), facts: facts as u64 })
        }
        _ => panic!("unknown mode {mode}"),
    }
}

fn print_report(r: &Report) {
    println!(
        "{}",
        serde_json::json!({
            "space": r.name, "fragments": r.fragments, "max_length": r.max, "frames": r.frames,
            "evaluated": r.evaluated, "facts": r.facts, "distinct": r.distinct,
            "failure_count": r.failure_count, "failures": r.failures, "samples": r.samples,
        })
    );
}

fn spaces_for(mode: &str, thorough: bool) -> Vec<Space> {
    let mut v = spaces::all(thorough && mode != "cursor");
    v.extend(spaces::editing(thorough));
    let mut lad = Space::new("nesting-ladders", &[], 1);
    lad.fragments = spaces::ladders(thorough && mode != "cursor");
    v.push(lad);
    v
}

/// explore <mode> <tier> <slotfile> | at <mode> <tier> <space> <index> | text <mode> (stdin)
fn main() {
    if std::env::var("SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let thorough = args.get(3).is_some_and(|t| t == "thorough");
    match args[1].as_str() {
        "explore" => {
            let mode = args[2].clone();
            let slots = std::fs::File::create(&args[4]).unwrap();
            for (i, sp) in spaces_for(&mode, thorough).iter().enumerate() {
                let r = run(sp, i as u64, 8, Some(&slots), |t| check_one(&mode, t));
                print_report(&r);
            }
        }
        "at" => {
            let sp = &spaces_for(&args[2], thorough)[args[4].parse::<usize>().unwrap()];
            let mut text = String::new();
            sp.get(args[5].parse().unwrap(), &mut text);
            println!("{}", serde_json::json!({"input": text}));
            match check_one(&args[2], &text) {
                Ok(_) => println!("{}", serde_json::json!({"ok": true})),
                Err(e) => println!("{}", serde_json::json!({"error": e})),
            }
        }
        "serve" => serve(args.get(2).map(|s| s.as_str()).unwrap_or("dump")),
        "text" => {
            let text = std::io::read_to_string(std::io::stdin()).unwrap();
            match check_one(&args[2], &text) {
                Ok(_) => println!("{}", serde_json::json!({"ok": true})),
                Err(e) => println!("{}", serde_json::json!({"error": e})),
            }
        }
        _ => panic!(),
    }
}

/// Texts separated by NUL on stdin; one line per text on stdout: `E` (has syntax errors), `D <dump>` or
/// `P <panic>`.
fn serve(mode: &str) {
    use std::io::{BufRead, Write};
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut inp = std::io::BufReader::new(std::io::stdin().lock());
    let mut buf = vec![];
    loop {
        buf.clear();
        if inp.read_until(0, &mut buf).unwrap() == 0 {
            break;
        }
        if buf == b"\0" {
            // an empty text asks for a flush
            writeln!(out, "F").unwrap();
            out.flush().unwrap();
            continue;
        }
        buf.pop();
        let text = std::str::from_utf8(&buf).unwrap();
        let r = std::panic::catch_unwind(|| {
            let errors = dump::has_errors(&parsa_python::parse(text.into()));
            match mode {
                "dump" if errors => "E".to_string(),
                "dump" => format!("D {}", dump::dump(&parsa_python_cst::Tree::parse(text.into()))),
                "literals" => format!("{} {}", if errors { 'E' } else { 'D' }, literals::describe(text)),
                "check-cursor" | "check-lossless" | "check-navigation" => match check_one(&mode[6..], text) {
                    Ok(o) => format!("O {}", o.facts),
                    Err(e) => format!("V {}", e.replace('\n', "\\n")),
                },
                "edits" => format!("{} {}", if errors { 'E' } else { 'D' }, edits::describe(text)),
                "cursor" if errors => "E".to_string(),
                "cursor" => format!("D {}", cursor::describe(text)),
                _ => unreachable!(),
            }
        });
        match r {
            Ok(s) => writeln!(out, "{s}").unwrap(),
            Err(p) => writeln!(out, "P {}", explore::panic_text(p).replace('\n', " ")).unwrap(),
        }
    }
}
