//! What every answer has to look like, whatever the text is.
use serde_json::Value;

pub fn check(file: &str, code: &str, op: &Value, a: &Value) -> Result<(), String> {
    // A newline at the end is added where there is none.
    let code = if code.ends_with('\n') { code.to_string() } else { format!("{code}\n") };
    let code = code.as_str();
    let n = |v: &Value| v.as_u64().unwrap() as usize;
    let range = |s: &Value, e: &Value| {
        let (s, e) = (n(s), n(e));
        match s <= e && e <= code.len() && code.is_char_boundary(s) && code.is_char_boundary(e) {
            true => Ok((s, e)),
            false => Err(format!("bad range {s}..{e}: {a}")),
        }
    };
    let ensure = |ok: bool, why: &str| if ok { Ok(()) } else { Err(format!("{why}: {a}")) };
    if a.is_null() || a.get("error").is_some() {
        return Ok(());
    }
    let list = || a.as_array().unwrap().iter();
    let position = || n(&op[2]);
    // Queries in white space and comments are about the name after it.
    let touches = |s: usize, e: usize| {
        let line = code[..position()].rfind('\n').map_or(0, |i| i + 1);
        s <= position() && position() <= e
            || position() < s
                && code[line..s].split_inclusive('\n').enumerate().all(|(i, l)| {
                    let (code, comment) = l.split_at(l.find('#').unwrap_or(l.len()));
                    let skip = if i == 0 { position() - line } else { 0 };
                    code.get(skip..).is_none_or(|c| c.trim().is_empty()) && (comment.is_empty() || comment.ends_with('\n'))
                })
    };
    let named = |x: &Value| {
        if x[0] == file {
            let (s, e) = range(&x[1], &x[2])?;
            let name = x[3].as_str().unwrap();
            ensure(&code[s..e] == name || file.strip_suffix(".py") == Some(name) && e == 0, "not the text of the name")?;
        }
        Ok::<(), String>(())
    };
    let distinct = || {
        let mut all: Vec<String> = list().map(|x| x.to_string()).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        ensure(n == all.len(), "the same answer twice")
    };
    match op[0].as_str().unwrap() {
        "diag" => {
            for d in list() {
                range(&d[0], &d[1])?;
            }
        }
        "tokens" => {
            let mut last = 0;
            for t in list() {
                ensure(n(&t[0]) >= last && n(&t[1]) > 0, "tokens are in order")?;
                last = n(&t[0]) + n(&t[1]);
                ensure(last <= code.len() && code.is_char_boundary(n(&t[0])), "token ends in the text")?;
            }
        }
        "folding" => {
            for f in list() {
                range(&f[0][0], &f[1][0])?;
            }
        }
        "symbols" => {
            for s in list() {
                named(s)?;
            }
            distinct()?;
        }
        "hints" => {
            for h in list() {
                range(&h[0], &h[0])?;
            }
        }
        "actions" => {
            for x in list() {
                range(&x[1], &x[2])?;
            }
        }
        "goto" | "infer" => {
            for x in list().filter(|x| x[0] == file) {
                range(&x[1], &x[2])?;
            }
            distinct()?;
        }
        "references" => {
            for x in list() {
                named(x)?;
            }
            distinct()?;
        }
        "can-rename" => {
            let (s, e) = range(&a[0], &a[1])?;
            ensure(touches(s, e) && s < e, "the name at the position")?;
            ensure(code[s..e].chars().all(|c| c == '_' || c.is_alphanumeric() || !c.is_ascii()), "a name is renamed")?;
        }
        "rename" => {
            for f in a["changes"].as_array().unwrap().iter().filter(|f| f[0] == file) {
                let mut last = 0;
                let mut ranges: Vec<_> = f[1].as_array().unwrap().iter().map(|r| range(&r[0], &r[1])).collect::<Result<_, _>>()?;
                ranges.sort();
                for (s, e) in ranges {
                    ensure(last <= s && s < e, "changes do not overlap")?;
                    last = e;
                }
            }
        }
        "complete" => {
            for c in list() {
                let (s, e) = range(&c[2][0], &c[2][1])?;
                ensure(s <= position() && position() <= e, "completion at the position")?;
            }
            distinct()?;
        }
        "documentation" => {
            let (s, e) = range(&a[1][0], &a[1][1])?;
            ensure(touches(s, e), "symbol at the position")?;
        }
        "selection" => {
            let mut last = (position(), position());
            for (i, r) in list().enumerate() {
                let (s, e) = range(&r[0], &r[1])?;
                ensure(s <= last.0 && last.1 <= e && (i == 0 || (s, e) != last), "nested")?;
                last = (s, e);
            }
        }
        "signatures" => (),
        x => panic!("{x}"),
    }
    Ok(())
}
