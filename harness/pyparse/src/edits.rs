//! Ignore comments, directives and the places where edits are to be inserted.
use parsa_python_cst::*;
use serde_json::{Value, json};

fn ignore(c: Option<TypeIgnoreComment>) -> Value {
    match c {
        None => Value::Null,
        Some(TypeIgnoreComment::WithoutCode) => json!("bare"),
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => {
            json!([kind, codes, codes_start_at_index, codes_of_later_type_ignores])
        }
    }
}

pub fn describe(text: &str) -> String {
    let tree = Tree::parse(text.into());
    let code = tree.code();
    let raw = parsa_python::parse(text.into());
    let starts: Vec<u32> = raw.nodes().filter(|n| n.is_leaf() && n.end() > n.start()).map(|n| n.start()).collect();
    let ends: Vec<u32> = raw.nodes().filter(|n| n.is_leaf() && n.end() > n.start()).map(|n| n.end()).collect();
    let mut lines = vec![];
    for &p in &starts {
        let ins = tree.insertion_point_for_type_ignore(p).map(|i| {
            json!([i.insertion_index, i.format_for_kind("type", "new"), i.format_for_kind("zuban", "new")])
        });
        lines.push(json!([p, ignore(tree.type_ignore_comment_for(p, p)), ins]));
    }
    let mut regions = vec![];
    for (i, &s) in starts.iter().enumerate() {
        for &e in &ends[i..] {
            regions.push(json!([s, e, ignore(tree.type_ignore_comment_for(s, e))]));
        }
    }
    let mut froms = vec![];
    for s in tree.root().iter_stmt_likes() {
        if let StmtLikeContent::ImportFrom(f) = s.node {
            let i = f.insertion_point_for_new_name("new");
            froms.push(json!([i.insertion_code_index, i.addition]));
        }
    }
    let head = match tree.has_type_ignore_at_start() {
        Ok(b) => json!(b),
        Err(c) => json!(c),
    };
    let directives: Vec<_> = tree.mypy_inline_config_directives().map(|(i, s)| json!([i, s])).collect();
    json!({"lines": lines, "regions": regions, "from": froms, "head": head, "mypy": directives,
           "imports": tree.initial_imports_end_code_index(), "code": code})
        .to_string()
}
