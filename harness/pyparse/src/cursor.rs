//! Questions about a position: completion, goto, signature help, selection, names from a position on.
use parsa_python::{NonterminalType as N, PyNode, PyNodeType::*, TerminalType};
use parsa_python_cst::*;

struct Leaf {
    s: usize,
    e: usize,
    name: bool,
    string: bool,
    index: NodeIndex,
}

pub fn scope_range(code: &str, s: &Scope) -> Option<(usize, usize)> {
    let _ = code;
    match s {
        Scope::Module => None,
        Scope::Class(c) => Some((c.start() as usize, c.end() as usize)),
        Scope::Function(f) => Some((f.start() as usize, f.end() as usize)),
        Scope::Lambda(l) => Some((l.start() as usize, l.end() as usize)),
    }
}

fn enclosing_scope(mut n: PyNode) -> Option<(usize, usize)> {
    while let Some(p) = n.parent() {
        if [N::class_def, N::function_def, N::lambda].iter().any(|t| p.is_type(Nonterminal(*t))) {
            return Some((p.start() as usize, p.end() as usize));
        }
        n = p;
    }
    None
}

/// The comment around a position: only text after a `#` in a gap between tokens counts.
fn comment_at(code: &str, gap_start: usize, gap_end: usize, p: usize) -> Option<(usize, &str)> {
    let gap = &code[gap_start..gap_end];
    let mut line_start = 0;
    for line in gap.split_inclusive(['\n', '\r']) {
        let body = line.trim_end_matches(['\n', '\r']);
        if let Some(h) = body.find('#') {
            let (hs, he) = (gap_start + line_start + h, gap_start + line_start + body.len());
            if hs < p && p <= he {
                return Some((hs, &code[hs + 1..he]));
            }
        }
        line_start += line.len();
    }
    None
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn check(input: &str) -> Result<usize, String> {
    let raw = parsa_python::parse(input.into());
    let tree = Tree::parse(input.into());
    let code = tree.code();
    let leaves: Vec<Leaf> = raw
        .nodes()
        .filter(|n| n.is_leaf())
        .map(|n| Leaf {
            s: n.start() as usize,
            e: n.end() as usize,
            name: n.is_type(Terminal(TerminalType::Name)) || n.is_type(ErrorTerminal(TerminalType::Name)),
            string: n.is_type(Terminal(TerminalType::String)),
            index: n.index,
        })
        .collect();
    let proper_names: Vec<usize> =
        raw.nodes().filter(|n| n.is_type(Terminal(TerminalType::Name))).map(|n| n.start() as usize).collect();
    let all: Vec<usize> = tree.filter_all_names(None).map(|n| n.start() as usize).collect();
    ensure!(all == proper_names, "filter_all_names gives {all:?}, the tree has {proper_names:?}");
    let mut facts = 0;
    for p in (0..=code.len()).filter(|p| code.is_char_boundary(*p)) {
        let at = p as CodeIndex;
        let inside = leaves.iter().find(|l| l.s < p && p < l.e);
        // -- completion ---------------------------------------------------
        let (scope, node, rest) = tree.completion_node(at);
        let _ = format!("{scope:?} {node:?} {}", rest.is_string());
        let rs = rest.start() as usize;
        ensure!(rs <= p, "completion at {p}: what is to be replaced starts at {rs}");
        ensure!(rest.as_code() == &code[rs..p], "completion at {p}: rest {:?} is not the text {rs}..{p}", rest.as_code());
        let word_before = leaves.iter().find(|l| {
            l.s < p && l.e == p && code[l.s..].chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_')
        });
        if let Some(l) = inside.or(word_before) {
            ensure!(rs == l.s, "completion at {p}: rest starts at {rs}, the token at {}", l.s);
        } else {
            ensure!(rs == p, "completion at {p}: rest starts at {rs}, but no word ends here");
        }
        let i = leaves.iter().position(|l| l.e > p || l.s >= p).unwrap_or(leaves.len());
        let gap_end = leaves.get(i).map_or(code.len(), |l| l.s);
        let gap_start = if i == 0 { 0 } else { leaves[i - 1].e };
        let want = if gap_end >= p { comment_at(code, gap_start.min(gap_end), gap_end, p) } else { None };
        let got = match &node {
            CompletionNode::InsideComment { comment_start, comment } => Some((*comment_start as usize, *comment)),
            _ => None,
        };
        ensure!(got == want, "completion at {p}: comment {got:?}, expected {want:?}");
        if let Some(l) = inside {
            ensure!(
                l.string == matches!(node, CompletionNode::InsideString),
                "completion at {p}: inside a string token: {}, but {node:?}", l.string
            );
        }
        if let Some(l) = inside.or(word_before) {
            let want = enclosing_scope(raw.node_by_index(l.index));
            let got = scope_range(code, &scope);
            ensure!(got == want, "completion at {p}: scope {got:?}, expected {want:?}");
        }
        if let CompletionNode::Global { context: Some(c) } = &node {
            let args = match c {
                CompletionContext::PrimaryCall { args, .. } => args,
                CompletionContext::PrimaryTargetCall { args, .. } => args,
            };
            if let Some(a) = args {
                let _ = a.used_args_until(&rest);
            }
        }
        // -- goto ---------------------------------------------------------
        let (scope, node) = tree.goto_node(at);
        let touching = leaves.iter().find(|l| l.name && l.s <= p && p <= l.e && l.s < l.e);
        let on = node.on_name().map(|n| (n.start() as usize, n.end() as usize));
        let near = touching.or_else(|| {
            // In the white space between two tokens the question is about the next one.
            let any = leaves.iter().any(|l| l.s <= p && p <= l.e && l.s < l.e);
            leaves.get(i).filter(|l| !any && l.name)
        });
        ensure!(
            on == near.map(|l| (l.s, l.e))
                || touching.is_none() && (on.is_none() || code[..p].ends_with('.') || code[gap_end.max(p)..].starts_with('.')),
            "goto at {p}: is about {on:?}, but the name at the position is {:?}", touching.map(|l| (l.s, l.e))
        );
        if let Some(l) = touching {
            let want = enclosing_scope(raw.node_by_index(l.index));
            let got = scope_range(code, &scope);
            ensure!(got == want, "goto at {p}: scope {got:?}, expected {want:?}");
            let got = scope_range(code, &tree.node_parent_scope(l.index));
            ensure!(got == want, "scope of the name at {}: {got:?}, expected {want:?}", l.s);
        }
        // -- signature ----------------------------------------------------
        if let Some((scope, base, args)) = tree.signature_node(at) {
            if let Some(l) = inside {
                let want = enclosing_scope(raw.node_by_index(l.index));
                let got = scope_range(code, &scope);
                ensure!(got == want, "signature at {p}: scope {got:?}, expected {want:?}");
            }
            ensure!((base.end() as usize) < p, "signature at {p}: the called expression ends at {}", base.end());
            let n = args.clone().take(code.len() + 10).count();
            ensure!(n <= code.len() + 1, "signature at {p}: endless arguments");
        }
        // -- selection ----------------------------------------------------
        let mut prev: Option<(usize, usize)> = None;
        for r in tree.selection_ranges(at).take(10_000) {
            let (s, e) = (r.start as usize, r.end as usize);
            ensure!(s <= e && e <= code.len(), "selection at {p}: {s}..{e}");
            ensure!(s <= p && p <= e, "selection at {p}: {s}..{e} does not contain the position");
            if let Some((ps, pe)) = prev {
                ensure!(s <= ps && pe <= e && (s, e) != (ps, pe), "selection at {p}: {s}..{e} after {ps}..{pe} does not grow");
            }
            prev = Some((s, e));
        }
        let f = tree.root();
        ensure!(
            prev.is_none_or(|(s, e)| s <= f.start() as usize && e == f.end() as usize),
            "selection at {p} ends with {prev:?}"
        );
        // -- names from here on -------------------------------------------
        let from: Vec<usize> = tree.filter_all_names(Some(at)).map(|n| n.start() as usize).collect();
        ensure!(all.ends_with(&from), "names from {p} on: {from:?}, all: {all:?}");
        let must = raw.nodes().filter(|n| n.is_type(Terminal(TerminalType::Name)) && n.end() >= at).count();
        ensure!(from.len() >= must, "names from {p} on: {from:?}, all: {all:?}");
        let may = leaves[i.saturating_sub(1)..].iter().filter(|l| l.name).count();
        ensure!(from.len() <= may, "names from {p} on: {from:?}, all: {all:?}, at most {may}");
        facts += 6;
    }
    // -- inlay hints for every range of lines -----------------------------
    let hints: Vec<usize> = raw
        .nodes()
        .filter(|n| n.is_type(Nonterminal(N::function_def)) || n.is_type(Nonterminal(N::assignment)))
        .map(|n| n.start() as usize)
        .collect();
    for s in (0..=code.len()).filter(|p| code.is_char_boundary(*p)) {
        for e in [s, (s + 3).min(code.len()), code.len()] {
            let got: Vec<usize> = tree
                .potential_inlay_hints(s as CodeIndex, e as CodeIndex)
                .map(|h| match h {
                    PotentialInlayHint::FunctionDef(f) => f.start() as usize,
                    PotentialInlayHint::Assignment(a) => a.start() as usize,
                })
                .collect();
            for h in &hints {
                if s <= *h && *h <= e {
                    ensure!(got.contains(h), "inlay hints in {s}..{e}: {got:?}, missing the one at {h}");
                }
            }
            for g in &got {
                ensure!(hints.contains(g) && *g <= e, "inlay hints in {s}..{e}: {got:?}, but at {g} there is none");
            }
        }
    }
    // -- the rest must at least answer ------------------------------------
    for (s, e) in tree.folding_blocks() {
        ensure!(s <= e && e as usize <= code.len(), "folding {s}..{e}");
    }
    ensure!(tree.initial_imports_end_code_index() as usize <= code.len(), "end of imports");
    Ok(facts)
}

fn r(s: CodeIndex, e: CodeIndex) -> serde_json::Value {
    serde_json::json!([s, e])
}

fn opt_dotted(d: &Option<DottedImportName>) -> serde_json::Value {
    match d {
        Some(d) => serde_json::json!([d.start(), d.end()]),
        None => serde_json::Value::Null,
    }
}

fn poa(p: &PrimaryOrAtom) -> serde_json::Value {
    match p {
        PrimaryOrAtom::Primary(p) => r(p.start(), p.end()),
        PrimaryOrAtom::Atom(a) => r(a.start(), a.end()),
    }
}

fn ptoa(p: &PrimaryTargetOrAtom) -> serde_json::Value {
    match p {
        PrimaryTargetOrAtom::PrimaryTarget(p) => r(p.start(), p.end()),
        PrimaryTargetOrAtom::Atom(a) => r(a.start(), a.end()),
    }
}

/// All answers for all positions of a text, as JSON.
pub fn describe(text: &str) -> String {
    use serde_json::{Value, json};
    let tree = Tree::parse(text.into());
    let code = tree.code();
    let mut completion = vec![];
    let mut goto = vec![];
    let mut signature = vec![];
    for p in 0..=code.len() {
        if !code.is_char_boundary(p) {
            completion.push(Value::Null);
            goto.push(Value::Null);
            signature.push(Value::Null);
            continue;
        }
        let (_, node, rest) = tree.completion_node(p as CodeIndex);
        let used = |args: &Option<CallArgs>| match args {
            None => json!([0, []]),
            Some(a) => {
                let u = a.used_args_until(&rest);
                let mut k: Vec<_> = u.keyword_args.iter().collect();
                k.sort();
                json!([u.positional_args, k])
            }
        };
        completion.push(match &node {
            CompletionNode::Attribute { base } => json!(["attr", poa(base)]),
            CompletionNode::PrimaryTarget { base } => json!(["attr", ptoa(base)]),
            CompletionNode::ImportName { path } => json!([
                "import",
                path.as_ref().map(|(n, d)| json!([n.as_code(), d.as_ref().map(|d| d.as_code())]))
            ]),
            CompletionNode::ImportFromFirstPart { dots, base } => json!(["from", dots, opt_dotted(base)]),
            CompletionNode::ImportFromTarget { dots, base } => json!(["target", dots, opt_dotted(base)]),
            CompletionNode::ParamName { func_name, decorators } => {
                json!(["param", func_name.as_code(), decorators.map(|d| d.iter().count())])
            }
            CompletionNode::AsNewName => json!(["as"]),
            CompletionNode::NecessaryKeyword(k) => json!(["keyword", k]),
            CompletionNode::AfterDefKeyword => json!(["def"]),
            CompletionNode::AfterClassKeyword => json!(["class"]),
            CompletionNode::InsideString => json!(["string"]),
            CompletionNode::InsideComment { .. } => json!(["comment"]),
            CompletionNode::Global { context } => match context {
                None => json!(["global"]),
                Some(CompletionContext::PrimaryCall { base, args }) => json!(["global", poa(base), used(args)]),
                Some(CompletionContext::PrimaryTargetCall { base, args }) => json!(["global", ptoa(base), used(args)]),
            },
        });
        let (_, node) = tree.goto_node(p as CodeIndex);
        goto.push(match &node {
            GotoNode::Operator { first, magic_method, operator } => json!([
                "op", r(first.start(), first.end()), magic_method, r(operator.start(), operator.end())
            ]),
            GotoNode::AugAssignOperator { inplace_magic_method, normal_magic_method, operator, .. } => {
                json!(["aug", inplace_magic_method, normal_magic_method, r(operator.start(), operator.end())])
            }
            GotoNode::Name(n) => json!(["name", r(n.start(), n.end())]),
            GotoNode::ImportFromAsName { import_as_name, on_name } => json!([
                "fromas", r(import_as_name.start(), import_as_name.end()), r(on_name.start(), on_name.end())
            ]),
            GotoNode::Primary(x) => json!(["primary", r(x.start(), x.end())]),
            GotoNode::PrimaryTarget(x) => json!(["primary", r(x.start(), x.end())]),
            GotoNode::GlobalName(n) => json!(["global", r(n.start(), n.end())]),
            GotoNode::NonlocalName(n) => json!(["nonlocal", r(n.start(), n.end())]),
            GotoNode::Atom(n) => json!(["atom", r(n.start(), n.end())]),
            GotoNode::None => Value::Null,
        });
        signature.push(match tree.signature_node(p as CodeIndex) {
            None => Value::Null,
            Some((_, base, args)) => {
                let a: Vec<_> = args
                    .map(|a| match a {
                        SignatureArg::PositionalOrEmptyAfterComma => json!("p"),
                        SignatureArg::PositionalOrKeywordName(n) => json!(format!("n:{n}")),
                        SignatureArg::Keyword(n) => json!(format!("k:{}", n.as_code())),
                        SignatureArg::StarArgs => json!("*"),
                        SignatureArg::StarStarKwargs => json!("**"),
                    })
                    .collect();
                json!([r(base.start(), base.end()), a])
            }
        });
    }
    let folds: Vec<_> = tree.folding_blocks().map(|(s, e)| r(s, e)).collect();
    serde_json::json!({"c": completion, "g": goto, "s": signature, "f": folds, "i": tree.initial_imports_end_code_index()})
        .to_string()
}
