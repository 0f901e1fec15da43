//! Invariants of one parse, evaluated against an independently rebuilt tree.
use parsa_python::{NonterminalType, PyNode, PyNodeType, PyTree, TerminalType, parse};

/// What `parse` is documented to do with the text it is given: it must end with a newline.
pub fn expected_code_ok(input: &str, code: &str) -> bool {
    if code == input {
        return true;
    }
    code.strip_prefix(input)
        .is_some_and(|rest| rest.len() <= 2 && rest.bytes().all(|b| b == b'\n'))
}

/// Text between two leaves may only consist of trivia: whitespace, comments, line continuations,
/// form feeds and the byte order mark.
pub fn prefix_is_trivia(p: &str) -> bool {
    let mut it = p.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\t' | '\x0c' | '\n' | '\r' | '\u{feff}' => (),
            '#' => {
                while let Some(&n) = it.peek() {
                    if n == '\n' || n == '\r' {
                        break;
                    }
                    it.next();
                }
            }
            '\\' => match it.next() {
                Some('\n') => (),
                Some('\r') => {
                    if it.peek() == Some(&'\n') {
                        it.next();
                    }
                }
                _ => return false,
            },
            _ => return false,
        }
    }
    true
}

pub fn lossless(input: &str) -> Result<(usize, PyTree), String> {
    let tree = parse(input.into());
    let code = tree.as_code().to_owned();
    if !expected_code_ok(input, &code) {
        return Err(format!("tree.as_code() = {code:?}"));
    }
    let mut pos = 0usize;
    let mut leaves = 0;
    let mut last_endmarker = false;
    for n in tree.nodes() {
        if !n.is_leaf() {
            continue;
        }
        leaves += 1;
        let (s, e) = (n.start() as usize, n.end() as usize);
        if s < pos || e < s || e > code.len() {
            return Err(format!(
                "leaf {:?} spans {s}..{e}, previous leaf ended at {pos}, text has {} bytes",
                n.type_(),
                code.len()
            ));
        }
        if !code.is_char_boundary(s) || !code.is_char_boundary(e) {
            return Err(format!("leaf {s}..{e} not on a char boundary"));
        }
        let prefix = &code[pos..s];
        if !prefix_is_trivia(prefix) {
            return Err(format!(
                "text {prefix:?} before the leaf {:?} at {s} belongs to no leaf",
                &code[s..e]
            ));
        }
        if n.as_code() != &code[s..e] {
            return Err(format!("as_code of leaf at {s} is {:?}", n.as_code()));
        }
        last_endmarker = matches!(
            n.type_(),
            PyNodeType::Terminal(TerminalType::Endmarker)
                | PyNodeType::ErrorTerminal(TerminalType::Endmarker)
        );
        pos = e;
    }
    if !prefix_is_trivia(&code[pos..]) {
        return Err(format!("text {:?} after the last leaf is lost", &code[pos..]));
    }
    if !last_endmarker {
        return Err("the last leaf is not the end marker".into());
    }
    if pos != code.len() {
        return Err(format!(
            "the end marker ends at {pos}, the text has {} bytes",
            code.len()
        ));
    }
    Ok((leaves, tree))
}

fn opt(n: Option<PyNode>) -> Option<usize> {
    n.map(|n| n.index as usize)
}

/// Rebuild the tree with nothing but `iter_children` and compare every navigation function.
pub fn navigation(tree: &PyTree) -> Result<usize, String> {
    let code = tree.as_code();
    let len = tree.length();
    let mut parent: Vec<Option<usize>> = vec![None; len];
    let mut prev: Vec<Option<usize>> = vec![None; len];
    let mut next: Vec<Option<usize>> = vec![None; len];
    let mut subtree_end = vec![0usize; len]; // one past the last index of the subtree
    let mut last_leaf = vec![0usize; len];
    let mut counter = 0usize;
    #[allow(clippy::too_many_arguments)]
    fn go(
        n: PyNode,
        counter: &mut usize,
        parent: &mut [Option<usize>],
        prev: &mut [Option<usize>],
        next: &mut [Option<usize>],
        subtree_end: &mut [usize],
        last_leaf: &mut [usize],
    ) -> Result<(), String> {
        let me = n.index as usize;
        if me != *counter {
            return Err(format!("preorder visits index {me} at position {}", *counter));
        }
        *counter += 1;
        if n.is_leaf() {
            if n.iter_children().next().is_some() {
                return Err(format!("leaf {me} has children"));
            }
            subtree_end[me] = me + 1;
            last_leaf[me] = me;
            return Ok(());
        }
        let mut before: Option<PyNode> = None;
        let mut nchildren = 0;
        for (i, c) in n.iter_children().enumerate() {
            let ci = c.index as usize;
            if ci >= parent.len() {
                return Err(format!("child index {ci} out of range"));
            }
            parent[ci] = Some(me);
            if let Some(b) = before {
                prev[ci] = Some(b.index as usize);
                next[b.index as usize] = Some(ci);
                if c.start() < b.end() {
                    return Err(format!("siblings {} and {ci} overlap", b.index));
                }
            } else if c.start() != n.start() && !(me == 0 && n.start() == 0) {
                return Err(format!(
                    "node {me} starts at {} but its first child at {}",
                    n.start(),
                    c.start()
                ));
            }
            go(c, counter, parent, prev, next, subtree_end, last_leaf)?;
            if n.nth_child(i).index as usize != ci {
                return Err(format!("nth_child({i}) of {me} is not child {ci}"));
            }
            last_leaf[me] = last_leaf[ci];
            subtree_end[me] = subtree_end[ci];
            before = Some(c);
            nchildren += 1;
        }
        if nchildren == 0 {
            return Err(format!("inner node {me} ({:?}) has no children", n.type_()));
        }
        if before.unwrap().end() != n.end() {
            return Err(format!(
                "node {me} ends at {} but its last child at {}",
                n.end(),
                before.unwrap().end()
            ));
        }
        Ok(())
    }
    go(
        tree.root_node(),
        &mut counter,
        &mut parent,
        &mut prev,
        &mut next,
        &mut subtree_end,
        &mut last_leaf,
    )?;
    if counter != len {
        return Err(format!("{counter} of {len} nodes reachable from the root"));
    }
    if tree.root_node().type_() != PyNodeType::Nonterminal(NonterminalType::file) {
        return Err(format!("root has type {:?}", tree.root_node().type_()));
    }
    let nodes: Vec<PyNode> = tree.nodes().collect();
    let leaves: Vec<usize> = (0..len).filter(|&i| nodes[i].is_leaf()).collect();
    let mut evals = 0;
    for (i, n) in nodes.iter().enumerate() {
        evals += 1;
        let fail = |what: &str, got: Option<usize>, want: Option<usize>| {
            Err(format!("{what} of node {i} is {got:?}, expected {want:?}"))
        };
        if n.index as usize != i || tree.node_by_index(i as u32).index as usize != i {
            return Err(format!("node_by_index({i})"));
        }
        if opt(n.parent()) != parent[i] {
            return fail("parent", opt(n.parent()), parent[i]);
        }
        if opt(n.next_sibling()) != next[i] {
            return fail("next_sibling", opt(n.next_sibling()), next[i]);
        }
        if opt(n.previous_sibling()) != prev[i] {
            return fail("previous_sibling", opt(n.previous_sibling()), prev[i]);
        }
        let pl = leaves[..leaves.partition_point(|&l| l < i)].last().copied();
        if opt(n.previous_leaf()) != pl {
            return fail("previous_leaf", opt(n.previous_leaf()), pl);
        }
        let nl = leaves[leaves.partition_point(|&l| l <= i)..].first().copied();
        if opt(n.next_leaf()) != nl {
            return fail("next_leaf", opt(n.next_leaf()), nl);
        }
        let ll = n.last_leaf_in_subtree().index as usize;
        if ll != last_leaf[i] {
            return fail("last_leaf_in_subtree", Some(ll), Some(last_leaf[i]));
        }
        let (s, e) = (n.start() as usize, n.end() as usize);
        if n.length() as usize != e - s || n.as_code() != &code[s..e] {
            return Err(format!("as_code of node {i}"));
        }
        let want_prefix = &code[pl.map_or(0, |l| nodes[l].end() as usize)..s];
        if n.prefix_to_previous_leaf() != want_prefix {
            return Err(format!(
                "prefix_to_previous_leaf of node {i} is {:?}, expected {want_prefix:?}",
                n.prefix_to_previous_leaf()
            ));
        }
        if e > s {
            // The text between this node and whatever starts next.
            let want = nodes[i..]
                .iter()
                .map(|m| m.start() as usize)
                .find(|&st| st >= e)
                .map_or("", |st| &code[e..st]);
            if n.suffix() != want {
                return Err(format!("suffix of node {i} is {:?}, expected {want:?}", n.suffix()));
            }
        }
        // is_type and type_ agree
        match n.type_() {
            PyNodeType::Nonterminal(_) if n.is_leaf() || n.is_error_recovery_node() => {
                return Err(format!("type of node {i}"));
            }
            PyNodeType::Terminal(_) | PyNodeType::Keyword
                if !n.is_leaf() || n.is_error_recovery_node() =>
            {
                return Err(format!("type of node {i}"));
            }
            PyNodeType::ErrorNonterminal(_) if n.is_leaf() || !n.is_error_recovery_node() => {
                return Err(format!("type of node {i}"));
            }
            PyNodeType::ErrorTerminal(_) | PyNodeType::ErrorKeyword
                if !n.is_leaf() || !n.is_error_recovery_node() =>
            {
                return Err(format!("type of node {i}"));
            }
            _ => (),
        }
        match n.type_() {
            PyNodeType::Keyword | PyNodeType::ErrorKeyword => (),
            t => {
                if !n.is_type(t) || !n.is_type_or_error_thereof(t) && !n.is_error_recovery_node() {
                    return Err(format!("is_type({t:?}) of node {i} is false"));
                }
            }
        }
        // search: preorder filter, with and without skipping found subtrees. Zero length
        // nodes (indentation leaves, the end marker) are outside of its contract.
        if !n.is_leaf() && e > s {
            for avoid in [false, true] {
                let got: Vec<usize> = n
                    .search(SEARCHED, avoid)
                    .take(len + 1)
                    .map(|m| m.index as usize)
                    .collect();
                let mut want = vec![];
                let mut j = i;
                while j < subtree_end[i] {
                    if SEARCHED.contains(&nodes[j].type_()) {
                        want.push(j);
                        if avoid {
                            j = subtree_end[j];
                            continue;
                        }
                    }
                    j += 1;
                }
                if got != want {
                    return Err(format!(
                        "search(avoid={avoid}) from node {i} found {got:?}, expected {want:?}"
                    ));
                }
            }
        }
        // parent_until
        let mut p = parent[i];
        while let Some(x) = p {
            if UNTIL.contains(&nodes[x].type_()) {
                break;
            }
            p = parent[x];
        }
        if opt(n.parent_until(UNTIL)) != p {
            return fail("parent_until", opt(n.parent_until(UNTIL)), p);
        }
    }
    // leaf_by_position
    for pos in 0..=(code.len() + 2) {
        evals += 1;
        let got = tree.leaf_by_position(pos as u32).index as usize;
        let started = leaves.iter().rposition(|&l| nodes[l].start() as usize <= pos);
        let want = match started {
            None => leaves[0],
            Some(k) => {
                if (nodes[leaves[k]].end() as usize) < pos && k + 1 < leaves.len() {
                    leaves[k + 1]
                } else {
                    leaves[k]
                }
            }
        };
        if got != want {
            return Err(format!("leaf_by_position({pos}) is node {got}, expected {want}"));
        }
    }
    Ok(evals)
}

const SEARCHED: &[PyNodeType] = &[
    PyNodeType::Terminal(TerminalType::Name),
    PyNodeType::Nonterminal(NonterminalType::atom),
    PyNodeType::Nonterminal(NonterminalType::name_def),
    PyNodeType::Nonterminal(NonterminalType::primary),
    PyNodeType::Nonterminal(NonterminalType::block),
];
const UNTIL: &[PyNodeType] = &[
    PyNodeType::Nonterminal(NonterminalType::block),
    PyNodeType::Nonterminal(NonterminalType::expression),
    PyNodeType::Nonterminal(NonterminalType::stmt),
    PyNodeType::ErrorNonterminal(NonterminalType::stmt),
];
