//! The text spaces that the parser checks enumerate completely.
use crate::explore::Space;

pub fn all(thorough: bool) -> Vec<Space> {
    let t = thorough as usize;
    let mut v = vec![
        Space::new(
            "characters",
            &[
                "a", "0", " ", "\t", "\n", "\r", "\\", "(", ")", "{", "}", "'", "\"", "#", ":",
                "=", "f", "if ", "é", "\u{c}", ";", ".",
            ],
            4 + t,
        ),
        Space::new(
            "tokens",
            &[
                "a", "1", "''", "(", ")", "[", "]", "{", "}", ",", ":", "=", ":=", ".", "*", "**",
                "-", "->", "@", "~", "|", "<", "!=", "+=", "...", ";", "\n", "\n ", "\n  ", "if",
                "else", "for", "in", "not", "is", "lambda", "await", "async", "yield", "from",
                "import", "as", "def", "class", "with", "try", "except", "finally", "while",
                "return", "del", "global", "assert", "raise", "pass", "match", "case", "type",
                "_", "None", "and", "elif", "nonlocal", "print",
            ],
            3,
        )
        .sep(" "),
        Space::new(
            "fstrings",
            &[
                "a", "{", "}", ":", "!", "r", "=", "'", "\"", "\\", "\n", " ", "f'", "f\"\"\"",
                "\"\"\"", "{{", "}}", "0", "(", ")", "rf'", "\\N{", "lambda ", "#", ">",
            ],
            3 + t,
        )
        .frames(&[("", ""), ("f'", ""), ("f'", "'"), ("f\"\"\"", "\"\"\""), ("x=f\"{", "}\"\ny")]),
        Space::new(
            "strings",
            &[
                "a", "'", "\"", "'''", "\"\"\"", "\\", "\n", "\r\n", "r", "b", "u", "f", "B",
                "Rb", "t", " ", "{", "#",
            ],
            4 + t,
        ),
        Space::new(
            "numbers",
            &[
                "0", "1", "9", "_", ".", "e", "x", "X", "o", "b", "j", "J", "+", "-", "a", "E",
                "f", " ", "l",
            ],
            4 + t,
        ),
        Space::new(
            "unicode",
            &[
                "a", "é", "ª", "\u{2028}", "\u{85}", "\u{a0}", "\u{feff}", "\0", "😀", "\u{301}",
                "\u{b7}", "℘", "中", "٣", "\u{200d}", "\u{b}", "\n", " ", "$", "?", "!", "'", "1",
                "#",
            ],
            3 + t,
        ),
    ];
    // Indentation: lines made of an indent and a line kind.
    let indents = ["", " ", "  ", "\t", "    "];
    let kinds = [
        "a\n", "\n", "#c\n", "if a:\n", "else:\n", "a(\n", ")\n", "a\\\n", "'''\n", "def f(): a; b\n",
        "\u{c}b\n", "class A(\n", "@d\n", "try:\n", "except:\n", "a = [\n", "]\n", "return\r\n", ")\r",
        "match a:\n", "case 1:\n",
    ];
    let lines: Vec<String> = indents
        .iter()
        .flat_map(|i| kinds.iter().map(move |k| format!("{i}{k}")))
        .collect();
    let mut sp = Space::new("lines", &[], 3 + t);
    sp.fragments = if thorough {
        lines.into_iter().filter(|l| !l.starts_with("    ")).collect()
    } else {
        lines
    };
    v.push(sp);
    if thorough {
        v.push(
            Space::new(
                "core-tokens",
                &[
                    "a", "1", "(", ")", "[", "]", "{", "}", ",", ":", "=", ":=", ".", "*", "**",
                    "-", "@", "\n", "\n ", "if", "else", "for", "in", "not", "lambda", "async",
                    "yield", "import", "as", "def", "class", "with", "try", "except", "match",
                    "case",
                ],
                4,
            )
            .sep(" "),
        );
    }
    v
}

/// Nesting ladders: each construct repeated n times, with and without its closing half.
pub fn ladders(thorough: bool) -> Vec<String> {
    let pairs: &[(&str, &str, &str)] = &[
        ("(", "a", ")"), ("[", "a", "]"), ("{", "a", "}"), ("{a:", "a", "}"), ("a(", "b", ")"),
        ("a[", "b", "]"), ("-", "a", ""), ("not ", "a", ""), ("lambda: ", "a", ""),
        ("a if b else ", "c", ""), ("a + ", "b", ""), ("a ** ", "b", ""), ("a and ", "b", ""),
        ("a.", "b", ""), ("a, ", "b", ""), ("a = ", "b", ""), ("await ", "a", ""),
        ("with (", "a", "): pass"), ("match ", "a", ""), ("match (", "a", ")"), ("a;", "b", ""),
        ("if a: ", "b", ""), ("@a\n", "def f(): pass", ""), ("a\\\n", "b", ""), ("#\n", "a", ""),
        ("\n", "a", ""), ("'' ", "''", ""), ("f'' ", "''", ""), ("(a for b in ", "c", ")"),
        ("[a, *", "b", "]"), ("print(a, *", "b", ")"), ("(yield ", "a", ")"), ("a\r", "b", ""),
        ("type ", "a", ""), ("case ", "a", ""), ("*", "a", ""), ("}", "a", "{"), ("'", "a", ""),
        ("\"\"\"", "a", ""), ("((a, b) := ", "c", ")"), ("del (", "a", ")"), ("(*", "a", "), = b"),
    ];
    let fpairs: &[(&str, &str, &str)] = &[("f'{", "a", "}'"), ("f\"\"\"{", "a", "}\"\"\""), ("f'{a:{", "b", "}}'")];
    let ns: Vec<usize> = if thorough {
        (1..=64).chain([100, 200, 500, 1000, 3000]).collect()
    } else {
        (1..=16).chain([40, 150, 400]).collect()
    };
    let mut out = vec![];
    for &n in &ns {
        for (o, m, c) in pairs.iter().chain(fpairs) {
            // Unclosed brackets behind something that can be read in two ways make the parser
            // backtrack exponentially (see DESIGN.md); those stay small.
            let limit = match *o {
                "match (" => 6,
                "(" | "[" | "{" | "-" | "not " | "*" | "}" => usize::MAX,
                _ if o.contains(['(', '[', '{']) => 6,
                _ => usize::MAX,
            };
            if n > limit {
                continue;
            }
            let open = o.repeat(n);
            out.push(format!("{open}{m}{}\n", c.repeat(n)));
            out.push(format!("{open}{m}\n"));
            out.push(format!("{open}{m}"));
            if n > 1 && !c.is_empty() {
                out.push(format!("{open}{m}{}\nx\n", c.repeat(n - 1)));
                out.push(format!("{open}{m}{}\n", c.repeat(n + 1)));
            }
        }
        // nested blocks
        for head in ["if a:", "def f():", "class A:", "for x in y:", "with a:", "try:", "match a:", "case b:"] {
            let mut s = String::new();
            for i in 0..n.min(90) {
                s.push_str(&" ".repeat(i));
                s.push_str(head);
                s.push('\n');
            }
            out.push(s.clone());
            out.push(format!("{s}{}pass\n", " ".repeat(n.min(90))));
            out.push(format!("{s}{}pass\nx\n", " ".repeat(n.min(90))));
        }
    }
    out
}

/// Half-typed imports, calls, parameter lists, targets and comments: what an editor asks about.
pub fn editing(thorough: bool) -> Vec<Space> {
    let t = thorough as usize;
    vec![
        Space::new("imports", &["from ", "import ", ".", "...", "a", ",", "(", ")", " as ", "*", "\n"], 4 + t)
            .frames(&[("", ""), ("from ", ""), ("def f():\n from ", "\nx = 1\n")]),
        Space::new("calls", &["f", "(", ")", ",", "a", "=", "*", "**", ".", " for a in b", "\n", " "], 4 + t)
            .frames(&[("", ""), ("f(", ""), ("x.y(", ")\nz"), ("class A:\n g(a, ", "\n")]),
        Space::new(
            "parameters",
            &["a", ",", "*", "**", "/", "=", ":", "(", ")", "lambda ", "[", "]", "->", "\n "],
            4,
        )
        .frames(&[("def f(", ""), ("@d\nasync def f(", "): pass\n"), ("class A(", "):\n b"), ("lambda ", "\n")]),
        Space::new("targets", &["a", ".", "[", "]", "(", ")", "=", ":", "+=", "del ", "for ", " in ", ",", "\n"], 4 + t)
            .frames(&[("", ""), ("x.y", " = 1\n"), ("del ", "\nb")]),
        Space::new(
            "comments",
            &["a", "#", "# c", "\n", "\r\n", "\r", " ", "\\\n", "(", ")", "if a:", "'''", "\t", "é"],
            4 + t,
        ),
        Space::new(
            "headers",
            &[
                "def ", "class ", "f", "A", "(", ")", ":", "\n", "\n ", "@", "async ", "[", "]", "pass", "global ",
                "nonlocal ", "match ", "case ", "import ",
            ],
            4,
        ),
    ]
}
