//! What the typed tree says about the literal(s) a text consists of.
use parsa_python_cst::*;
use std::fmt::Write;

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('x');
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}

fn range_of(code: &str, l: &StringLiteral, whole: &str) -> String {
    let (s, e) = l.content_start_and_end_in_literal();
    let c = l.content();
    assert_eq!(&code[s as usize..e as usize], c, "content() is not the text of its own range");
    assert_eq!(&whole[l.start() as usize..l.end() as usize], code);
    format!("{} {} {} {} {}", l.start(), l.end(), s, e, hex(c.as_bytes()))
}

/// One record per literal of the first statement, `;`-separated.
pub fn describe(text: &str) -> String {
    let tree = Tree::parse(text.into());
    let Some(expr) = tree.root().iter_stmt_likes().next().and_then(|s| s.node.maybe_simple_expr()) else {
        return "O".into();
    };
    let mut out = String::new();
    let mut expr = expr;
    while let Some(AtomContent::NamedExpression(n)) = expr.maybe_unpacked_atom() {
        expr = n.expression();
    }
    match expr.maybe_unpacked_atom() {
        Some(AtomContent::Strings(s)) => {
            let v = s.as_python_string();
            match &v {
                PythonString::FString => out.push_str("SF"),
                PythonString::Ref(start, t) => write!(out, "S {} {}", start, hex(t.as_bytes())).unwrap(),
                PythonString::String(start, t) => write!(out, "S {} {}", start, hex(t.as_bytes())).unwrap(),
            }
            match s.clean_docstring() {
                Some(d) => write!(out, ";D {}", hex(d.as_bytes())).unwrap(),
                None => out.push_str(";DF"),
            }
            write!(out, ";1 {}", s.maybe_single_string_literal().is_some()).unwrap();
            assert_eq!(s.maybe_single_string_literal().is_some(), expr.maybe_single_string_literal().is_some());
            for l in s.iter() {
                match l {
                    StringType::String(l) => {
                        let p = l.as_python_string();
                        write!(out, ";L {} {}", range_of(l.as_code(), &l, text), hex(p.as_str().unwrap().as_bytes())).unwrap();
                        assert_eq!(p.into_cow_str().unwrap(), l.as_python_string().as_str().unwrap());
                    }
                    _ => out.push_str(";LF"),
                }
            }
        }
        Some(AtomContent::Bytes(b)) => match b.maybe_single_bytes_literal() {
            Some(l) => write!(out, "B {} {} {}", b.start(), b.end(), hex(&l.content_as_bytes())).unwrap(),
            None => out.push_str("B*"),
        },
        Some(AtomContent::Int(i)) => {
            assert_eq!(i.as_str(), i.as_code());
            assert_eq!(num_bigint::BigInt::from(i.parse_as_big_uint()), i.parse());
            assert_eq!(expr.maybe_simple_int().map(num_bigint::BigInt::from), Some(i.parse()));
            write!(out, "I {}", i.parse()).unwrap()
        }
        Some(AtomContent::Float(_)) => out.push_str("R"),
        Some(AtomContent::Complex(_)) => out.push_str("C"),
        _ => out.push('O'),
    }
    out
}
