//! Stand-in for the crate `shellexpand` (not available offline): `~`, `$NAME` and `${NAME}`.
use std::borrow::Cow;
pub fn full_with_context_no_errors<'a>(
    s: &'a str,
    home: impl FnOnce() -> Option<String>,
    mut var: impl FnMut(&str) -> Option<String>,
) -> Cow<'a, str> {
    let mut out = String::new();
    let mut rest = s;
    if let Some(r) = s.strip_prefix('~') {
        if r.is_empty() || r.starts_with('/') {
            if let Some(h) = home() {
                out.push_str(&h);
                rest = r;
            }
        }
    }
    while let Some(i) = rest.find('$') {
        out.push_str(&rest[..i]);
        let after = &rest[i + 1..];
        let (name, len) = match after.strip_prefix('{').and_then(|a| a.find('}').map(|e| (&a[..e], e + 2))) {
            Some(x) => x,
            None => {
                let e = after.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(after.len());
                (&after[..e], e)
            }
        };
        match (!name.is_empty()).then(|| var(name)).flatten() {
            Some(v) => out.push_str(&v),
            None => out.push_str(&rest[i..i + 1 + len]),
        }
        rest = &after[len..];
    }
    out.push_str(rest);
    Cow::Owned(out)
}
