//! Stand-in for the crate `rust-ini` (a git fork, not available offline): sections, `key = value`, `key: value`, comments
//! and values that continue on indented lines.
#[derive(Debug)]
pub struct ParseError(String);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ParseError {}
#[derive(Default)]
pub struct ParseOption {
    pub indented_multiline_values: bool,
    pub enabled_quote: bool,
    pub enabled_escape: bool,
}
#[derive(Default, Debug, Clone)]
pub struct Properties(Vec<(String, String)>);
impl Properties {
    pub fn get<S: AsRef<str>>(&self, key: S) -> Option<&str> {
        self.0.iter().find(|x| x.0 == key.as_ref()).map(|x| x.1.as_str())
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&str, &str)> {
        self.0.iter().map(|x| (x.0.as_str(), x.1.as_str()))
    }
}
#[derive(Default, Debug, Clone)]
pub struct Ini(Vec<(Option<String>, Properties)>);
fn without_comment(s: &str) -> &str {
    for (i, c) in s.char_indices() {
        if (c == '#' || c == ';') && (i == 0 || s[..i].ends_with([' ', '\t'])) {
            return s[..i].trim();
        }
    }
    s.trim()
}
impl Ini {
    pub fn load_from_str_opt(s: &str, _: ParseOption) -> Result<Ini, ParseError> {
        let mut ini = Ini(vec![(None, Properties::default())]);
        let mut can_continue = false;
        for (nr, line) in s.lines().enumerate() {
            let t = without_comment(line);
            if t.is_empty() {
                continue;
            }
            let section = &mut ini.0.last_mut().unwrap().1;
            if line.starts_with([' ', '\t']) && can_continue {
                let v = &mut section.0.last_mut().unwrap().1;
                if !v.is_empty() {
                    v.push('\n');
                }
                v.push_str(t);
            } else if let Some(name) = t.strip_prefix('[') {
                let Some(name) = name.strip_suffix(']') else { return Err(ParseError(format!("{nr}: missing ]"))) };
                ini.0.push((Some(name.trim().into()), Properties::default()));
                can_continue = false;
            } else if let Some(i) = t.find(['=', ':']) {
                section.0.push((t[..i].trim().into(), t[i + 1..].trim().into()));
                can_continue = true;
            } else {
                return Err(ParseError(format!("{nr}: expecting = or :")));
            }
        }
        Ok(ini)
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (Option<&str>, &Properties)> {
        self.0.iter().map(|x| (x.0.as_deref(), &x.1))
    }
    pub fn section<S: Into<String>>(&self, name: Option<S>) -> Option<&Properties> {
        let name = name.map(|x| x.into());
        self.0.iter().find(|x| x.0 == name).map(|x| &x.1)
    }
    pub fn get_from<S: Into<String>>(&self, section: Option<S>, key: &str) -> Option<&str> {
        self.section(section)?.get(key)
    }
}
