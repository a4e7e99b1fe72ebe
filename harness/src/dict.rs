//! Fuzzing dictionary taken from the sources of the code under test: its string and character literals serve as
//! additional lexemes and seeds, its integer literals as additional lengths and counts. It only steers generation.
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub strings: Vec<String>,
    pub docs: Vec<String>,
    pub ints: Vec<usize>,
    /// strings and numbers of the code itself, without its tests, that the harness does not use anyway
    pub novel: Vec<String>,
    pub novel_ints: Vec<usize>,
}

/// Strings of the code as it is that are no lexemes.
const KNOWN: &[&str] = &[
    "Eol", "Bang", "Hash", "Pipe", "Plus", "Star", "Minus", "Space", "Tilde", "Literal", "Backtick", "Terminator", "Underscore", "GreaterThan", "\n{nested}", "{escape}",
    "\\%}", "\\**", "\\```", "\n\\---",
];

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let mut own = Dict::default();
        let mut files = vec![];
        walk(Path::new("/repo/src"), &mut files);
        walk(Path::new("/repo/tests"), &mut files);
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                scan(&s, &mut d);
                let code: Vec<&str> = s.lines().take_while(|l| *l != "#[cfg(test)]").filter(|l| !l.trim().starts_with("#[")).collect();
                if f.starts_with("/repo/src") {
                    scan(&code.join("\n"), &mut own);
                }
            }
        }
        // format strings fall apart at their placeholders
        let mut novel: Vec<String> = vec![];
        for t in &own.strings {
            novel.push(t.clone());
            novel.extend(t.split("{}").map(|t| t.to_string()));
        }
        novel.retain(|t| {
            let message = t.chars().filter(|c| *c == ' ').count() > 1;
            !(t.is_empty() || t.contains("{}") || message || KNOWN.contains(&&t[..]) || crate::gen::familiar(t))
        });
        novel.sort_by_key(|t| (t.len(), t.clone()));
        novel.dedup();
        novel.truncate(40);
        d.novel = novel;
        own.ints.retain(|n| *n > 8);
        own.ints.sort();
        own.ints.dedup();
        d.novel_ints = own.ints;
        d.strings.sort();
        d.strings.dedup();
        d.docs.sort();
        d.docs.dedup();
        d.ints.extend([
            0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257,
        ]);
        d.ints.sort();
        d.ints.dedup();
        d
    })
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn add(s: String, d: &mut Dict) {
    if s.is_empty() || s.len() > 600 {
        return;
    }
    if s.chars().count() <= 12 {
        d.strings.push(s);
    } else {
        d.docs.push(s);
    }
}

fn scan(s: &str, d: &mut Dict) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            'r' if matches!(c.get(i + 1), Some('"') | Some('#'))
                && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) =>
            {
                let mut h = 0;
                let mut j = i + 1;
                while c.get(j) == Some(&'#') {
                    h += 1;
                    j += 1;
                }
                if c.get(j) != Some(&'"') {
                    i += 1;
                    continue;
                }
                j += 1;
                let start = j;
                while j < c.len()
                    && !(c[j] == '"' && c[j + 1..].iter().take_while(|x| **x == '#').count() >= h)
                {
                    j += 1;
                }
                if j < c.len() {
                    add(c[start..j].iter().collect(), d);
                }
                i = j + 1 + h;
            }
            '"' => {
                let mut j = i + 1;
                let mut out = String::new();
                while j < c.len() && c[j] != '"' {
                    if c[j] == '\\' {
                        j += 1;
                        match c.get(j) {
                            Some('n') => out.push('\n'),
                            Some('r') => out.push('\r'),
                            Some('t') => out.push('\t'),
                            Some('0') => out.push('\0'),
                            Some('\n') => {
                                while c.get(j + 1).is_some_and(|x| x.is_whitespace()) {
                                    j += 1;
                                }
                            }
                            Some('u') => {
                                let mut h = String::new();
                                while j + 1 < c.len() && c[j] != '}' {
                                    j += 1;
                                    if c[j].is_ascii_hexdigit() {
                                        h.push(c[j]);
                                    }
                                }
                                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    out.push(x);
                                }
                            }
                            Some(x) => out.push(*x),
                            None => {}
                        }
                    } else {
                        out.push(c[j]);
                    }
                    j += 1;
                }
                add(out, d);
                i = j + 1;
            }
            '\'' => {
                // character literal (not a lifetime)
                if c.get(i + 1) == Some(&'\\') {
                    if c.get(i + 2) == Some(&'u') {
                        let h: String = c[i + 3..].iter().take_while(|x| **x != '}').filter(|x| x.is_ascii_hexdigit()).collect();
                        if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                            add(x.to_string(), d);
                        }
                        i += 4;
                    } else if c.get(i + 3) == Some(&'\'') {
                        let x = match c[i + 2] {
                            'n' => '\n',
                            'r' => '\r',
                            't' => '\t',
                            '0' => '\0',
                            x => x,
                        };
                        add(x.to_string(), d);
                        i += 4;
                    } else {
                        i += 2;
                    }
                } else if c.get(i + 2) == Some(&'\'') {
                    add(c[i + 1].to_string(), d);
                    i += 3;
                } else {
                    i += 1;
                }
            }
            x if x.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) => {
                let mut j = i;
                let mut t = String::new();
                while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                    if c[j] != '_' {
                        t.push(c[j]);
                    }
                    j += 1;
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).ok()
                } else {
                    let digits: String = t.chars().take_while(|x| x.is_ascii_digit()).collect();
                    digits.parse().ok()
                };
                if let Some(v) = v {
                    for v in [v.saturating_sub(1), v, v.saturating_add(1)] {
                        if v <= 70000 {
                            d.ints.push(v);
                        }
                    }
                }
                i = j;
            }
            _ => i += 1,
        }
    }
}
