//! Generators. Everything is decoded from a choice tape.
use crate::ast::*;
use crate::dict::dict;
use crate::refprint::{print, Style};
use crate::tape::Src;

// --- lexeme soups -----------------------------------------------------------------------------------------------

pub const WORDS: &[&str] = &["a", "b", "foo", "x1", "Lorem", "z", "0"];
pub const ODD: &[&str] = &[
    "é", "ß", "日", "🤔", "👩\u{200d}👩", "e\u{301}", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\t", "\u{b}", "\u{c}", "\0",
    "\u{feff}", "\u{202e}", "\u{7f}", "%", ":", "/", "\"", "'", "<", "&", "=", ".", ",", "@", "$", "^", "?", ";", "²", "Ａ",
    "\u{10ffff}", "\u{3000}", "\u{ff0d}", "\u{2013}", "A", "T", "_x", "K", "İ", "ſ", "ﬁ",
];
pub const MARKS: &[&str] = &[
    "*", "**", "_", "~~", "`", "[", "]", "(", ")", "!", "{", "}", "|", "-", "+", "#", ">", "%", "~", "***", "~~~", "``", "```",
    "{{", "}}", "{%", "%}", "!!", "---", "-----", "__", "****", "`````", "!!!", "----", "------", "{{{", "}}}", "[]", "()", "![",
    "](", "](u)", "[t](u)", "![a](b)", "{{k|v}}", "**b**", "_i_", "~~s~~", "`c`", "*e*",
];
pub const SPACES: &[&str] = &[" ", "  ", "\n", "\n\n", "\r\n", "\n\n\n", "   ", "\r", " \n", "\n ", "\r\n\r\n", "\n\r\n", "\n\n\n\n"];
pub const ESCAPES: &[&str] = &[
    "\\", "\\\\", "\\\n", "\\ ", "\\*", "\\_", "\\~", "\\`", "\\[", "\\]", "\\(", "\\)", "\\!", "\\{", "\\}", "\\|", "\\-", "\\+",
    "\\#", "\\%", "\\>", "\\a", "\\é", "\\🤔", "\\\r", "\\\\\\",
];
pub const LINES: &[&str] = &[
    "\n# ", "\n## ", "\n###### ", "\n####### ", "\n-----", "\n---\n", "\n```", "\n```\n", "\n```rust\n", "\n!!", "\n!!\n", "\n!! t\n",
    "\n! i\n", "\n{% t\n", "\n{%\n", "\n%}", "\n%}\n", "\n{{k|v}}", "\n![a](b)", "\n- ", "\n+ ", "\n - ", "\n + ", "\n  - ",
    "\n  + ", "\n   - ", "\n\n- ", "\n\n{% u\n", "\n\n%}\n\n", "\n\n# ", "\n\n```\n", "\n\n!!\n", "\n> ", "\n#", "\n -", "\n-", "\n    + ",
    "\n     - ", "\n {%", "\n %}", "\n !!", "\n ```", "\n{{", "\n}}", "\n\n-----\n\n", "\n-----\n", "\n\n![a](b)\n![c](d)", "\n{%", "\n{% ",
];
const LISTLINES: &[&str] = &[
    "\n- ", "\n+ ", "\n - ", "\n + ", "\n  - ", "\n  + ", "\n   - ", "\n   + ", "\n    - ", "\n    + ", "- ", "+ ", " - ", "-", "+", "\n-",
    "\n+", "\n -", "\n- - ", "\n--- ", "\n-  ", "\n+  ", "\n\\- ", "\n \\+ ", "\n- \\ ", "\r\n- ", "\r\n - ", "\n     - ",
];
const INLINE: &[&str] = &[
    "*", "**", "***", "_", "__", "~~", "~", "~~~", "`", "``", "[", "]", "(", ")", "](", "[t](u)", "\\*", "\\_", "\\~", "\\`", "\\[", "\\]",
    "\\(", "\\)", "**b**", "_i_", "~~s~~", "`c`", "*e*", "\n", " ", "!",
];
const CODE: &[&str] = &[
    "```", "\n```", "\n```\n", "```\n", "```rust\n", "\n````\n", "\n``\n", "````", "``", "\n\n", "\n", "\n%}", "\n!!\n", "\n# ", "\n ```\n",
    "\n\\```\n", "```\n\n", "\n```\n\n", "```js", "{% t\n", "\n```x",
];
const HIGH: &[&str] = &[
    "!! t\n", "!!\n", "!! ", "!!", "\n!!", "\n!!\n", "! i\n", "! ", "!", "\n\n", "\n", "\n! ", "!!! ", "\n!!!", "\n !!", "\n\n!!\n", "! i\n\n", "!!  t\n",
    "!! \n", "! \n", "\\!!", "\n\\!!", "!! t\n\n", "\n# ", "\n- ", "\n\n# ", "\n\n```\n", "{% c\n", "\n%}",
];
const COLL: &[&str] = &[
    "{% t\n", "{% u\n", "{%\n", "{% \n", "{%", "{% ", "{%t\n", "%}", "\n%}", "\n%}\n", "\n\n%}", "%}\n", "\n{% t\n", "\n\n{% t\n", "{% t\n\n", "\n %}",
    "\\{% t\n", "\n\\%}", "```\n", "\n```\n", "!!\n", "\n!!\n", "- ", "\n- ", "\n - ", "# ", "![a](b)", "{{k|v}}", "\n\n", "\n", "-----", "---\n", "%}%}", "{%  t\n",
];
const MEDIA: &[&str] = &[
    "![a](b)", "![", "](", ")", "![a]", "(b)", "![a](b)\n", "\n![c](d)", "![a](b(c)d)", "![a](b(c", "![](", "![]()", "!", "[", "]", "(", "{{", "}}", "|",
    "{{k|v}}", "{{k|v}}\n", "\n{{", "{{|}}", "{{k", "|v}}", "{{{", "}}}", "\n", "\n\n", "[t](u)", "!![a](b)", "\\!", "\\]", "\\)", "\\}", "\\|", " ",
];
const META: &[&str] = &[
    "---\n", "\n---\n", "---", "\n---", "----", "--", "\n----\n", "\n--\n", "\\---", "\n\\---\n", "\n ---\n", "k: v", "\n\n", "\n", "- x\n", "--- ", "-----", "\n-----\n", "---\r\n",
    "\r\n---\r\n", "{% t\n", "\n%}", "# ", "title: \"é\"",
];
const HEAD: &[&str] = &[
    "# ", "## ", "### ", "#### ", "##### ", "###### ", "####### ", "#", "#  ", "\n# ", "\n\n# ", "\n\n## ", "[t](u)", "[", "](", ")", "\n", "\n\n", "-----", "------", "----",
    "\n-----\n", "\n\n-----\n\n", "\\# ", "#\\ ", "**b**", "*", "`", "> ", "\n\n\n", "\n\n\n\n", "-----\n\n", "######", "!",
];

/// Is the string one of the lexemes or words of the generators?
pub fn familiar(t: &str) -> bool {
    let sets = [WORDS, ODD, MARKS, SPACES, ESCAPES, LINES, LISTLINES, INLINE, CODE, HIGH, COLL, MEDIA, META, HEAD, NASTY];
    sets.iter().any(|s| s.contains(&t)) || t.chars().all(|c| c.is_ascii_alphanumeric()) && t.len() < 2
}

/// Which lexemes a soup prefers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Any,
    Lex,
    Inline,
    Head,
    List,
    Code,
    High,
    Coll,
    Media,
    Meta,
}

fn word(s: &mut Src, out: &mut String) {
    match s.weighted(&[30, 8, 2, 1, 1]) {
        0 => out.push_str(s.pick(WORDS)),
        1 => out.push_str(s.pick(ODD)),
        2 => {
            for _ in 0..2 + s.below(6) {
                out.push_str(s.pick(WORDS));
                if s.chance(1, 3) {
                    out.push(' ');
                }
            }
        }
        3 => {
            let d = dict();
            if !d.strings.is_empty() {
                let v = s.pick(&d.strings).clone();
                out.push_str(&v);
            }
        }
        _ => out.push(any_char(s)),
    }
}

pub fn any_char(s: &mut Src) -> char {
    let hi = s.raw() as u32;
    let lo = s.raw() as u32;
    match hi % 6 {
        0 => char::from_u32(lo % 128).unwrap_or('a'),
        1 => char::from_u32(lo % 0x800).unwrap_or('a'),
        2 | 3 => char::from_u32(lo).unwrap_or('\u{d7ff}'),
        _ => char::from_u32(((hi << 16) ^ lo) % 0x110000).unwrap_or('\u{e000}'),
    }
}

/// A count: usually small, now and then one of the dictionary's numbers.
pub fn count(s: &mut Src, small: usize, max: usize) -> usize {
    if s.chance(1, 60) {
        let d = dict();
        (*s.pick(&d.ints)).min(max)
    } else {
        s.below(small + 1)
    }
}

fn special_run(s: &mut Src, out: &mut String) {
    let c = *s.pick(&['#', '-', '!', '`', '*', '~', '{', '}', '+', '>', ' ', '_', '[', '(', ')', ']', '\n', 'a', 'é', '\\']);
    for _ in 0..count(s, 8, 300) {
        out.push(c);
    }
}

pub fn soup(s: &mut Src, p: P, max: usize) -> String {
    let mut out = String::new();
    let novel = &dict().novel;
    let focus: &[&str] = match p {
        P::Any => LINES,
        P::Lex => ESCAPES,
        P::Inline => INLINE,
        P::Head => HEAD,
        P::List => LISTLINES,
        P::Code => CODE,
        P::High => HIGH,
        P::Coll => COLL,
        P::Media => MEDIA,
        P::Meta => META,
    };
    // how strongly the soup is focused, chosen once
    let w: [u32; 8] = match s.below(5) {
        0 => [60, 25, 6, 8, 2, 2, 1, 0],
        1 => [30, 20, 12, 12, 6, 10, 1, 1],
        2 => [20, 20, 20, 12, 10, 10, 2, 1],
        3 => [50, 15, 5, 3, 12, 5, 1, 0],
        _ => [8, 15, 25, 15, 10, 20, 3, 2],
    };
    while s.more() && out.len() < max {
        match s.weighted(&w) {
            0 => out.push_str(s.pick(focus)),
            1 => word(s, &mut out),
            2 => out.push_str(s.pick(MARKS)),
            3 => out.push_str(s.pick(SPACES)),
            4 => out.push_str(s.pick(ESCAPES)),
            5 => out.push_str(s.pick(LINES)),
            6 => special_run(s, &mut out),
            _ => {
                let d = dict();
                if !d.docs.is_empty() {
                    let v = s.pick(&d.docs).clone();
                    out.push_str(&v);
                }
            }
        }
        if !novel.is_empty() && s.chance(1, 12) {
            out.push_str(s.pick(novel));
        }
    }
    out
}

// --- constructed documents --------------------------------------------------------------------------------------

/// What strings a constructed document may hold.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Txt {
    /// anything at all
    Wild,
    /// plain words without markup characters
    Plain,
}

const NASTY: &[&str] = &[
    "\n", "\n\n", "\\", "*", "**", "_", "~~", "`", "```", "[", "]", "(", ")", "](", "!", "!!", "{%", "%}", "{{", "}}", "|", "---", "-----", "# ", "- ",
    "+ ", " - ", "\n- ", "\n + ", "\n%}", "\n!!", "\n```", "\n---", "\n# ", " ", "  ", "\r\n", "\r", "\n\n%}", "\n{% t", "![a](b)", "[t](u)", "{{k|v}}", ">", "! ", "!! ",
    "\n! i", "\n\n- ", "%", "}", "{", "~", "#", "-", "+", "####### ", "\n\n\n", "\\\n", "\n\\", "\n\r\n", "\r\n\r\n", "\n ", " \n", "\n  - ",
];

const PLAIN: &[&str] = &[
    "http://x.example/a?b=c&d", "https://", "a@b.c", "1.", "2:", "&amp;", "&#35;", ":smile:", "$x$", "^1", "<b", "</b", "=", "==", "key:v", "a/b/c.png", "www.a.b", "\"q\"", "'q'",
    "...", "\u{2014}", "\t", "\u{200b}", "\u{feff}", "TODO:", "@", "?x", ";", "a.b",
];

pub fn text(s: &mut Src, t: Txt, nonempty: bool) -> String {
    let mut out = String::new();
    match t {
        Txt::Wild => {
            let n = match s.weighted(&[30, 20, 10, 6, 1]) {
                0 => 1,
                1 => 2,
                2 => 3,
                3 => 0,
                _ => 3 + s.below(8),
            };
            for _ in 0..n {
                match s.weighted(&[20, 25, 4, 2, 1, 1, if dict().novel.is_empty() { 0 } else { 2 }]) {
                    6 => out.push_str(s.pick(&dict().novel)),
                    0 => out.push_str(s.pick(WORDS)),
                    1 => out.push_str(s.pick(NASTY)),
                    2 => out.push_str(s.pick(ODD)),
                    3 => special_run(s, &mut out),
                    4 => out.push(any_char(s)),
                    _ => {
                        let d = dict();
                        if !d.strings.is_empty() {
                            let v = s.pick(&d.strings).clone();
                            out.push_str(&v);
                        }
                    }
                }
            }
        }
        Txt::Plain => {
            for i in 0..1 + count(s, 3, 100) {
                if i > 0 {
                    out.push(' ');
                }
                for _ in 0..1 + s.below(3) {
                    match s.weighted(&[12, 3, 1, 1, 1]) {
                        3 => out.push_str(s.pick(PLAIN)),
                        4 => {
                            let d = dict();
                            let from = if s.chance(1, 2) && !d.novel.is_empty() { &d.novel } else { &d.strings };
                            if !from.is_empty() {
                                let w = s.pick(from);
                                out.extend(w.chars().filter(|c| plain_char(*c)));
                            }
                        }
                        0 => out.push_str(s.pick(WORDS)),
                        1 => out.push_str(s.pick(&["é", "日", "🤔", "ß", "T", ",", ".", ":", "/", "'", "=", "?", ";", "@", "&", "<", "\"", "$", "^", "\u{a0}", "\u{2028}"])),
                        _ => {
                            let c = any_char(s);
                            if plain_char(c) {
                                out.push(c)
                            }
                        }
                    }
                }
            }
            if out.starts_with(' ') {
                out.insert(0, 'w');
            }
            while out.ends_with(' ') {
                out.push('w');
            }
        }
    }
    if nonempty && out.is_empty() {
        out.push('a');
    }
    out
}

/// Characters that are no markup, space, line break or backslash.
pub fn plain_char(c: char) -> bool {
    !"\n\r\\~*{}%- #>!`+[]()_|".contains(c)
}

pub fn is_eol(c: char) -> bool {
    c == '\n' || c == '\r'
}

fn trimmed_end(mut t: String) -> String {
    while t.ends_with(is_eol) {
        t.pop();
    }
    t
}

/// Inline nodes in normal form. `last_eol`: whether the last text may end in a line break.
fn inlines(s: &mut Src, t: Txt, heading: bool, may_be_empty: bool, last_eol: bool) -> Vec<Inl> {
    let n = if s.chance(1, 12) { 2 + count(s, 5, 40) } else { 1 + s.below(3) };
    let mut out: Vec<Inl> = vec![];
    if may_be_empty && s.chance(1, 10) {
        return out;
    }
    for _ in 0..n {
        let k = if heading { s.weighted(&[10, 0, 0, 0, 0, 0, 6]) } else { s.weighted(&[14, 4, 4, 3, 3, 3, 4]) };
        let node = match k {
            0 => Inl::Text(text(s, t, true)),
            1 => Inl::Bold(bold(s, t)),
            2 => Inl::Italic(text(s, t, t == Txt::Plain)),
            3 => Inl::Strike(text(s, t, true)),
            4 => Inl::CodeSpan(text(s, t, true)),
            5 => Inl::Emph(text(s, t, true)),
            _ => Inl::Anchor(text(s, t, t == Txt::Plain), text(s, t, t == Txt::Plain)),
        };
        let fuse = match (out.last(), &node) {
            (Some(Inl::Text(_)), Inl::Text(_)) => true,
            (Some(Inl::Bold(_) | Inl::Emph(_)), Inl::Bold(_) | Inl::Emph(_)) => true,
            (Some(Inl::CodeSpan(_)), Inl::CodeSpan(_)) => true,
            (Some(Inl::Strike(_)), Inl::Strike(_)) => true,
            _ => false,
        };
        if !fuse {
            out.push(node);
        }
    }
    if !last_eol {
        if let Some(Inl::Text(x)) = out.last_mut() {
            *x = trimmed_end(std::mem::take(x));
            if x.is_empty() {
                x.push('a');
            }
        }
    }
    if t == Txt::Plain {
        // spaces around nodes, and line breaks within texts
        let n = out.len();
        for (i, x) in out.iter_mut().enumerate() {
            if let Inl::Text(x) = x {
                if s.chance(1, 4) {
                    x.push('\n');
                    x.push_str(s.pick(WORDS));
                }
                if i > 0 && s.chance(1, 2) {
                    x.insert(0, ' ');
                }
                if i + 1 < n && s.chance(1, 2) {
                    x.push(' ');
                }
            }
        }
    }
    out
}

fn bold(s: &mut Src, t: Txt) -> Vec<Inl> {
    let mut out: Vec<Inl> = vec![];
    for _ in 0..1 + s.below(3) {
        let node = match s.weighted(&[6, 3, 3]) {
            0 => Inl::Text(text(s, t, true)),
            1 => Inl::Italic(text(s, t, t == Txt::Plain)),
            _ => Inl::Strike(text(s, t, true)),
        };
        let fuse = matches!(
            (out.last(), &node),
            (Some(Inl::Text(_)), Inl::Text(_)) | (Some(Inl::Strike(_)), Inl::Strike(_))
        );
        if !fuse {
            out.push(node);
        }
    }
    out
}

fn list(s: &mut Src, t: Txt, level: usize, max: usize) -> List {
    let ordered = s.chance(1, 2);
    let n = 1 + count(s, 2, 30);
    let mut items = vec![];
    for _ in 0..n {
        let text = inlines(s, t, false, t == Txt::Wild, false);
        let nested = if level < max && s.chance(1, 3) { Some(list(s, t, level + 1, max)) } else { None };
        items.push(Item { text, nested });
    }
    List { ordered, level, items }
}

fn img(s: &mut Src, t: Txt) -> Img {
    Img {
        alt: text(s, t, t == Txt::Plain),
        src: text(s, t, t == Txt::Plain),
    }
}

pub fn block(s: &mut Src, t: Txt, depth: usize) -> Block {
    match s.weighted(&[12, 8, 4, 4, 7, 9, 8, 2, 5, if depth > 0 { 9 } else { 0 }]) {
        0 => Block::Para(inlines(s, t, false, false, true)),
        1 => {
            let l = 1 + s.below(6) as u8;
            Block::Heading(l, inlines(s, t, true, t == Txt::Wild, true))
        }
        2 => Block::Image(img(s, t)),
        3 => {
            let n = 2 + count(s, 2, 20);
            Block::Images((0..n).map(|_| img(s, t)).collect())
        }
        4 => {
            let lang = if t == Txt::Plain && s.chance(1, 4) { String::new() } else { text(s, t, false) };
            let mut code = trimmed_end(text(s, t, t == Txt::Plain));
            if t == Txt::Plain {
                for _ in 0..s.below(3) {
                    code.push('\n');
                    if s.chance(1, 4) {
                        code.push('\n');
                    }
                    code.push_str(&text(s, t, true));
                }
            }
            Block::Code(lang, code)
        }
        5 => {
            let max = if s.chance(1, 40) { 2 + count(s, 6, 20) } else { s.below(4) };
            Block::List(list(s, t, 0, max))
        }
        6 => {
            let title = if s.chance(2, 3) { Some(text(s, t, t == Txt::Plain)) } else { None };
            let icon = if s.chance(1, 2) { Some(text(s, t, t == Txt::Plain)) } else { None };
            let n = if t == Txt::Wild && s.chance(1, 12) { 0 } else { 1 + count(s, 2, 20) };
            let ps = (0..n).map(|_| inlines(s, t, false, false, false)).collect();
            Block::Highlight(title, icon, ps)
        }
        7 => Block::Break,
        8 => Block::Embed(text(s, t, t == Txt::Plain), text(s, t, t == Txt::Plain)),
        _ => {
            let title = text(s, t, t == Txt::Plain);
            let n = count(s, 3, 12);
            let d = if s.chance(1, 30) { depth + count(s, 4, 12) } else { depth - 1 };
            Block::Collapsible(title, (0..n).map(|_| block(s, t, d.min(20))).collect())
        }
    }
}

pub fn doc(s: &mut Src, t: Txt) -> Doc {
    let meta = if s.chance(1, 6) {
        let m = text(s, t, t == Txt::Plain);
        Some(m.trim_matches(is_eol).to_string())
    } else {
        None
    };
    let n = if s.chance(1, 25) { 3 + count(s, 4, 12) } else { 1 + s.below(3) };
    let body = (0..n).map(|_| block(s, t, 3)).collect();
    Doc { meta, body }
}

// --- sources near valid documents ---------------------------------------------------------------------------------

pub fn style(s: &mut Src) -> Style {
    Style {
        escape: *s.pick(&[0, 30, 100]),
        soft: *s.pick(&[0, 50, 100]),
        blank: *s.pick(&[0, 20]),
        tight: *s.pick(&[0, 30]),
        crlf: *s.pick(&[0, 0, 0, 50, 100]),
        named: *s.pick(&[0, 50]),
    }
}

/// A printed document of the given kind with some edits.
pub fn mutated(s: &mut Src, p: P) -> String {
    let t = if s.chance(1, 2) { Txt::Wild } else { Txt::Plain };
    let d = if p == P::Any { doc(s, t) } else { focus_doc(s, p, t) };
    let st = style(s);
    let mut text: Vec<char> = print(&d, st, s).chars().collect();
    for _ in 0..s.below(5) {
        let n = text.len();
        let i = s.below(n + 1);
        match s.below(7) {
            0 => {
                if i < n {
                    text.remove(i);
                }
            }
            1 => {
                let l = s.pick(MARKS);
                text.splice(i..i, l.chars());
            }
            2 => {
                let l = s.pick(SPACES);
                text.splice(i..i, l.chars());
            }
            3 => {
                let l = s.pick(LINES);
                text.splice(i..i, l.chars());
            }
            4 => {
                // delete up to the end of the line
                let j = (i..n).find(|j| text[*j] == '\n').unwrap_or(n);
                text.drain(i..j);
            }
            5 => {
                // duplicate a stretch
                let j = (i + 1 + s.below(20)).min(n);
                if i < j {
                    let seg: Vec<char> = text[i..j].to_vec();
                    let at = s.below(text.len() + 1);
                    text.splice(at..at, seg);
                }
            }
            _ => {
                if i < n && text[i] == '\\' {
                    text.remove(i);
                } else {
                    text.insert(i, '\\');
                }
            }
        }
    }
    text.into_iter().collect()
}

/// A document holding mainly blocks of one kind.
pub fn focus_doc(s: &mut Src, p: P, t: Txt) -> Doc {
    let mut body = vec![];
    let mut meta = None;
    for _ in 0..1 + s.below(3) {
        let b = if s.chance(1, 4) {
            block(s, t, 1)
        } else {
            match p {
                P::Inline => Block::Para(inlines(s, t, false, false, true)),
                P::Head => match s.below(3) {
                    0 => Block::Heading(1 + s.below(6) as u8, inlines(s, t, true, true, true)),
                    1 => Block::Break,
                    _ => Block::Para(inlines(s, t, false, false, true)),
                },
                P::List => {
                    let m = s.below(5);
                    Block::List(list(s, t, 0, m))
                }
                P::Code => Block::Code(text(s, t, false), trimmed_end(text(s, t, false))),
                P::High => {
                    let title = if s.chance(1, 2) { Some(text(s, t, false)) } else { None };
                    let icon = if s.chance(1, 2) { Some(text(s, t, false)) } else { None };
                    let n = s.below(4);
                    Block::Highlight(title, icon, (0..n).map(|_| inlines(s, t, false, false, false)).collect())
                }
                P::Coll => {
                    let n = s.below(3);
                    Block::Collapsible(text(s, t, false), (0..n).map(|_| block(s, t, 2)).collect())
                }
                P::Media => match s.below(3) {
                    0 => Block::Image(img(s, t)),
                    1 => Block::Images((0..2 + s.below(2)).map(|_| img(s, t)).collect()),
                    _ => Block::Embed(text(s, t, false), text(s, t, false)),
                },
                _ => block(s, t, 2),
            }
        };
        body.push(b);
    }
    if p == P::Meta || s.chance(1, 12) {
        meta = Some(text(s, t, false).trim_matches(is_eol).to_string());
    }
    Doc { meta, body }
}

/// The general source generator: soups, edited documents, seeds.
pub fn source(s: &mut Src, p: P) -> String {
    match s.weighted(&[200, 120, 20, 2]) {
        0 => soup(s, p, 260),
        1 => mutated(s, p),
        3 => crate::scale::random(s),
        _ => {
            let d = dict();
            if d.docs.is_empty() {
                return soup(s, p, 200);
            }
            let mut a = s.pick(&d.docs).clone();
            if s.chance(1, 2) {
                a.push_str(s.pick(&["\n\n", "\n", ""]));
                a.push_str(s.pick(&d.docs));
            }
            a
        }
    }
}
