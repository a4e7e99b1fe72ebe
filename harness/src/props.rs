//! The properties as executable checks: how cases are generated, which are non-trivial, and the oracle of each.
use crate::ast::{self, from_yamd, map_strings, to_yamd, Block, Doc, Inl, List};
use crate::cov;
use crate::engine::{budget, label, may_panic, Case, OpD, Out, Prop, EKD};
use crate::gen::{self, is_eol, plain_char, Txt, P};
use crate::lex::{cells, lex, Cell, Tok, K};
use crate::model::{fold, real_events, Model, E, EK, N, NODES};
use crate::refprint::{print, MINIMAL};
use crate::tape::Src;
use serde_json::{json, Value};
use yamd::lexer::{Lexer, Token};
use yamd::op::{Content, Node, Op, OpKind};

type Res = Result<Out, String>;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn text(c: &Case) -> &str {
    match c {
        Case::Text(s) | Case::Doc(_, s) | Case::Rename(s, _) | Case::Ops(s, _) | Case::Toks(s, _) | Case::Wrap(s, _) => s,
        _ => unreachable!("case without a source"),
    }
}

fn as_text(s: String) -> Option<Case> {
    Some(Case::Text(s))
}
fn no_text(_: String) -> Option<Case> {
    None
}
fn none() -> Vec<Case> {
    vec![]
}

/// A range that the code under test gives need not be one of the text.
fn cut<'a>(s: &'a str, r: &std::ops::Range<usize>) -> &'a str {
    s.get(r.clone()).unwrap_or("\u{fffd}no such range\u{fffd}")
}

fn good(b: bool) -> Res {
    Ok(if b { Out::Good } else { Out::Trivial })
}

fn read(s: &str) -> Doc {
    from_yamd(&yamd::deserialize(s))
}

fn ends_in_backslash(s: &str) -> bool {
    s.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 1
}

// --- Y01 ------------------------------------------------------------------------------------------------------------

fn y01(c: &Case) -> Res {
    let s = match c {
        Case::Nums(depth, _) => {
            label("nested deeply, in a process of its own");
            return match crate::deep_child(*depth) {
                Ok(()) => Ok(Out::Good),
                Err(e) => Err(format!("{depth} nested collapsibles on an 8 MB stack: {e}")),
            };
        }
        c => text(c),
    };
    let b = budget(s);
    cov::rebudget(b);
    let mut n = 0;
    for t in Lexer::new(s) {
        n += t.kind.to_string().len();
    }
    cov::rebudget(b);
    let ops = yamd::parse(s);
    cov::rebudget(b);
    let y = yamd::to_yamd(&ops, s);
    cov::rebudget(b);
    ensure!(yamd::try_to_yamd(&ops, s).is_ok(), "the stream of the parser is rejected");
    cov::rebudget(b);
    drop(yamd::deserialize(s));
    match cov::steps() * 100 / b {
        0 => {}
        1..=4 => label("1 to 4 percent of the work allowed"),
        5..=24 => label("5 to 24 percent of the work allowed"),
        _ => label("more than a quarter of the work allowed"),
    }
    // printing visits every node once per enclosing collapsible
    cov::rebudget(4 * b);
    let p = y.to_string();
    cov::rebudget(budget(&p));
    drop(yamd::deserialize(&p));
    let u = s.matches("{%").count();
    if u > 3 {
        label("more than 3 collapsible openers");
    }
    if s.len() > 400 {
        label("longer than 400 bytes");
    }
    good(n > 0 && ops.len() > 4)
}

const OPENERS: &[&str] = &[
    "{% a\n", "{%\n", "{% a\n\n", "{% a\nb\n\n", "- {% a\n", "{% {% a\n", "!!\n", "!! a\n", "!! a\n! b\n", "```\n", "```a\n", "``` ", "[", "[a](", "![", "![a](",
    "![a](b)\n", "[a](b", "**", "**a", "** _", "_", "~~", "`", "*", "*a **", "{{", "{{a|", "{{a|b\n", "- ", "- a\n", " - a\n", "- a\n - b\n", "+ a\n- b\n", "---\n", "-----\n",
    "-----", "# ", "# [", "# a\n", "(", "](", ")", "\n", "\n\n", "\n\n\n", "\\", "\\\n", " ", "a", "é", "🤔", "%}", "\n%}", "{%", "}}", "|", "**~~a", "** ~~_", "[a]", "[![", "{% a\n!!\n",
    "{% a\n```\n", "!!\n{% a\n", "{% a\n- b\n", "{% a\n![b](", "{% a\n{{b|", "{% a\n[b](", "{% a\n**", "{% a\n# ", "```\n{% a\n", "{% a\n%}\n", "\r\n", "\r", "{% a\r\n", ">", "!", "*_~~",
];

fn y01_fixed() -> Vec<Case> {
    let mut v = vec![];
    for o in OPENERS {
        let ks: &[usize] = &[1, 2, 8, 24, 64, 160];
        for k in ks {
            let r = o.repeat(*k);
            v.push(Case::Text(r.clone()));
            v.push(Case::Text(format!("{r}x")));
            v.push(Case::Text(format!("{r}\n%}}\n%}}")));
            v.push(Case::Text(format!("a\n{r}\n\n{r}")));
            v.push(Case::Text(format!("{{% t\n{r}\n%}}")));
        }
    }
    for (o, c) in [
        ("{% a\n", "%}\n"),
        ("{% a\n", "\n%}"),
        ("{% a\n\n", "\n\n%}"),
        ("{%\n", "%}\n"),
        ("[a](", ")"),
        ("[", "](b)"),
        ("(", ")"),
        ("**", "**"),
        ("**_", "_**"),
        ("![a](", ")"),
        ("!!\n", "\n!!"),
        ("```\n", "\n```\n"),
        ("{{a|", "}}"),
        ("{% a\n!!\n", "!!\n%}\n"),
        ("{% a\nb\n\n", "\n\nc\n%}\n"),
        ("{% a\n- b\n", "\n%}\n"),
        ("{% a\n```\n%}\n```\n", "%}\n"),
    ] {
        for k in [1usize, 3, 10, 30, 100, 200] {
            v.push(Case::Text(format!("{}{}", o.repeat(k), c.repeat(k))));
            v.push(Case::Text(format!("{}x{}", o.repeat(k), c.repeat(k))));
            v.push(Case::Text(format!("{}x{}", o.repeat(k), c.repeat(k / 2))));
        }
    }
    // lists nested to a depth
    for k in [5usize, 30, 90] {
        let down: String = (0..k).map(|i| format!("{}- a\n", " ".repeat(i))).collect();
        let up: String = (0..k).rev().map(|i| format!("{}- a\n", " ".repeat(i))).collect();
        let mixed: String = (0..k).map(|i| format!("{}{} a\n", " ".repeat(i), if i % 2 == 0 { '-' } else { '+' })).collect();
        v.push(Case::Text(down.clone()));
        v.push(Case::Text(format!("{down}{up}")));
        v.push(Case::Text(format!("{mixed}{up}")));
        v.push(Case::Text(format!("{down}{mixed}")));
    }
    // long runs of what is read in linear time, inside of what may be waiting for its end
    for o in ["", "[a](", "![a](", "![", "{{a|", "{{", "# ", "- ", "**", "_", "`", "~~", "* ", "!! ", "!!\n", "```", "```a\n", "{% ", "{% a\n", "\\"] {
        for l in ["a", "(", ")", "()", "!", "*", "**", "_", "~~", "`", "{{", "}}", "|", "\n", "# ", " ", "-", "- ", "+ ", "\\", "\\(", "é", "%}", "]", "](", "* ", "a ", "a\n", "- a\n", "**a", "(a", "_a*", "\r", "\r\n", "\t", "\0", "\t\n", "\\\n", "\\\\", "#", "_", "w\r"] {
            v.push(Case::Text(format!("{o}{}", l.repeat(16_000 / l.len()))));
        }
    }
    // large
    for t in ["a", "a b\n", "# a\n\n", "- a\n", "**a** _b_ ~~c~~ `d` *e* [f](g)\n", "{{a|b}}\n", "![a](b)\n", "!!\na\n!!\n", "```\na\n```\n", "é🤔\\*", "{% a\nb\n%}\n"] {
        v.push(Case::Text(t.repeat(20_000 / t.len())));
    }
    // many of what does not end, with all kinds of contents
    for o in ["{%", "{% a", "!!", "!!\n!", "```", "{{", "{{a|", "[", "[a](", "![", "![a](", "**", "_", "~~", "`", "*", "-", "+", "---", "#"] {
        for sep in ["", " ", "\n"] {
            for c in ["", "a", "a\\b", "\\a", "é", "*", "\\\n", "a b", "](", "|", "\r", "a\n\nb"] {
                for e in ["", "\n", "\n\n", " "] {
                    v.push(Case::Text(format!("{o}{sep}{c}{e}").repeat(36)));
                }
            }
        }
    }
    v.push(Case::Nums(1000, 0));
    v
}

fn y01_gen(s: &mut Src) -> Case {
    match s.weighted(&[5, 4, 3]) {
        0 => Case::Text(gen::source(s, P::Any)),
        1 => {
            // repeated openers, mixed
            let mut out = String::new();
            for _ in 0..1 + s.below(6) {
                let o = *s.pick(OPENERS);
                for _ in 0..1 + s.below(24) {
                    out.push_str(o);
                }
                if s.chance(1, 3) {
                    out.push_str(s.pick(gen::LINES));
                }
            }
            Case::Text(out)
        }
        _ => {
            // characters of any kind
            let mut out = String::new();
            while s.more() && out.len() < 300 {
                if s.chance(1, 3) {
                    out.push_str(s.pick(gen::MARKS));
                } else {
                    out.push(gen::any_char(s));
                }
            }
            Case::Text(out)
        }
    }
}

// --- Y02 to Y04: tokens ---------------------------------------------------------------------------------------------

fn lexed(s: &str) -> Result<Vec<Token>, String> {
    let mut l = Lexer::new(s);
    let mut v = vec![];
    for t in l.by_ref() {
        v.push(t);
        ensure!(v.len() <= s.len(), "more tokens than bytes");
    }
    for _ in 0..4 {
        if let Some(t) = l.next() {
            fail!("the iterator ended and then gave {t:?}");
        }
    }
    Ok(v)
}

fn y02(c: &Case) -> Res {
    let s = text(c);
    let ts = lexed(s)?;
    let mut at = 0;
    for (i, t) in ts.iter().enumerate() {
        let r = &t.range;
        ensure!(r.start < r.end && r.end <= s.len(), "token {i}: range {r:?}");
        ensure!(s.is_char_boundary(r.start) && s.is_char_boundary(r.end), "token {i}: {r:?} is not on character boundaries");
        ensure!(r.start >= at, "token {i} starts at {} before the end {at} of the one before", r.start);
        let gap = &s[at..r.start];
        ensure!(gap.is_empty() || gap == "\\", "token {i}: {gap:?} before it belongs to no token");
        ensure!(t.escaped == (gap == "\\"), "token {i} {t:?}: escaped {}, but the gap before it is {gap:?}", t.escaped);
        for (j, ch) in s[r.clone()].char_indices() {
            ensure!(ch != '\\' || (j == 0 && t.escaped), "token {i} {t:?} holds a backslash that is not escaped");
        }
        at = r.end;
    }
    let rest = &s[at..];
    ensure!(rest.is_empty() || (rest == "\\" && ends_in_backslash(s)), "{rest:?} at the end belongs to no token");
    if s.contains('\\') {
        label("with a backslash");
    }
    if s.chars().any(|c| c.len_utf8() > 1) {
        label("with a multi-byte character");
    }
    good(ts.len() > 1)
}

fn against_ref<'a>(ts: &'a [Token], rf: &'a [Tok], s: &str) -> Result<Vec<(&'a Token, &'a Tok)>, String> {
    let show = |ts: Vec<(&str, &str)>| ts.iter().map(|(k, t)| format!("{k}{t:?}")).collect::<Vec<_>>().join(" ");
    let same = ts.len() == rf.len()
        && ts
            .iter()
            .zip(rf)
            .all(|(t, r)| K::of(&t.kind) == r.k && t.range == (r.start..r.end) && t.escaped == r.esc);
    if !same {
        fail!(
            "tokens are [{}], expected [{}]",
            show(ts.iter().map(|t| (K::of(&t.kind).name(), s.get(t.range.clone()).unwrap_or("?"))).collect()),
            show(rf.iter().map(|t| (t.k.name(), &s[t.start..t.end])).collect())
        );
    }
    Ok(ts.iter().zip(rf).collect())
}

fn y03(c: &Case) -> Res {
    let s = text(c);
    let ts = lexed(s)?;
    let rf = lex(s);
    let mut kinds = 0u32;
    for (t, r) in against_ref(&ts, &rf, s)? {
        ensure!(t.kind.to_string() == r.k.name(), "kind {:?} is displayed as {:?}", t.kind, t.kind.to_string());
        kinds |= 1 << r.k as u32;
    }
    if rf.iter().any(|t| t.esc) {
        label("with an escaped character");
    }
    if rf.iter().any(|t| t.k == K::Term) {
        label("with a terminator");
    }
    if rf.iter().any(|t| t.len() > 2 && t.k != K::Lit) {
        label("with a run longer than 2");
    }
    good(kinds.count_ones() > 1)
}

fn y04(c: &Case) -> Res {
    let s = text(c);
    let ts: Vec<Token> = Lexer::new(s).collect();
    let cs = cells(s);
    for (i, t) in ts.iter().enumerate() {
        let p = &t.position;
        ensure!(p.byte_index == t.range.start, "token {i} {t:?}: byte index {} of the range {:?}", p.byte_index, t.range);
        let Ok(j) = cs.binary_search_by_key(&t.range.start, |c| c.start) else {
            fail!("token {i} {t:?} does not start at a character of the text");
        };
        ensure!(
            (p.row, p.column) == (cs[j].row, cs[j].col),
            "token {i} {t:?}: position is row {} column {}, expected row {} column {}",
            p.row,
            p.column,
            cs[j].row,
            cs[j].col
        );
    }
    if cs.iter().any(|c| c.c.len_utf8() > 1) {
        label("with a multi-byte character");
    }
    if cs.iter().any(|c| c.esc && c.c == '\n') {
        label("with an escaped line break");
    }
    good(ts.iter().any(|t| t.position.row > 0 && t.position.column > 0))
}

fn lex_source(s: &mut Src) -> Case {
    Case::Text(match s.weighted(&[8, 2, 3]) {
        0 => gen::soup(s, P::Lex, 120),
        1 => gen::source(s, P::Any),
        _ => {
            let mut out = String::new();
            while s.more() && out.len() < 60 {
                match s.weighted(&[6, 2, 2]) {
                    0 => out.push(*s.pick(&['\\', '\n', '\r', '{', '%', '}', ' ', '*', '~', '-', '#', '>', '!', '`', '+', '[', ']', '(', ')', '_', '|', 'a', 'é', '🤔', '\t'])),
                    1 => {
                        let c = *s.pick(&['\\', '\n', '{', '%', '}', ' ', '*', '~', '-', '#', '>', '!', '`', '+', '_', 'é']);
                        for _ in 0..gen::count(s, 6, 300) {
                            out.push(c);
                        }
                    }
                    _ => out.push(gen::any_char(s)),
                }
            }
            out
        }
    })
}

const LEX_ALPHA: &[&str] = &["a", " ", "\n", "\r", "\\", "{", "%", "}", "*", "é", "_", "-"];
const LEX_ALPHA2: &[&str] = &[
    "a", " ", "\n", "\r\n", "\\", "{", "%", "}", "*", "~", "-", "#", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|", "日", "\r",
];

// --- Y05, Y12, Y26: constructed documents ----------------------------------------------------------------------------

fn show_diff(got: &Doc, want: &Doc) -> String {
    format!("got      {got:?}\nexpected {want:?}")
}

fn profile_doc(s: &mut Src, t: Txt) -> Doc {
    if s.chance(1, 2) {
        return gen::doc(s, t);
    }
    let p = *s.pick(&[P::Inline, P::Head, P::List, P::Code, P::High, P::Coll, P::Media, P::Meta]);
    gen::focus_doc(s, p, t)
}

fn has_special(d: &Doc) -> bool {
    let mut y = false;
    map_strings(d, &mut |t| {
        y |= t.chars().any(|c| !plain_char(c) && c != ' ');
        String::new()
    });
    y
}

fn y05_gen(s: &mut Src) -> Case {
    if s.chance(1, 2) {
        // any source, with more escapes
        let Case::Text(t) = any_gen(s) else { unreachable!() };
        let rate = *s.pick(&[3, 10, 30]);
        let mut out = String::new();
        for c in t.chars() {
            if c != '\\' && !plain_char(c) && s.chance(rate, 100) {
                out.push('\\');
            }
            out.push(c);
        }
        return Case::Text(out);
    }
    let d = profile_doc(s, Txt::Wild);
    let st = gen::style(s);
    let src = print(&d, st, s);
    Case::Doc(d, src)
}

fn y05(c: &Case) -> Res {
    match c {
        Case::Doc(d, src) => {
            let got = read(src);
            ensure!(got == *d, "{src:?} with all specials escaped\n{}", show_diff(&got, d));
            label_doc(d);
            good(has_special(d))
        }
        Case::Text(t) => {
            let relation = escapes_are_plain(t)?;
            if t.len() > 16 {
                return Ok(relation);
            }
            // the text in every place, all its characters escaped
            let esc: String = t.chars().flat_map(|c| ['\\', c]).collect();
            if t.is_empty() {
                return Ok(Out::Discard);
            }
            for (name, src, want) in places(&esc, t) {
                let got = read(&src);
                ensure!(got == want, "{name}: {src:?}\n{}", show_diff(&got, &want));
            }
            label("the same text in every place");
            good(t.chars().any(|c| !plain_char(c)))
        }
        _ => unreachable!(),
    }
}

/// Writing ordinary characters of their own in place of the escaped ones changes nothing but the texts.
fn escapes_are_plain(t: &str) -> Res {
    let s = if ends_in_backslash(t) { &t[..t.len() - 1] } else { t };
    if !s.contains('\\') || s.chars().any(|c| ('\u{e000}'..='\u{e0ff}').contains(&c)) {
        return Ok(Out::Discard);
    }
    let mut of: Vec<char> = vec![];
    let mut out = String::new();
    for c in cells(s) {
        if c.esc {
            let i = of.iter().position(|x| *x == c.c).unwrap_or_else(|| {
                of.push(c.c);
                of.len() - 1
            });
            if i > 255 {
                return Ok(Out::Discard);
            }
            out.push(char::from_u32(0xe000 + i as u32).unwrap());
        } else {
            out.push(c.c);
        }
    }
    let d = map_strings(&read(&out), &mut |t| {
        t.chars()
            .map(|c| match c as u32 {
                u @ 0xe000..=0xe0ff => of.get(u as usize - 0xe000).copied().unwrap_or(c),
                _ => c,
            })
            .collect()
    });
    let want = trimmed(d);
    let got = read(s);
    ensure!(got == want, "{s:?}, the same with ordinary characters: {out:?}\n{}", show_diff(&got, &want));
    label("escapes replaced by ordinary characters");
    good(!want.body.is_empty() && of.iter().any(|c| !plain_char(*c)))
}

/// The trimming that the document applies, whether or not the line breaks are escaped.
fn trimmed(d: Doc) -> Doc {
    fn inls(v: &mut Vec<Inl>) {
        if let Some(Inl::Text(t)) = v.last_mut() {
            *t = t.trim_end_matches(is_eol).to_string();
            if t.is_empty() {
                v.pop();
            }
        }
    }
    fn list(l: &mut List) {
        for i in &mut l.items {
            inls(&mut i.text);
            if let Some(n) = &mut i.nested {
                list(n);
            }
        }
    }
    fn blocks(b: &mut [Block]) {
        for b in b {
            match b {
                Block::Code(_, c) => *c = c.trim_end_matches(is_eol).to_string(),
                Block::List(l) => list(l),
                Block::Highlight(_, _, ps) => {
                    ps.iter_mut().for_each(inls);
                    ps.retain(|p| !p.is_empty());
                }
                Block::Collapsible(_, b) => blocks(b),
                _ => {}
            }
        }
    }
    let mut d = d;
    d.meta = d.meta.map(|m| m.trim_matches(is_eol).to_string());
    blocks(&mut d.body);
    d
}

/// Sources with the escaped form `e` of `t` in every place where text may occur, and what they denote.
fn places(e: &str, t: &str) -> Vec<(&'static str, String, Doc)> {
    let t = t.to_string();
    let doc = |b: Block| Doc { meta: None, body: vec![b] };
    let para = |v: Vec<Inl>| doc(Block::Para(v));
    let te = t.trim_end_matches(is_eol).to_string();
    let texts = |t: &str| if t.is_empty() { vec![] } else { vec![Inl::Text(t.to_string())] };
    let mut v = vec![
        ("paragraph", e.to_string(), para(texts(&t))),
        ("middle of a paragraph", format!("x{e}y"), para(texts(&format!("x{t}y")))),
        ("strikethrough", format!("~~{e}~~"), para(vec![Inl::Strike(t.clone())])),
        ("italic", format!("_{e}_"), para(vec![Inl::Italic(t.clone())])),
        ("emphasis", format!("*{e}*"), para(vec![Inl::Emph(t.clone())])),
        ("code span", format!("`{e}`"), para(vec![Inl::CodeSpan(t.clone())])),
        ("bold", format!("**{e}**"), para(vec![Inl::Bold(texts(&t))])),
        ("strikethrough in bold", format!("**~~{e}~~**"), para(vec![Inl::Bold(vec![Inl::Strike(t.clone())])])),
        ("italic in bold", format!("**_{e}_**"), para(vec![Inl::Bold(vec![Inl::Italic(t.clone())])])),
        ("anchor text", format!("[{e}](u)"), para(vec![Inl::Anchor(t.clone(), "u".into())])),
        ("anchor destination", format!("[a]({e})"), para(vec![Inl::Anchor("a".into(), t.clone())])),
        ("heading", format!("## {e}"), doc(Block::Heading(2, texts(&t)))),
        ("heading anchor", format!("# [{e}](u)"), doc(Block::Heading(1, vec![Inl::Anchor(t.clone(), "u".into())]))),
        ("image alt", format!("![{e}](u)"), doc(Block::Image(ast::Img { alt: t.clone(), src: "u".into() }))),
        ("image source", format!("![a]({e})"), doc(Block::Image(ast::Img { alt: "a".into(), src: t.clone() }))),
        ("embed kind", format!("{{{{{e}|a}}}}"), doc(Block::Embed(t.clone(), "a".into()))),
        ("embed args", format!("{{{{k|{e}}}}}"), doc(Block::Embed("k".into(), t.clone()))),
        ("code language", format!("```{e}\nx\n```"), doc(Block::Code(t.clone(), "x".into()))),
        ("collapsible title", format!("{{% {e}\nx\n%}}"), doc(Block::Collapsible(t.clone(), vec![Block::Para(texts("x"))]))),
        ("collapsible body", format!("{{% a\n{e}\n%}}"), doc(Block::Collapsible("a".into(), vec![Block::Para(texts(&t))]))),
        ("highlight title", format!("!! {e}\nx\n!!"), doc(Block::Highlight(Some(t.clone()), None, vec![texts("x")]))),
        ("highlight icon", format!("!!\n! {e}\nx\n!!"), doc(Block::Highlight(None, Some(t.clone()), vec![texts("x")]))),
        ("gallery", format!("![{e}](u)\n![a]({e})"), doc(Block::Images(vec![
            ast::Img { alt: t.clone(), src: "u".into() },
            ast::Img { alt: "a".into(), src: t.clone() },
        ]))),
    ];
    // places where surrounding line breaks are trimmed
    if !te.is_empty() && te == t {
        v.push(("code body", format!("```\n{e}\n```"), doc(Block::Code(String::new(), t.clone()))));
        v.push(("second line of a code body", format!("```\nx\n{e}\n```"), doc(Block::Code(String::new(), format!("x\n{t}")))));
        v.push(("list item", format!("- {e}"), doc(Block::List(List { ordered: false, level: 0, items: vec![ast::Item { text: texts(&t), nested: None }] }))));
        v.push(("second line of a list item", format!("+ x\n{e}"), doc(Block::List(List { ordered: true, level: 0, items: vec![ast::Item { text: texts(&format!("x\n{t}")), nested: None }] }))));
        v.push(("highlight paragraph", format!("!!\n{e}\n!!"), doc(Block::Highlight(None, None, vec![texts(&t)]))));
        if t.trim_matches(is_eol) == t {
            v.push(("metadata", format!("---\n{e}\n---"), Doc { meta: Some(t.clone()), body: vec![] }));
        }
    }
    v
}

fn label_doc(d: &Doc) {
    if d.meta.is_some() {
        label("with metadata");
    }
    for b in &d.body {
        label(match b {
            Block::Para(_) => "with a paragraph",
            Block::Heading(..) => "with a heading",
            Block::Image(_) => "with an image",
            Block::Images(_) => "with a gallery",
            Block::Code(..) => "with a code block",
            Block::List(_) => "with a list",
            Block::Highlight(..) => "with a highlight",
            Block::Break => "with a thematic break",
            Block::Embed(..) => "with an embed",
            Block::Collapsible(..) => "with a collapsible",
        });
    }
}

const ESC_LINES: &[&str] = &["a", "\\\n", "\n", "- ", " - ", "# ", "!!", "```", "{% ", "%}", "---", "\\", "[", "](", ")", "_"];
const ESC_ALPHA: &[&str] = &[
    "\n", "\r", "\\", "~", "*", "{", "}", "%", "-", "#", " ", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|", "a", "é",
];

/// The documents of the scaled sources.
fn scaled_docs() -> Vec<Doc> {
    crate::scale::sources().iter().chain(&crate::scale::characters()).map(|s| fold(&Model::new(s).events()).expect("the model's own stream")).collect()
}
fn y05_fixed() -> Vec<Case> {
    let mut v = vec![];
    for d in scaled_docs() {
        for escape in [0, 100] {
            let src = print(&d, gen_style(escape), &mut Src::new(&[]));
            v.push(Case::Doc(d.clone(), src));
        }
    }
    v
}
fn gen_style(escape: usize) -> crate::refprint::Style {
    crate::refprint::Style { escape, ..MINIMAL }
}
fn y12_fixed() -> Vec<Case> {
    scaled_docs().into_iter().map(|d| Case::Doc(d, String::new())).collect()
}
fn y26_fixed() -> Vec<Case> {
    let mut v = vec![];
    for d in scaled_docs() {
        let d = canonical(d);
        let src = print(&d, MINIMAL, &mut Src::new(&[]));
        v.push(Case::Doc(d, src));
    }
    v
}

fn y12_gen(s: &mut Src) -> Case {
    Case::Doc(profile_doc(s, Txt::Wild), String::new())
}

const EOLS: &[&str] = &["", "\n", "\r\n", "\n\n", "\r"];

fn pad(bs: &mut [Block], k: usize, padded: &mut bool) {
    for b in bs {
        match b {
            Block::Code(_, c) => {
                *padded = true;
                c.push_str(EOLS[k % 5]);
                c.push_str(EOLS[k / 5 % 5]);
            }
            Block::Collapsible(_, b) => pad(b, k, padded),
            _ => {}
        }
    }
}

fn y12(c: &Case) -> Res {
    match c {
        Case::Doc(d, _) => {
            let y = to_yamd(d);
            let p = y.to_string();
            let got = read(&p);
            ensure!(got == *d, "printed as {p:?}\n{}", show_diff(&got, d));
            label_doc(d);
            // the constructors trim surrounding line breaks where reading does
            let mut padded = false;
            let mut dd = d.clone();
            pad(&mut dd.body, p.len(), &mut padded);
            if let Some(m) = &mut dd.meta {
                padded = true;
                *m = format!("{}{m}{}", EOLS[p.len() % 5], EOLS[p.len() / 5 % 5]);
            }
            if padded {
                label("with line breaks to trim");
                let yy = to_yamd(&dd);
                ensure!(yy == y, "built with line breaks around its metadata and after its code:\n{}", show_diff(&from_yamd(&yy), d));
            }
            good(has_special(d))
        }
        Case::Text(t) => {
            if t.is_empty() {
                return Ok(Out::Discard);
            }
            for (name, _, want) in places("", t) {
                let p = to_yamd(&want).to_string();
                let got = read(&p);
                ensure!(got == want, "{name}: printed as {p:?}\n{}", show_diff(&got, &want));
                // with something before and after it, and in a collapsible
                let w = Block::Para(vec![Inl::Text("w".into())]);
                let mut body = vec![w.clone()];
                body.extend(want.body.iter().cloned());
                body.push(w);
                let wrapped = Doc { meta: None, body: vec![Block::Collapsible("c".into(), body)] };
                let p = to_yamd(&wrapped).to_string();
                let got = read(&p);
                ensure!(got == wrapped, "{name} in a collapsible: printed as {p:?}\n{}", show_diff(&got, &wrapped));
            }
            label("the same text in every place");
            good(t.chars().any(|c| !plain_char(c)))
        }
        _ => unreachable!(),
    }
}

fn y26_gen(s: &mut Src) -> Case {
    let d = profile_doc(s, Txt::Plain);
    let d = canonical(d);
    let src = print(&d, MINIMAL, s);
    Case::Doc(d, src)
}

/// An empty collapsible is printed with an empty line in it; the canonical layout has none.
fn canonical(mut d: Doc) -> Doc {
    fn fill(bs: &mut [Block]) {
        for b in bs {
            if let Block::Collapsible(_, body) = b {
                if body.is_empty() {
                    body.push(Block::Para(vec![Inl::Text("w".into())]));
                }
                fill(body);
            }
        }
    }
    fill(&mut d.body);
    d
}

fn y26(c: &Case) -> Res {
    let Case::Doc(d, src) = c else { unreachable!() };
    if src.contains('\\') {
        return Ok(Out::Discard);
    }
    let got = yamd::deserialize(src);
    ensure!(from_yamd(&got) == *d, "{src:?}\n{}", show_diff(&from_yamd(&got), d));
    let p = got.to_string();
    ensure!(p == *src, "printed differently\nprinted  {p:?}\nexpected {src:?}");
    label_doc(d);
    good(d.body.len() > 1 || src.contains('\n'))
}

// --- Y06 to Y11 -----------------------------------------------------------------------------------------------------

fn y06(c: &Case) -> Res {
    let s = text(c);
    let ops = yamd::parse(s);
    let evs = real_events(&ops, s);
    if let Err(e) = fold(&evs) {
        fail!("{e}\nin {}", show_events(&evs));
    }
    for k in evs.iter().filter_map(|e| if let EK::Start(n) = e.k { Some(n) } else { None }) {
        label(node_label(k));
    }
    good(evs.len() > 5)
}

fn node_label(n: N) -> &'static str {
    match n {
        N::Anchor => "node Anchor",
        N::Bold => "node Bold",
        N::Code => "node Code",
        N::CodeSpan => "node CodeSpan",
        N::Collapsible => "node Collapsible",
        N::Destination => "node Destination",
        N::Document => "node Document",
        N::Embed => "node Embed",
        N::Emphasis => "node Emphasis",
        N::Heading => "node Heading",
        N::Highlight => "node Highlight",
        N::Icon => "node Icon",
        N::Image => "node Image",
        N::Images => "node Images",
        N::Italic => "node Italic",
        N::ListItem => "node ListItem",
        N::Modifier => "node Modifier",
        N::Metadata => "node Metadata",
        N::OrderedList => "node OrderedList",
        N::Paragraph => "node Paragraph",
        N::Strikethrough => "node Strikethrough",
        N::ThematicBreak => "node ThematicBreak",
        N::Title => "node Title",
        N::UnorderedList => "node UnorderedList",
    }
}

fn show_events(e: &[E]) -> String {
    e.iter()
        .map(|e| match e.k {
            EK::Start(n) => format!("{n:?}({:?}", e.s),
            EK::End(n) => format!("{:?}){n:?}", e.s),
            EK::Value => format!("{:?}", e.s),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn y07(c: &Case) -> Res {
    let s = text(c);
    let ops = yamd::parse(s);
    let cs = cells(s);
    let mut at = 0;
    let mut owned = 0;
    for (i, op) in ops.iter().enumerate() {
        match &op.content {
            Content::Span(r) => {
                ensure!(
                    r.is_empty() || (r.end <= s.len() && s.is_char_boundary(r.start) && s.is_char_boundary(r.end)),
                    "operation {i} has the span {r:?}"
                )
            }
            Content::Materialized(_) => owned += 1,
        }
        let t = op.content.as_str(s);
        if t.is_empty() {
            ensure!(matches!(op.content, Content::Span(_)), "operation {i} {op:?} owns an empty text");
            continue;
        }
        let matches = |at: usize| -> Option<usize> {
            let mut j = at;
            for ch in t.chars() {
                if cs.get(j).is_none_or(|c| c.c != ch) {
                    return None;
                }
                j += 1;
            }
            Some(j)
        };
        let mut from = at;
        if op.kind == OpKind::End(Node::Collapsible) && t.starts_with("%}") {
            // the line break directly before it may be left out
            let plain = |j: usize, ch: char| cs.get(j).is_some_and(|c| c.c == ch && !c.esc);
            if plain(from, '\n') {
                from += 1;
            } else if plain(from, '\r') && plain(from + 1, '\n') {
                from += 2;
            }
        }
        let Some(to) = matches(from) else {
            let rest: String = cs[at..].iter().map(|c| c.c).collect();
            fail!("operation {i} {op:?} reads {t:?} where the input goes on with {rest:?}");
        };
        let run: &[Cell] = &cs[from..to];
        let contiguous = run.windows(2).all(|w| w[0].end == w[1].start);
        let want = if contiguous {
            Content::Span(run[0].start..run[run.len() - 1].end)
        } else {
            Content::Materialized(t.to_string())
        };
        ensure!(op.content == want, "operation {i} {op:?} has the content {:?}, expected {want:?}", op.content);
        at = to;
    }
    let rest: String = cs[at..].iter().map(|c| c.c).collect();
    ensure!(rest.is_empty(), "no operation holds the rest {rest:?} of the input");
    if owned > 0 {
        label("with owned text");
    }
    good(ops.len() > 5)
}

fn y08(c: &Case) -> Res {
    let s = text(c);
    let ops = yamd::parse(s);
    let evs = real_events(&ops, s);
    let want = match fold(&evs) {
        Ok(d) => d,
        Err(e) => fail!("the stream is not grammatical: {e}\nin {}", show_events(&evs)),
    };
    let a = yamd::deserialize(s);
    let b = yamd::to_yamd(&ops, s);
    let Ok(t) = yamd::try_to_yamd(&ops, s) else { fail!("the stream of the parser is rejected") };
    ensure!(a == b, "deserialize gives {a:?}\nto_yamd gives   {b:?}");
    ensure!(a == t, "deserialize gives {a:?}\ntry_to_yamd gives {t:?}");
    let got = from_yamd(&a);
    ensure!(got == want, "the document differs from its events\n{}", show_diff(&got, &want));
    label_doc(&got);
    good(evs.len() > 5)
}

fn y09_gen(s: &mut Src) -> Case {
    let src = if s.chance(1, 3) {
        let d = gen::doc(s, Txt::Plain);
        print(&d, MINIMAL, s)
    } else {
        gen::source(s, P::Any)
    };
    let mut ops: Vec<OpD> = vec![];
    let rand_op = |s: &mut Src| {
        let n = s.below(NODES.len());
        let k = match s.below(5) {
            0 | 1 => EKD::S(n),
            2 | 3 => EKD::E(n),
            _ => EKD::V,
        };
        let c = match s.below(4) {
            0 => Ok(String::new()),
            1 => Ok(s.pick(&["a", "# ", "|", "\n", "\n\n", "é", "###### ", "####### ", "- ", "   - "]).to_string()),
            2 => {
                let n = if s.chance(1, 6) { 200 + s.below(500) } else { gen::count(s, 9, 300) };
                Ok(s.pick(&["#", "#", " ", "é", "\n"]).repeat(n))
            }
            _ => Err((0, 0)),
        };
        OpD { k, s: c }
    };
    if s.chance(3, 4) {
        let evs = Model::new(&src).events();
        ops = evs.iter().map(|e| OpD { k: EKD::of(e.k), s: Ok(e.s.clone()) }).collect();
        for _ in 0..s.below(4) {
            let n = ops.len();
            let i = s.below(n.max(1)).min(n.saturating_sub(1));
            match s.below(8) {
                0 if n > 0 => {
                    ops.remove(i);
                }
                1 if n > 0 => {
                    let o = ops[i].clone();
                    ops.insert(i, o);
                }
                2 if n > 1 => ops.swap(i, (i + 1) % n),
                3 => {
                    let o = rand_op(s);
                    ops.insert(i, o)
                }
                4 if n > 0 => {
                    let k = rand_op(s).k;
                    // usually the same side, another node
                    ops[i].k = match (&ops[i].k, k) {
                        (EKD::S(_), EKD::E(m)) => EKD::S(m),
                        (EKD::E(_), EKD::S(m)) => EKD::E(m),
                        (_, k) => k,
                    };
                }
                5 => ops.truncate(i),
                6 if n > 0 => {
                    // a matched pair around a stretch
                    let m = s.below(NODES.len());
                    let j = (i + s.below(4)).min(n);
                    ops.insert(j.max(i), OpD { k: EKD::E(m), s: Ok(String::new()) });
                    ops.insert(i, OpD { k: EKD::S(m), s: Ok(String::new()) });
                }
                _ if n > 0 => {
                    // remove a matched pair
                    let st = ops.iter().enumerate().skip(i).find(|(_, o)| matches!(o.k, EKD::S(_))).map(|x| x.0);
                    if let Some(a) = st {
                        let mut depth = 0;
                        for b in a..n {
                            match ops[b].k {
                                EKD::S(_) => depth += 1,
                                EKD::E(_) => depth -= 1,
                                EKD::V => {}
                            }
                            if depth == 0 {
                                ops.remove(b);
                                ops.remove(a);
                                break;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    } else {
        // arbitrary streams, balanced or not
        let mut open = vec![];
        for _ in 0..s.below(12) {
            let mut o = rand_op(s);
            if let (EKD::E(_), Some(n)) = (&o.k, open.last()) {
                if s.chance(9, 10) {
                    o.k = EKD::E(*n);
                    open.pop();
                }
            } else if let EKD::S(n) = o.k {
                open.push(n);
            }
            ops.push(o);
        }
        while let Some(n) = open.pop() {
            if s.chance(1, 20) {
                break;
            }
            ops.push(OpD { k: EKD::E(n), s: Ok(String::new()) });
        }
    }
    // some contents as spans of the source
    if s.chance(1, 2) {
        for o in ops.iter_mut() {
            if let Ok(t) = &o.s {
                if let Some(i) = src.find(t.as_str()) {
                    if !t.is_empty() || i == 0 {
                        o.s = Err((i, i + t.len()));
                    }
                }
            }
        }
    }
    Case::Ops(src, ops)
}

fn y09_text(t: String) -> Option<Case> {
    // the stream itself, and as an enumeration alphabet: one letter per operation
    let evs = Model::new(&t).events();
    Some(Case::Ops(t, evs.iter().map(|e| OpD { k: EKD::of(e.k), s: Ok(e.s.clone()) }).collect()))
}

fn y09_fixed() -> Vec<Case> {
    // every sequence of up to 4 operations over a few nodes, every pair start/end of all nodes
    let mut v = vec![];
    let ix = |n: N| NODES.iter().position(|m| *m == n).unwrap();
    for nodes in [
        [N::Document, N::Paragraph, N::Bold],
        [N::Collapsible, N::Document, N::Modifier],
        [N::UnorderedList, N::ListItem, N::Paragraph],
        [N::Metadata, N::Anchor, N::Title],
        [N::Highlight, N::Icon, N::Paragraph],
        [N::Images, N::Image, N::Destination],
        [N::Embed, N::Code, N::Heading],
    ] {
        let mut alpha = vec![EKD::V];
        for n in nodes {
            alpha.push(EKD::S(ix(n)));
            alpha.push(EKD::E(ix(n)));
        }
        for len in 0..=4usize {
            for mut k in 0..alpha.len().pow(len as u32) {
                let mut ops = vec![];
                for _ in 0..len {
                    ops.push(OpD { k: alpha[k % alpha.len()].clone(), s: Ok("a".into()) });
                    k /= alpha.len();
                }
                v.push(Case::Ops(String::new(), ops));
            }
        }
    }
    let op = |k: EKD| OpD { k, s: Ok(String::new()) };
    // long and odd contents of every node
    for a in 0..NODES.len() {
        for t in ["#", " ", "é", "\n", "-", "a"] {
            for n in [7, 255, 256, 300, 65536] {
                let st = OpD { k: EKD::S(a), s: Ok(t.repeat(n)) };
                v.push(Case::Ops(String::new(), vec![op(EKD::S(1)), st.clone(), op(EKD::E(a)), op(EKD::E(1))]));
                let val = OpD { k: EKD::V, s: Ok(t.repeat(n)) };
                v.push(Case::Ops(String::new(), vec![op(EKD::S(1)), op(EKD::S(a)), val, op(EKD::E(a)), op(EKD::E(1))]));
            }
        }
    }
    for a in 0..NODES.len() {
        for b in 0..NODES.len() {
            v.push(Case::Ops(String::new(), vec![op(EKD::S(a)), op(EKD::E(b))]));
            v.push(Case::Ops(String::new(), vec![op(EKD::S(1)), op(EKD::S(a)), op(EKD::E(b)), op(EKD::E(1))]));
            v.push(Case::Ops(
                String::new(),
                vec![op(EKD::S(1)), op(EKD::S(a)), op(EKD::S(b)), op(EKD::E(a)), op(EKD::E(b)), op(EKD::E(1))],
            ));
            v.push(Case::Ops(
                String::new(),
                vec![op(EKD::S(1)), op(EKD::S(a)), op(EKD::S(b)), op(EKD::V), op(EKD::E(b)), op(EKD::E(a)), op(EKD::E(1))],
            ));
            v.push(Case::Ops(String::new(), vec![op(EKD::S(1)), op(EKD::S(a)), op(EKD::S(b)), op(EKD::E(a)), op(EKD::E(1))]));
        }
    }
    v
}

fn to_ops(src: &str, ops: &[OpD]) -> Option<Vec<Op>> {
    ops.iter()
        .map(|o| {
            let content = match &o.s {
                Ok(t) => Content::Materialized(t.clone()),
                Err((a, b)) => {
                    if *a > *b || *b > src.len() || !src.is_char_boundary(*a) || !src.is_char_boundary(*b) {
                        return None;
                    }
                    Content::Span(*a..*b)
                }
            };
            let kind = match o.k {
                EKD::S(n) => OpKind::Start(NODES[n].to()),
                EKD::E(n) => OpKind::End(NODES[n].to()),
                EKD::V => OpKind::Value,
            };
            Some(Op { kind, content })
        })
        .collect()
}

fn y09(c: &Case) -> Res {
    let Case::Ops(src, ds) = c else { unreachable!() };
    let Some(ops) = to_ops(src, ds) else { return Ok(Out::Discard) };
    let mut open = vec![];
    let mut nested = true;
    for d in ds {
        match d.k {
            EKD::S(n) => open.push(n),
            EKD::E(n) => {
                if open.pop() != Some(n) {
                    nested = false;
                    break;
                }
            }
            EKD::V => {}
        }
    }
    nested &= open.is_empty();
    let fallible = yamd::try_to_yamd(&ops, src);
    let infallible = may_panic(|| yamd::to_yamd(&ops, src));
    match (&fallible, nested) {
        (Ok(d), false) => fail!("the stream is not properly nested, but gives {d:?}"),
        (Err(e), true) => fail!("the stream is properly nested, but is rejected: {e:?}"),
        _ => {}
    }
    match (fallible, infallible) {
        (Ok(a), Some(b)) => ensure!(a == b, "try_to_yamd gives {a:?}\nto_yamd gives {b:?}"),
        (Err(_), None) => {}
        (a, b) => fail!("try_to_yamd gives {a:?}, but to_yamd {}", if b.is_some() { "returns" } else { "panics" }),
    }
    label(if nested { "nested" } else { "not nested" });
    good(ds.len() > 1)
}

fn breaks(t: &str) -> bool {
    t.replace("\r\n", "\n").contains("\n\n")
}

struct Nf {
    esc: bool,
}

impl Nf {
    fn txt(&self, what: &str, t: &str) -> Result<(), String> {
        ensure!(self.esc || !breaks(t), "{what} {t:?} spans a blank line");
        Ok(())
    }
    fn line(&self, what: &str, t: &str) -> Result<(), String> {
        ensure!(self.esc || !t.contains('\n'), "{what} {t:?} spans lines");
        Ok(())
    }
    fn inls(&self, v: &[Inl], bold: bool) -> Result<(), String> {
        for (i, n) in v.iter().enumerate() {
            match n {
                Inl::Text(t) => {
                    ensure!(!t.is_empty(), "empty text in {v:?}");
                    ensure!(i == 0 || !matches!(v[i - 1], Inl::Text(_)), "adjacent texts in {v:?}");
                    self.txt("text", t)?;
                }
                Inl::Bold(b) => {
                    ensure!(!bold && !b.is_empty(), "empty bold in {v:?}");
                    self.inls(b, true)?;
                }
                Inl::Italic(t) => self.txt("italic", t)?,
                Inl::Strike(t) | Inl::CodeSpan(t) | Inl::Emph(t) => {
                    ensure!(!t.is_empty(), "empty node in {v:?}");
                    self.txt("inline node", t)?;
                }
                Inl::Anchor(a, b) => {
                    self.txt("link text", a)?;
                    self.txt("link destination", b)?;
                }
            }
        }
        Ok(())
    }
    fn list(&self, l: &List, level: usize) -> Result<(), String> {
        ensure!(!l.items.is_empty(), "empty list");
        ensure!(l.level == level, "list of level {} nested {level} deep", l.level);
        for i in &l.items {
            self.inls(&i.text, false)?;
            if let Some(n) = &i.nested {
                self.list(n, level + 1)?;
            }
        }
        Ok(())
    }
    fn blocks(&self, bs: &[Block]) -> Result<(), String> {
        for b in bs {
            match b {
                Block::Para(p) => {
                    ensure!(!p.is_empty(), "empty paragraph");
                    self.inls(p, false)?;
                }
                Block::Heading(l, p) => {
                    ensure!((1..=6).contains(l), "heading of level {l}");
                    self.inls(p, false)?;
                }
                Block::Image(i) => {
                    self.txt("alt", &i.alt)?;
                    self.txt("src", &i.src)?;
                }
                Block::Images(v) => {
                    ensure!(v.len() > 1, "gallery of {}", v.len());
                    for i in v {
                        self.txt("alt", &i.alt)?;
                        self.txt("src", &i.src)?;
                    }
                }
                Block::Code(l, c) => {
                    self.line("language", l)?;
                    ensure!(!c.ends_with(is_eol), "code {c:?} ends in a line break");
                }
                Block::List(l) => self.list(l, 0)?,
                Block::Highlight(t, i, ps) => {
                    if let Some(t) = t {
                        self.line("title", t)?;
                    }
                    if let Some(i) = i {
                        self.line("icon", i)?;
                    }
                    for p in ps {
                        ensure!(!p.is_empty(), "empty paragraph in a highlight");
                        self.inls(p, false)?;
                    }
                }
                Block::Break => {}
                Block::Embed(k, a) => {
                    self.txt("kind", k)?;
                    self.txt("args", a)?;
                }
                Block::Collapsible(t, b) => {
                    self.line("title", t)?;
                    self.blocks(b)?;
                }
            }
        }
        Ok(())
    }
}

fn y10(c: &Case) -> Res {
    let s = text(c);
    let d = read(s);
    if let Some(m) = &d.meta {
        ensure!(m.trim_matches(is_eol) == m, "metadata {m:?} starts or ends in a line break");
    }
    let nf = Nf { esc: s.contains('\\') };
    if let Err(e) = nf.blocks(&d.body) {
        fail!("{e}\nin {d:?}");
    }
    label(if nf.esc { "with an escape" } else { "without escapes" });
    label_doc(&d);
    good(d.body.iter().any(|b| !matches!(b, Block::Para(_))) || d.body.len() > 1)
}

fn y11(c: &Case) -> Res {
    let s = text(c);
    let a = yamd::deserialize(s);
    let p = a.to_string();
    let b = yamd::deserialize(&p);
    ensure!(a == b, "printed as {p:?}\n{}", show_diff(&from_yamd(&b), &from_yamd(&a)));
    let q = b.to_string();
    ensure!(p == q, "printed as {p:?}, and read back and printed again as {q:?}");
    let d = from_yamd(&a);
    label_doc(&d);
    if p.contains('\\') {
        label("printed with an escape");
    }
    good(p != s && !d.body.is_empty())
}

// --- Y13 to Y20: against the model ----------------------------------------------------------------------------------

fn against_model(s: &str, focus: &[N]) -> Res {
    let ops = yamd::parse(s);
    let got = real_events(&ops, s);
    let want = Model::new(s).events();
    ensure!(got == want, "events differ\ngot      {}\nexpected {}", show_events(&got), show_events(&want));
    let want = match fold(&want) {
        Ok(d) => d,
        Err(e) => panic!("the model's own stream is not grammatical: {e}"),
    };
    let d = read(s);
    ensure!(d == want, "documents differ\n{}", show_diff(&d, &want));
    let mut hit = false;
    for e in &got {
        if let EK::Start(n) = e.k {
            if focus.contains(&n) {
                hit = true;
                label(node_label(n));
            }
        }
    }
    good(hit)
}

macro_rules! model_prop {
    ($check:ident, $gen:ident, $p:expr, $focus:expr) => {
        fn $check(c: &Case) -> Res {
            against_model(text(c), $focus)
        }
        fn $gen(s: &mut Src) -> Case {
            Case::Text(gen::source(s, $p))
        }
    };
}
model_prop!(y13, y13_gen, P::Inline, &[N::Strikethrough, N::Italic, N::Bold, N::Anchor, N::CodeSpan, N::Emphasis]);
model_prop!(y14, y14_gen, P::Head, &[N::Heading, N::ThematicBreak]);
model_prop!(y15, y15_gen, P::List, &[N::OrderedList, N::UnorderedList]);
model_prop!(y16, y16_gen, P::Code, &[N::Code]);
model_prop!(y17, y17_gen, P::High, &[N::Highlight]);
model_prop!(y18, y18_gen, P::Coll, &[N::Collapsible]);
model_prop!(y19, y19_gen, P::Media, &[N::Image, N::Images, N::Embed]);

fn y20(c: &Case) -> Res {
    let s = text(c);
    let r = against_model(s, &[N::Metadata])?;
    let d = yamd::deserialize(s);
    if s.starts_with("---") && d.metadata.is_none() {
        label("leading dashes without metadata");
    }
    Ok(r)
}
fn y20_gen(s: &mut Src) -> Case {
    let mut t = String::new();
    if s.chance(2, 3) {
        t.push_str(s.pick(&["---\n", "---", "---\r\n", "--- ", "---a", "----\n", "--\n", "\\---\n", "\n---\n", " ---\n", "-----\n", "---\n---"]));
    }
    t.push_str(&gen::source(s, P::Meta));
    Case::Text(t)
}

fn any_gen(s: &mut Src) -> Case {
    match s.weighted(&[30, 2, 1, 1]) {
        1 => return y20_gen(s),
        2 => return lex_source(s),
        3 => return y01_gen(s),
        _ => {}
    }
    let p = *s.pick(&[P::Any, P::Any, P::Inline, P::Head, P::List, P::Code, P::High, P::Coll, P::Media, P::Meta]);
    Case::Text(gen::source(s, p))
}

// --- Y21 to Y24: relations between sources --------------------------------------------------------------------------

/// Are all markers of fences, highlights, collapsibles and metadata at the start of a line consumed as such?
fn all_closed(s: &str) -> bool {
    let t = lex(s);
    let m = Model::new(s);
    let mut structural = vec![false; t.len()];
    m.structure(&mut |n, body, a, b| {
        let relevant = matches!(n, N::Code | N::Highlight | N::Collapsible | N::Metadata);
        // the body of a code block or metadata is opaque
        let opaque = body && matches!(n, N::Code | N::Metadata);
        if (relevant && !body) || opaque {
            structural[a..b].fill(true);
        }
    });
    t.iter().enumerate().all(|(i, t)| {
        structural[i]
            || !(t.col == 0
                && match t.k {
                    K::Tick | K::Minus => t.len() == 3,
                    K::Bang => t.len() == 2,
                    K::CollStart | K::CollEnd => true,
                    _ => false,
                })
    })
}

fn y21_gen(s: &mut Src) -> Case {
    let part = |s: &mut Src| {
        if s.chance(1, 2) {
            let t = if s.chance(1, 2) { Txt::Wild } else { Txt::Plain };
            let d = profile_doc(s, t);
            let st = gen::style(s);
            print(&d, st, s)
        } else {
            let p = *s.pick(&[P::Any, P::Inline, P::Head, P::List, P::Code, P::High, P::Coll, P::Media, P::Meta]);
            gen::source(s, p)
        }
    };
    let a = part(s);
    let b = part(s);
    Case::Two(a.trim_end_matches(is_eol).to_string(), b)
}

fn y21_text(t: String) -> Option<Case> {
    // split at every third of the way, deterministically
    let cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return None;
    }
    let i = cs.len() / 2;
    Some(Case::Two(cs[..i].iter().collect(), cs[i..].iter().collect()))
}

fn y21(c: &Case) -> Res {
    let Case::Two(a, b) = c else { unreachable!() };
    if a.ends_with(is_eol) || ends_in_backslash(a) || !all_closed(a) {
        return Ok(Out::Discard);
    }
    let db = read(b);
    if db.meta.is_some() {
        return Ok(Out::Discard);
    }
    let da = read(a);
    let both = format!("{a}\n\n{b}");
    let got = read(&both);
    let mut want = da.clone();
    want.body.extend(db.body.iter().cloned());
    ensure!(got == want, "{both:?}\n{}", show_diff(&got, &want));
    if let Some(x) = da.body.last() {
        label(match x {
            Block::Para(_) => "after a paragraph",
            Block::Heading(..) => "after a heading",
            Block::Image(_) | Block::Images(_) => "after images",
            Block::Code(..) => "after a code block",
            Block::List(_) => "after a list",
            Block::Highlight(..) => "after a highlight",
            Block::Break => "after a thematic break",
            Block::Embed(..) => "after an embed",
            Block::Collapsible(..) => "after a collapsible",
        });
    }
    good(!da.body.is_empty() && !db.body.is_empty())
}

fn y22_gen(s: &mut Src) -> Case {
    let Case::Two(_, b) = y21_gen(s) else { unreachable!() };
    let b = b.trim_matches(is_eol).to_string();
    let n = 1 + s.below(3) + if s.chance(1, 20) { s.below(20) } else { 0 };
    let titles = (0..n).map(|_| s.pick(&["t", "foo bar", "é", "```", "!!", "- a", "x | y", "a\\\\b", "[", "**"]).to_string()).collect();
    Case::Wrap(b, titles)
}

fn y22_text(t: String) -> Option<Case> {
    let n = 1 + t.len() % 2;
    Some(Case::Wrap(t, vec!["t".into(); n]))
}

fn coll_closed(s: &str) -> bool {
    let t = lex(s);
    let m = Model::new(s);
    let mut structural = vec![false; t.len()];
    m.structure(&mut |n, body, a, b| {
        if (n == N::Collapsible && !body) || (n == N::Code && body) {
            structural[a..b].fill(true);
        }
    });
    t.iter()
        .enumerate()
        .all(|(i, t)| structural[i] || !(t.col == 0 && matches!(t.k, K::CollStart | K::CollEnd)))
}

fn y22(c: &Case) -> Res {
    let Case::Wrap(s, titles) = c else { unreachable!() };
    if s.starts_with(is_eol) || s.ends_with(is_eol) || ends_in_backslash(s) || titles.is_empty() {
        return Ok(Out::Discard);
    }
    let d = read(s);
    if d.meta.is_some() || !coll_closed(s) {
        return Ok(Out::Discard);
    }
    let mut src = s.clone();
    let mut want = d.body.clone();
    for t in titles.iter().rev() {
        src = if src.is_empty() { format!("{{% {t}\n%}}") } else { format!("{{% {t}\n{src}\n%}}") };
        want = vec![Block::Collapsible(t.replace("\\\\", "\\"), want)];
    }
    let got = read(&src);
    let want = Doc { meta: None, body: want };
    ensure!(got == want, "{src:?}\n{}", show_diff(&got, &want));
    for b in &d.body {
        label_doc(&Doc { meta: None, body: vec![b.clone()] });
    }
    good(!d.body.is_empty())
}

fn y23_gen(s: &mut Src) -> Case {
    let Case::Text(t) = any_gen(s) else { unreachable!() };
    let t: String = t.chars().filter(|c| *c != '\r').collect();
    let n = t.matches('\n').count();
    let mut idx = vec![];
    if s.chance(1, 2) {
        for i in 0..n {
            if s.chance(1, 2) {
                idx.push(i);
            }
        }
    }
    Case::Toks(t, idx)
}

fn y23_text(t: String) -> Option<Case> {
    Some(Case::Toks(t.chars().filter(|c| *c != '\r').collect(), vec![]))
}

fn y23(c: &Case) -> Res {
    let Case::Toks(s, idx) = c else { unreachable!() };
    let cs = cells(s);
    if s.contains('\r') || cs.iter().any(|c| c.esc && c.c == '\n') {
        return Ok(Out::Discard);
    }
    let all = idx.is_empty();
    let mut out = String::new();
    let mut n = 0;
    let mut changed = 0;
    for ch in s.chars() {
        if ch == '\n' {
            if all || idx.contains(&n) {
                out.push('\r');
                changed += 1;
            }
            n += 1;
        }
        out.push(ch);
    }
    let a = read(s);
    let b = read(&out);
    let norm = map_strings(&b, &mut |t| t.replace("\r\n", "\n"));
    ensure!(norm == a, "{out:?}\n{}", show_diff(&b, &a));
    if all {
        let want = map_strings(&a, &mut |t| t.replace('\n', "\r\n"));
        ensure!(b == want, "{out:?}\n{}", show_diff(&b, &want));
        label("all line breaks");
    }
    label_doc(&a);
    good(changed > 0)
}

fn y24_gen(s: &mut Src) -> Case {
    let Case::Text(t) = any_gen(s) else { unreachable!() };
    let mut m = vec![];
    let mut seen: Vec<char> = t.chars().filter(|c| plain_char(*c)).collect();
    seen.sort();
    seen.dedup();
    for c in seen {
        let d = match s.below(5) {
            0 => continue,
            4 => {
                // equal to a markup character but for its higher bits
                let low = *s.pick(&['\n', '\r', '\\', '~', '*', '{', '}', '%', '-', '#', ' ', '>', '!', '`', '+', '[', ']', '(', ')', '_', '|']) as u32;
                let high = *s.pick(&[0x80u32, 0x100, 0x200, 0x400, 0x1000, 0x2000, 0x10000, 0x1f400]);
                char::from_u32(low + high).unwrap_or('a')
            }
            1 => *s.pick(&['A', '0', '9', 'z', '.', '\t', '\0', '"', '\'', '/', ':', '=', '<', '&', ',', '@', '$', '^', '?', ';']),
            2 => *s.pick(&['é', '日', '🤔', '\u{a0}', '\u{85}', '\u{2028}', '\u{feff}', '\u{3000}', '\u{10ffff}', '\u{7f}', '\u{ff0d}', '\u{b}', '\u{c}']),
            _ => gen::any_char(s),
        };
        if plain_char(d) {
            m.push((c, d));
        }
    }
    Case::Rename(t, m)
}

fn y24_text(t: String) -> Option<Case> {
    let mut seen: Vec<char> = t.chars().filter(|c| plain_char(*c)).collect();
    seen.sort();
    seen.dedup();
    let to = ['é', '0', '日', 'A', '🤔', '\t', '\u{2028}', 'ż', 'Ĭ', '\u{10a}', '\u{17b}'];
    let m = seen.iter().enumerate().map(|(i, c)| (*c, to[(i + t.len()) % to.len()])).collect();
    Some(Case::Rename(t, m))
}

fn y24(c: &Case) -> Res {
    let Case::Rename(s, m) = c else { unreachable!() };
    if m.iter().any(|(a, b)| !plain_char(*a) || !plain_char(*b)) {
        return Ok(Out::Discard);
    }
    let re = |t: &str| -> String {
        t.chars()
            .map(|c| m.iter().find(|(a, _)| *a == c).map_or(c, |x| x.1))
            .collect()
    };
    let r = re(s);
    let tokens = |t: &str| -> Vec<(yamd::lexer::TokenKind, String)> { Lexer::new(t).map(|k| (k.kind, cut(t, &k.range).to_string())).collect() };
    let want: Vec<_> = tokens(s).into_iter().map(|(k, t)| (k, re(&t))).collect();
    let got = tokens(&r);
    ensure!(got == want, "{r:?}: tokens differ\ngot      {got:?}\nexpected {want:?}");
    let (oa, ob) = (yamd::parse(s), yamd::parse(&r));
    let (ea, eb) = (real_events(&oa, s), real_events(&ob, &r));
    let want: Vec<E> = ea.iter().map(|e| E { k: e.k, s: re(&e.s) }).collect();
    ensure!(eb == want, "{r:?}: events differ\ngot      {}\nexpected {}", show_events(&eb), show_events(&want));
    let (a, b) = (read(s), read(&r));
    let want = map_strings(&a, &mut |t| re(t));
    ensure!(b == want, "{r:?}\n{}", show_diff(&b, &want));
    label_doc(&a);
    good(r != *s && ea.len() > 5)
}

// --- Y25: JSON ------------------------------------------------------------------------------------------------------

fn tv(t: &str, v: Value) -> Value {
    json!({"type": t, "value": v})
}

fn j_inls(v: &[Inl]) -> Value {
    v.iter()
        .map(|n| match n {
            Inl::Text(t) => tv("Text", json!(t)),
            Inl::Bold(b) => tv("Bold", json!({ "body": j_inls(b) })),
            Inl::Italic(t) => tv("Italic", json!(t)),
            Inl::Strike(t) => tv("Strikethrough", json!(t)),
            Inl::CodeSpan(t) => tv("CodeSpan", json!(t)),
            Inl::Emph(t) => tv("Emphasis", json!(t)),
            Inl::Anchor(a, b) => tv("Anchor", json!({"text": a, "url": b})),
        })
        .collect()
}

fn j_list(l: &List) -> Value {
    let items: Vec<Value> = l
        .items
        .iter()
        .map(|i| json!({"text": j_inls(&i.text), "nested_list": i.nested.as_ref().map(j_list)}))
        .collect();
    json!({"list_type": if l.ordered { "Ordered" } else { "Unordered" }, "level": l.level, "body": items})
}

fn j_img(i: &ast::Img) -> Value {
    json!({"alt": i.alt, "src": i.src})
}

fn j_blocks(bs: &[Block]) -> Value {
    bs.iter()
        .map(|b| match b {
            Block::Para(p) => tv("Paragraph", json!({ "body": j_inls(p) })),
            Block::Heading(l, p) => tv("Heading", json!({"level": l, "body": j_inls(p)})),
            Block::Image(i) => tv("Image", j_img(i)),
            Block::Images(v) => tv("Images", json!({"body": v.iter().map(j_img).collect::<Vec<_>>()})),
            Block::Code(l, c) => tv("Code", json!({"lang": l, "code": c})),
            Block::List(l) => tv("List", j_list(l)),
            Block::Highlight(t, i, ps) => tv(
                "Highlight",
                json!({"title": t, "icon": i, "body": ps.iter().map(|p| json!({"body": j_inls(p)})).collect::<Vec<_>>()}),
            ),
            Block::Break => tv("ThematicBreak", json!({})),
            Block::Embed(k, a) => tv("Embed", json!({"kind": k, "args": a})),
            Block::Collapsible(t, b) => tv("Collapsible", json!({"title": t, "body": j_blocks(b)})),
        })
        .collect()
}

fn y25_gen(s: &mut Src) -> Case {
    if s.chance(1, 2) {
        let d = profile_doc(s, Txt::Wild);
        let st = gen::style(s);
        let src = print(&d, st, s);
        Case::Doc(d, src)
    } else {
        any_gen(s)
    }
}

fn json_depth(t: &str) -> usize {
    let (mut depth, mut max, mut quoted, mut escaped) = (0usize, 0, false, false);
    for b in t.bytes() {
        match b {
            _ if escaped => escaped = false,
            b'\\' => escaped = true,
            b'"' => quoted = !quoted,
            b'{' | b'[' if !quoted => {
                depth += 1;
                max = max.max(depth);
            }
            b'}' | b']' if !quoted => depth -= 1,
            _ => {}
        }
    }
    max
}

fn y25(c: &Case) -> Res {
    let (y, src) = match c {
        Case::Doc(d, src) => (to_yamd(d), src.as_str()),
        Case::Text(s) => (yamd::deserialize(s), s.as_str()),
        _ => unreachable!(),
    };
    let js = |e: serde_json::Error| format!("JSON: {e}");
    let d = from_yamd(&y);
    let t = serde_json::to_string(&y).map_err(js)?;
    // serde_json refuses to read text nested deeper
    if json_depth(&t) < 120 {
        let back: yamd::Yamd = serde_json::from_str(&t).map_err(js)?;
        ensure!(back == y, "through JSON text {t}\n{}", show_diff(&from_yamd(&back), &d));
    } else {
        label("too deep for JSON text");
    }
    let v = serde_json::to_value(&y).map_err(js)?;
    let want = json!({"metadata": d.meta, "body": j_blocks(&d.body)});
    ensure!(v == want, "JSON form is {v}\nexpected     {want}");
    let back: yamd::Yamd = serde_json::from_value(v).map_err(js)?;
    ensure!(back == y, "through a JSON value\n{}", show_diff(&from_yamd(&back), &d));
    let back: yamd::Yamd = serde_json::from_value(want).map_err(js)?;
    ensure!(back == y, "from the documented JSON\n{}", show_diff(&from_yamd(&back), &d));

    let ops = yamd::parse(src);
    let t = serde_json::to_string(&ops).map_err(js)?;
    let back: Vec<Op> = serde_json::from_str(&t).map_err(js)?;
    ensure!(back == ops, "operations through JSON text: {back:?}\nexpected {ops:?}");
    let v = serde_json::to_value(&ops).map_err(js)?;
    let want: Value = ops
        .iter()
        .map(|o| {
            let kind = match &o.kind {
                OpKind::Start(n) => tv("Start", json!(format!("{:?}", N::of(n)))),
                OpKind::End(n) => tv("End", json!(format!("{:?}", N::of(n)))),
                OpKind::Value => json!({"type": "Value"}),
            };
            let content = match &o.content {
                Content::Span(r) => tv("Span", json!({"start": r.start, "end": r.end})),
                Content::Materialized(t) => tv("Materialized", json!(t)),
            };
            json!({"kind": kind, "content": content})
        })
        .collect();
    ensure!(v == want, "JSON form of the operations is {v}\nexpected {want}");
    let back: Vec<Op> = serde_json::from_value(v).map_err(js)?;
    ensure!(back == ops, "operations through a JSON value: {back:?}\nexpected {ops:?}");
    label_doc(&d);
    good(!d.body.is_empty())
}

// --- Y27: contents --------------------------------------------------------------------------------------------------

fn y27_gen(s: &mut Src) -> Case {
    let src = match s.below(3) {
        0 => gen::soup(s, P::Lex, 100),
        _ => gen::source(s, P::Any),
    };
    let n = lex(&src).len();
    let mut idx = vec![];
    if n > 0 {
        match s.below(3) {
            0 => {
                let i = s.below(n);
                let j = i + s.below(n - i + 1);
                idx = (i..j).collect();
            }
            1 => {
                for i in 0..n {
                    if s.chance(2, 3) {
                        idx.push(i);
                    }
                }
            }
            _ => {
                let i = s.below(n);
                let j = (i + 1 + s.below(6)).min(n);
                idx = (i..j).collect();
                if idx.len() > 2 && s.chance(1, 2) {
                    let k = s.below(idx.len());
                    idx.remove(k);
                }
            }
        }
        // some again, or in another order
        if !idx.is_empty() && s.chance(1, 3) {
            for _ in 0..1 + s.below(4) {
                let (i, j) = (s.below(idx.len()), s.below(idx.len()));
                match s.below(3) {
                    0 => idx.swap(i, j),
                    1 => idx[i] = idx[j],
                    _ => idx.insert(i, idx[j]),
                }
            }
        }
    }
    Case::Toks(src, idx)
}

fn content_of(s: &str, ts: &[Token]) -> Result<bool, String> {
    let want: String = ts.iter().map(|t| cut(s, &t.range)).collect();
    let gapless = ts.windows(2).all(|w| w[0].range.end == w[1].range.start);
    let c = Content::from_tokens(ts, s);
    let wanted = match (gapless, ts) {
        (_, []) => None,
        (true, [a, .., b]) => Some(Content::Span(a.range.start..b.range.end)),
        (true, [a]) => Some(Content::Span(a.range.clone())),
        (false, _) => Some(Content::Materialized(want.clone())),
    };
    if let Some(w) = &wanted {
        ensure!(c == *w, "tokens {ts:?} give the content {c:?}, expected {w:?}");
    }
    let views = |what: &str, c: &Content| {
        ensure!(c.as_str(s) == want, "{what} {c:?} reads {:?}, expected {want:?}", c.as_str(s));
        ensure!(c.to_string(s) == want, "{what} {c:?} is owned as {:?}, expected {want:?}", c.to_string(s));
        ensure!(c.is_empty() == want.is_empty(), "{what} {c:?} says empty: {}", c.is_empty());
        Ok(())
    };
    views("content", &c)?;
    views("owned content", &Content::Materialized(want.clone()))?;
    if gapless {
        let all = [
            ("from a slice", Content::from(ts)),
            ("from a vector", Content::from(ts.to_vec())),
            ("of a value", Op::new_value(ts).content),
            ("of a start", Op::new_start(Node::Bold, ts).content),
            ("of an end", Op::new_end(Node::Bold, ts.to_vec()).content),
        ];
        for (what, c) in all {
            views(what, &c)?;
        }
        macro_rules! arrays {
            ($($n:literal)+) => {
                $(if let Ok(a) = <&[Token; $n]>::try_from(ts) {
                    views("from an array", &Content::from(a))?;
                    views("of a value of an array", &Op::new_value(a).content)?;
                })+
            };
        }
        arrays!(0 1 2 3 4 5 6 7 8 9 10 12 15 16 17 24 31 32 33 64 65);
        let (a, b) = (Op::new_value(c.to_string(s).is_empty().then(Vec::new).unwrap_or_else(|| ts.to_vec())), Op::new_value(ts));
        ensure!(a == b && a.kind == OpKind::Value, "equal values differ: {a:?} {b:?}");
        let o = Op::new_start(Node::Title, ts);
        ensure!(o.kind == OpKind::Start(Node::Title), "start of a title is {o:?}");
        let o = Op::new_end(Node::Title, ts);
        ensure!(o.kind == OpKind::End(Node::Title), "end of a title is {o:?}");
    }
    Ok(gapless)
}

fn y27(c: &Case) -> Res {
    match c {
        Case::Toks(s, idx) => {
            let ts: Vec<Token> = Lexer::new(s).collect();
            if idx.iter().any(|i| *i >= ts.len()) {
                return Ok(Out::Discard);
            }
            let sub: Vec<Token> = idx.iter().map(|i| ts[*i].clone()).collect();
            let gapless = content_of(s, &sub)?;
            label(match gapless {
                true => "contiguous",
                false if idx.windows(2).all(|w| w[0] < w[1]) => "with gaps",
                false => "repeated or in another order",
            });
            good(sub.len() > 1)
        }
        Case::Text(s) => {
            let ts: Vec<Token> = Lexer::new(s).collect();
            let n = ts.len();
            if n > 24 {
                // parts of what is long, with and without a gap
                for k in [0, 1, 2, n / 3, n / 2] {
                    content_of(s, &ts[k..])?;
                    content_of(s, &ts[..n - k])?;
                    let mut sub = ts.clone();
                    sub.remove(1 + k.min(n - 3));
                    content_of(s, &sub)?;
                    sub.insert(n / 2, ts[k].clone());
                    content_of(s, &sub)?;
                }
                label("more than 24 tokens");
                return good(true);
            }
            for i in 0..=ts.len() {
                for j in i..=ts.len() {
                    content_of(s, &ts[i..j])?;
                }
            }
            good(ts.len() > 1)
        }
        _ => unreachable!(),
    }
}

// --- Y28: tools -----------------------------------------------------------------------------------------------------

fn y28_gen(s: &mut Src) -> Case {
    if s.chance(1, 3) {
        let n = match s.below(3) {
            0 => s.below(20),
            1 => s.below(300),
            _ => gen::count(s, 3000, 5000),
        };
        let m = match s.below(3) {
            0 => s.below(12),
            1 => gen::count(s, 30, 1000),
            _ => s.below(200),
        };
        Case::Nums(n, m)
    } else {
        lex_source(s)
    }
}

fn y28_fixed() -> Vec<Case> {
    let mut v = vec![];
    for n in [0, 1, 2, 3, 10, 100, 4000] {
        for m in [0, 1, 2, 3, 4, 5, 10, 100, 255, 256, 300, 1000] {
            v.push(Case::Nums(n, m));
        }
    }
    v.push(Case::Text("a*\n ".repeat(3000)));
    v.push(Case::Text("a*b_".repeat(70_000)));
    v.push(Case::Text("a".repeat(100_000)));
    // megabytes, ending in what occurs only there
    v.push(Case::Text(format!("{}**b**\n-\n", "a [b](c) é\n".repeat(300_000))));
    v.push(Case::Text(format!("{}**b**\n-\n", "a".repeat(2_500_000))));
    v.push(Case::Text(format!("{}**b**\n-\n", "é\n".repeat(800_000))));
    v
}

fn y28(c: &Case) -> Res {
    match c {
        Case::Nums(n, m) => {
            let o = crate::utils(&["random", &n.to_string(), "-m", &m.to_string()])?;
            ensure!(o.status.success(), "random {n} -m {m} ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
            let Ok(t) = String::from_utf8(o.stdout) else { fail!("random {n} -m {m} printed invalid UTF-8") };
            let Some(t) = t.strip_suffix('\n') else { fail!("random {n} -m {m} did not end its output") };
            let token = 4 * (m.max(&4) - 1);
            ensure!(t.len() >= *n, "random {n} -m {m} printed {} bytes", t.len());
            ensure!(
                *n == 0 && t.is_empty() || t.len() < n + token.max(2),
                "random {n} -m {m} printed {} bytes, a token has at most {token}",
                t.len()
            );
            label("random");
            good(*n > 0)
        }
        Case::Text(s) => {
            let f = crate::case_file(s);
            let o = crate::utils(&["token-stat", f.to_str().unwrap()]);
            std::fs::remove_file(&f).ok();
            let o = o?;
            ensure!(o.status.success(), "token-stat ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let mut want: std::collections::BTreeMap<&str, usize> = Default::default();
            let rf = lex(s);
            for t in &rf {
                *want.entry(t.k.name()).or_insert(0) += 1;
            }
            let mut total = None;
            let mut counts = vec![];
            for l in out.lines() {
                let l = l.trim();
                if l.is_empty() || l.starts_with("Token statistics for") {
                    continue;
                }
                let Some((k, v)) = l.split_once(':') else { fail!("unexpected line {l:?}") };
                let Ok(v) = v.trim().parse::<usize>() else { fail!("no number in {l:?}") };
                if k == "Total token count" {
                    total = Some(v);
                } else {
                    counts.push((k, v));
                }
            }
            ensure!(total == Some(rf.len()), "total is {total:?}, expected {}\n{out}", rf.len());
            ensure!(counts.windows(2).all(|w| w[0].1 >= w[1].1), "counts are not descending\n{out}");
            let mut got: Vec<(&str, usize)> = counts.clone();
            got.sort();
            let want: Vec<(&str, usize)> = want.into_iter().collect();
            ensure!(got == want, "counts are {got:?}, expected {want:?}");
            label("token-stat");
            good(want.len() > 1)
        }
        _ => unreachable!(),
    }
}

fn y28_text(t: String) -> Option<Case> {
    Some(Case::Text(t))
}

// --- Y29: purity ----------------------------------------------------------------------------------------------------

type Reading = (Vec<Token>, Vec<Op>, yamd::Yamd, String);

fn reading(s: &str) -> Reading {
    let ops = yamd::parse(s);
    let y = yamd::deserialize(s);
    let p = y.to_string();
    (Lexer::new(s).collect(), ops, y, p)
}

fn same_reading(what: &str, s: &str, a: &Reading, b: &Reading) -> Result<(), String> {
    ensure!(a.0 == b.0, "{what}: {s:?} gives the tokens {:?} instead of {:?}", b.0, a.0);
    ensure!(a.1 == b.1, "{what}: {s:?} gives the operations {:?} instead of {:?}", b.1, a.1);
    ensure!(a.2 == b.2, "{what}: {s:?} gives the document {:?} instead of {:?}", b.2, a.2);
    ensure!(a.3 == b.3, "{what}: {s:?} is printed as {:?} instead of {:?}", b.3, a.3);
    Ok(())
}

fn y29_gen(s: &mut Src) -> Case {
    let mut v = vec![];
    for _ in 0..1 + s.below(3) {
        let Case::Text(t) = any_gen(s) else { unreachable!() };
        // the same with a few characters replaced by others of the same length
        let mut near: Vec<char> = t.chars().collect();
        v.push(t);
        if !near.is_empty() {
            for _ in 0..1 + s.below(3) {
                let i = s.below(near.len());
                if near[i].is_ascii() {
                    near[i] = *s.pick(&['a', 'b', '*', '\n', ' ', '`', '!', '-', '_', '\\', '}', '%']);
                }
            }
            v.push(near.into_iter().collect());
        }
    }
    let n = if s.chance(1, 150) { 16 } else { s.below(12) };
    let p = (0..n).map(|_| s.below(16)).collect();
    Case::Mix(v, p)
}

/// All that is read of a source, in short.
pub fn digest(s: &str) -> String {
    let (t, o, y, p) = reading(s);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&format!("{t:?} {o:?} {y:?} {p}"), &mut h);
    format!("{:016x}", std::hash::Hasher::finish(&h))
}

/// What is small and delicate, before and after what is large: reading either leaves nothing behind.
fn y29_fixed() -> Vec<Case> {
    let small: Vec<String> = ["---\n---\n\nx", "", "a", "- a\n - b", "![a](b(c)d)", "{% t\n\n%}", "!!\n!!", "# [a](b) c", "\\*a **b _c_**", "```\nx\n```\n-----", "{{k|v}}\r\n\r\n![a](b)\n![c](d)"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut v = vec![];
    for s in crate::scale::sources() {
        if s.len() > 1500 && s.len() < 12_000 {
            let mut m = small.clone();
            m.push(s);
            let big = m.len() - 1;
            v.push(Case::Mix(m, vec![big, 0, 1, 2, big, 3, 4, 5, 6, 7, 8, 9, 10, big, 1, 0]));
        }
    }
    v
}

fn mix_text(t: String) -> Option<Case> {
    let r: String = t.chars().rev().collect();
    Some(Case::Mix(vec![t, r], vec![1, 0, 2, 0]))
}

fn y29(c: &Case) -> Res {
    let Case::Mix(v, p) = c else { unreachable!() };
    if v.is_empty() {
        return Ok(Out::Discard);
    }
    // what each gives to a thread that has read nothing else
    let first: Vec<Reading> = if p.len() % 4 == 3 {
        label("read first by threads of their own");
        std::thread::scope(|sc| {
            let named = |k: usize| match ["", "main", "worker-1", "tokio-runtime-worker"][k % 4] {
                "" => std::thread::Builder::new(),
                n => std::thread::Builder::new().name(n.into()),
            };
            let hs: Vec<_> = v.iter().enumerate().map(|(k, s)| named(k).spawn_scoped(sc, move || reading(s)).expect("a thread")).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "a thread panicked".to_string())).collect::<Result<_, _>>()
        })?
    } else {
        v.iter().map(|s| reading(s)).collect()
    };
    // again, in another order, and from one buffer that is overwritten
    let mut buf = String::with_capacity(v.iter().map(|s| s.len()).max().unwrap_or(0) + 8);
    for i in p.iter().map(|i| i % v.len()).chain(0..v.len()) {
        buf.clear();
        buf.push_str(&v[i]);
        same_reading("read again", &v[i], &first[i], &reading(&buf))?;
    }
    // from within a larger text
    let shifts = if p.len() % 8 == 2 { 17 } else { 2 };
    for (i, s) in v.iter().enumerate() {
        for shift in 0..shifts {
            let around = format!("![a{}{s}*_\n", &"- # _**[]()!!\n--- "[..shift]);
            same_reading("read within another text", s, &first[i], &reading(&around[3 + shift..3 + shift + s.len()]))?;
        }
    }
    // tokens of several sources in turns
    let mut ls: Vec<Lexer> = v.iter().map(|s| Lexer::new(s)).collect();
    let mut got: Vec<Vec<Token>> = vec![vec![]; v.len()];
    let most = first.iter().map(|r| r.0.len()).max().unwrap_or(0);
    for k in 0..=most {
        for (i, l) in ls.iter_mut().enumerate() {
            if p.get((k + i) % p.len().max(1)).is_none_or(|x| x % 3 != 0) {
                got[i].extend(l.next());
            }
        }
    }
    for (i, l) in ls.into_iter().enumerate() {
        got[i].extend(l);
        ensure!(got[i] == first[i].0, "in turns with others: {:?} gives the tokens {:?} instead of {:?}", v[i], got[i], first[i].0);
    }
    // the document of operations read before those of others
    for (i, s) in v.iter().enumerate() {
        let y = yamd::to_yamd(&first[i].1, s);
        ensure!(y == first[i].2, "{s:?}: the operations give {y:?} later, and {:?} at first", first[i].2);
        ensure!(y.clone() == y && y.clone().to_string() == first[i].3, "{s:?}: a copy of the document differs");
    }
    // what a process that has read nothing else makes of each
    if p.len() >= 16 {
        label("read by processes of their own");
        for (i, s) in v.iter().enumerate() {
            let (now, alone) = (digest(s), crate::fresh_digest(s, i + p.len())?);
            ensure!(now == alone, "{s:?} is read otherwise by a process of its own, in other surroundings; here: {:?}", reading(s));
        }
    }
    // by threads at the same time
    if p.len() % 4 == 1 {
        label("read by threads at the same time");
        let gate = std::sync::Barrier::new(3);
        let (gate, first) = (&gate, &first);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|t| {
                    sc.spawn(move || {
                        gate.wait();
                        for round in 0..2 {
                            for k in 0..v.len() {
                                let i = (k + t * (round + 1)) % v.len();
                                same_reading("read by threads at the same time", &v[i], &first[i], &reading(&v[i]))?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_string())))
        })?;
    }
    good(first.iter().filter(|r| r.1.len() > 4).count() > 1)
}

// --- Y30: nodes on their own ----------------------------------------------------------------------------------------

fn alone(what: &str, printed: &str, want: &yamd::nodes::YamdNodes) -> Result<(), String> {
    let got = yamd::deserialize(printed);
    let want = yamd::Yamd::new(None, vec![want.clone()]);
    ensure!(got == want, "{what} on its own is printed as {printed:?}\n{}", show_diff(&from_yamd(&got), &from_yamd(&want)));
    Ok(())
}

fn alone_inl(n: &yamd::nodes::ParagraphNodes) -> Result<(), String> {
    use yamd::nodes::{BoldNodes as B, Paragraph, ParagraphNodes as N};
    let para = |n: N| Paragraph::new(vec![n]).into();
    let p = match n {
        N::Anchor(x) => x.to_string(),
        N::Bold(x) => x.to_string(),
        N::Italic(x) => x.to_string(),
        N::Strikethrough(x) => x.to_string(),
        N::CodeSpan(x) => x.to_string(),
        N::Emphasis(x) => x.to_string(),
        N::Text(_) => return Ok(()),
    };
    ensure!(p == n.to_string(), "{n:?} is printed as {:?}, its node as {p:?}", n.to_string());
    alone("an inline node", &p, &para(n.clone()))?;
    if let N::Bold(b) = n {
        for n in &b.body {
            let (q, w) = match n {
                B::Italic(x) => (x.to_string(), N::Italic(x.clone())),
                B::Strikethrough(x) => (x.to_string(), N::Strikethrough(x.clone())),
                B::Text(_) => continue,
            };
            ensure!(q == n.to_string(), "{n:?} is printed as {:?}, its node as {q:?}", n.to_string());
            alone("a node of a bold", &q, &para(w))?;
        }
    }
    Ok(())
}

fn alone_items(l: &yamd::nodes::List) -> Result<(), String> {
    for i in &l.body {
        i.text.iter().try_for_each(alone_inl)?;
        let own: String = i.text.iter().map(|n| n.to_string()).collect();
        // escapes of list markers are those of the list
        if l.level == 0 && !own.contains('\n') && !own.starts_with(' ') {
            let list = yamd::nodes::List::new(l.list_type.clone(), 0, vec![i.clone()]);
            alone("an item of a list, after its marker,", &format!("{} {i}", if l.list_type == yamd::nodes::ListTypes::Ordered { '+' } else { '-' }), &list.into())?;
        }
        if let Some(n) = &i.nested_list {
            alone_items(n)?;
        }
    }
    Ok(())
}

fn alone_block(b: &yamd::nodes::YamdNodes) -> Result<(), String> {
    use yamd::nodes::{HeadingNodes, Paragraph, YamdNodes as Y};
    let p = match b {
        Y::Paragraph(x) => x.to_string(),
        Y::Heading(x) => x.to_string(),
        Y::Image(x) => x.to_string(),
        Y::Images(x) => x.to_string(),
        Y::Code(x) => x.to_string(),
        Y::List(x) => x.to_string(),
        Y::Highlight(x) => x.to_string(),
        Y::ThematicBreak(x) => x.to_string(),
        Y::Embed(x) => x.to_string(),
        Y::Collapsible(x) => x.to_string(),
    };
    ensure!(p == b.to_string(), "{b:?} is printed as {:?}, its node as {p:?}", b.to_string());
    match b {
        // the escape of a block marker at its start is that of its container
        Y::Paragraph(x) => {
            x.body.iter().try_for_each(alone_inl)?;
            if matches!(from_yamd(&yamd::Yamd::new(None, vec![b.clone()])).body[..], [Block::Para(ref v)] if !matches!(v.first(), Some(Inl::Text(t)) if !t.starts_with(plain_char))) {
                alone("a paragraph", &p, b)?;
            }
            return Ok(());
        }
        Y::Heading(x) => {
            for n in &x.body {
                if let HeadingNodes::Anchor(a) = n {
                    ensure!(a.to_string() == n.to_string(), "{n:?} is printed as {:?}, its node as {:?}", n.to_string(), a.to_string());
                    alone("a link of a heading", &a.to_string(), &Paragraph::new(vec![a.clone().into()]).into())?;
                }
            }
        }
        Y::Images(x) => {
            for i in &x.body {
                alone("an image of a gallery", &i.to_string(), &i.clone().into())?;
            }
        }
        Y::List(x) => alone_items(x)?,
        Y::Highlight(x) => {
            for q in &x.body {
                q.body.iter().try_for_each(alone_inl)?;
            }
        }
        Y::Collapsible(x) => x.body.iter().try_for_each(alone_block)?,
        _ => {}
    }
    alone("a block", &p, b)
}

fn y30(c: &Case) -> Res {
    let y = match c {
        Case::Doc(d, _) => {
            label_doc(d);
            to_yamd(d)
        }
        c => yamd::deserialize(text(c)),
    };
    y.body.iter().try_for_each(alone_block)?;
    good(y.body.iter().any(|b| !matches!(b, yamd::nodes::YamdNodes::Paragraph(_) | yamd::nodes::YamdNodes::ThematicBreak(_))))
}

fn y30_gen(s: &mut Src) -> Case {
    if s.chance(1, 2) {
        Case::Doc(profile_doc(s, Txt::Wild), String::new())
    } else {
        any_gen(s)
    }
}

// --- Y31: rearranged documents --------------------------------------------------------------------------------------

fn y31_gen(s: &mut Src) -> Case {
    let v = (0..1 + s.below(3))
        .map(|_| match any_gen(s) {
            Case::Text(t) => t,
            _ => unreachable!(),
        })
        .collect();
    let n = 1 + s.below(8);
    let p = (0..n).map(|_| s.below(64)).collect();
    Case::Mix(v, p)
}

/// All blocks of a document, those in collapsibles included, and what can stand as a paragraph.
fn pool(bs: &[yamd::nodes::YamdNodes], out: &mut Vec<yamd::nodes::YamdNodes>) {
    use yamd::nodes::{List, Paragraph, YamdNodes as Y};
    fn items(l: &List, out: &mut Vec<Y>) {
        for i in &l.body {
            if !i.text.is_empty() {
                out.push(Paragraph::new(i.text.clone()).into());
            }
            if let Some(n) = &i.nested_list {
                items(n, out);
            }
        }
    }
    for b in bs {
        out.push(b.clone());
        match b {
            Y::Collapsible(c) => pool(&c.body, out),
            Y::Highlight(h) => out.extend(h.body.iter().map(|p| p.clone().into())),
            Y::Images(i) => out.extend(i.body.iter().map(|i| i.clone().into())),
            Y::List(l) => items(l, out),
            _ => {}
        }
    }
}

fn y31(c: &Case) -> Res {
    use yamd::nodes::{Collapsible, YamdNodes as Y};
    let Case::Mix(v, p) = c else { unreachable!() };
    let docs: Vec<yamd::Yamd> = v.iter().map(|s| yamd::deserialize(s)).collect();
    let mut all: Vec<Y> = vec![];
    let mut titles = vec!["t".to_string()];
    for d in &docs {
        pool(&d.body, &mut all);
    }
    for b in &all {
        match b {
            Y::Collapsible(c) => titles.push(c.title.clone()),
            Y::Highlight(h) => titles.extend(h.title.clone()),
            Y::Code(c) => titles.push(c.lang.clone()),
            _ => {}
        }
    }
    let meta = docs.iter().rev().find_map(|d| d.metadata.clone());
    let mut open: Vec<(String, Vec<Y>)> = vec![(String::new(), vec![])];
    for k in p {
        match k % 8 {
            7 if open.len() < 5 => open.push((titles[k / 8 % titles.len()].clone(), vec![])),
            6 if open.len() > 1 => {
                let (t, b) = open.pop().unwrap();
                open.last_mut().unwrap().1.push(Collapsible::new(t, b).into());
            }
            _ if all.is_empty() => {}
            _ => open.last_mut().unwrap().1.push(all[(k * 37 + k / 8) % all.len()].clone()),
        }
    }
    while open.len() > 1 {
        let (t, b) = open.pop().unwrap();
        open.last_mut().unwrap().1.push(Collapsible::new(t, b).into());
    }
    let body = open.pop().unwrap().1;
    let n = body.len();
    let y = yamd::Yamd::new(meta, body);
    let printed = y.to_string();
    let got = yamd::deserialize(&printed);
    ensure!(got == y, "printed as {printed:?}\n{}", show_diff(&from_yamd(&got), &from_yamd(&y)));
    label_doc(&from_yamd(&y));
    good(n > 1 && docs.iter().all(|d| *d != y))
}

// --- table ----------------------------------------------------------------------------------------------------------

const GENERAL: &[&str] = &[
    "a", "\n", "\n\n", " ", "*", "**", "_", "~~", "`", "[", "](", ")", "!", "!!", "```", "{%", "%}", "{{", "|", "}}", "-", "- ", "+ ", "# ", "---", "-----", "\\",
];
const SMALL: &[&str] = &["a", "\n", "\n\n", "**", "_", "- ", " - ", "# ", "```", "!!", "{% ", "%}", "![a](b)", "\\", " "];
const A_INLINE: &[&str] = &["a", "*", "**", "_", "~~", "`", "[", "]", "(", ")", "\\", "\n\n"];
const A_HEAD: &[&str] = &["#", "# ", " ", "a", "\n", "\n\n", "-----", "-", "[a](b)", "\\", "######"];
const A_LIST: &[&str] = &["- ", "+ ", " ", "\n", "a", "\n\n", "\\", "-", "+", "**"];
const A_CODE: &[&str] = &["```", "`", "\n", "a", "\n\n", "\\", " ", "%}", "{% t\n", "#"];
const A_HIGH: &[&str] = &["!!", "!", " ", "\n", "a", "\n\n", "\\", "# ", "\n%}", "{% t\n"];
const A_COLL: &[&str] = &["{% ", "{%", "%}", "\n", "a", "\n\n", "\\", " ", "- ", "```", "!!"];
const A_MEDIA: &[&str] = &["![", "](", ")", "(", "!", "a", "\n", "\n\n", "{{", "|", "}}", "\\"];
const A_META: &[&str] = &["---", "-", "\n", "a", "\n\n", "\\", " ", "\r\n", "{% t\n"];

/// All of them, to small depths.
const EVERY: &[(&[&str], usize, usize)] = &[
    (GENERAL, 3, 4), (SMALL, 4, 5), (A_INLINE, 4, 5), (A_HEAD, 4, 5), (A_LIST, 4, 5), (A_CODE, 4, 5), (A_HIGH, 4, 5), (A_COLL, 4, 5), (A_MEDIA, 4, 5), (A_META, 4, 5),
];
const EVERY_SMALL: &[(&[&str], usize, usize)] = &[
    (GENERAL, 3, 3), (SMALL, 3, 4), (A_INLINE, 3, 4), (A_HEAD, 3, 4), (A_LIST, 3, 4), (A_CODE, 3, 4), (A_HIGH, 3, 4), (A_COLL, 3, 4), (A_MEDIA, 3, 4), (A_META, 3, 4),
];

// --- Y32: construction, conversion, copies and equality --------------------------------------------------------------

fn y32_gen(s: &mut Src) -> Case {
    match s.below(4) {
        0 => any_gen(s),
        _ => Case::Doc(profile_doc(s, Txt::Wild), String::new()),
    }
}

fn y32_hash<T: std::hash::Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// Equality of values must be that of what they are made of.
fn same_iff<T: PartialEq>(what: &str, a: &T, b: &T, same: bool) -> Result<(), String> {
    ensure!((a == b) == same && (b == a) == same && (a != b) != same, "{what} are equal: {}, but are the same: {same}", a == b);
    Ok(())
}

fn y32(c: &Case) -> Res {
    use yamd::nodes as y;
    let d = match c {
        Case::Doc(d, _) => d.clone(),
        c => read(text(c)),
    };
    let y = to_yamd(&d);
    let mut want = d.clone();
    want.meta = want.meta.map(|m| m.trim_matches(is_eol).to_string());
    fn trim(bs: &mut [Block]) {
        for b in bs {
            match b {
                Block::Code(_, c) => *c = c.trim_end_matches(is_eol).to_string(),
                Block::Collapsible(_, b) => trim(b),
                _ => {}
            }
        }
    }
    trim(&mut want.body);
    let got = from_yamd(&y);
    ensure!(got == want, "the constructors do not keep what they are given:\n{}", show_diff(&got, &want));
    let other = crate::ast::to_yamd_otherwise(&d);
    ensure!(from_yamd(&other) == want, "the conversions do not keep what they are given:\n{}", show_diff(&from_yamd(&other), &want));
    same_iff("a document constructed and one converted", &y, &other, true)?;
    let printed = y.to_string();
    ensure!(other.to_string() == printed, "equal documents are printed as {printed:?} and {:?}", other.to_string());
    let copy = y.clone();
    ensure!(from_yamd(&copy) == want, "a copy differs\n{}", show_diff(&from_yamd(&copy), &want));
    same_iff("a document and its copy", &y, &copy, true)?;
    for v in crate::ast::variants(&d, 40) {
        let z = to_yamd(&v);
        let zd = from_yamd(&z);
        same_iff(&format!("documents\n{want:?} and\n{zd:?}"), &y, &z, zd == want)?;
        label(if zd == want { "an edit without effect" } else { "an edited document" });
    }
    // nodes with the same parts
    for (a, b) in y.body.iter().zip(want.body.iter()).take(6) {
        for (x, w) in y.body.iter().zip(want.body.iter()).take(6) {
            same_iff(&format!("nodes\n{b:?} and\n{w:?}"), a, x, b == w)?;
        }
    }
    if let Case::Text(s) = c {
        let (o, p) = (yamd::parse(s), yamd::parse(s));
        for (i, x) in o.iter().enumerate().take(40) {
            for j in [i, i + 1, i + 2, i + 5] {
                if let Some(z) = p.get(j) {
                    same_iff(&format!("operations {x:?} and {z:?}"), x, z, format!("{x:?}") == format!("{z:?}"))?;
                }
            }
        }
        let ts: Vec<_> = yamd::lexer::Lexer::new(s).collect();
        for (i, t) in ts.iter().enumerate().take(40) {
            for z in [i, i + 1, i + 2, i + 5].iter().filter_map(|j| ts.get(*j)) {
                let same = format!("{t:?}") == format!("{z:?}");
                same_iff(&format!("tokens {t:?} and {z:?}"), t, &z.clone(), same)?;
                let kind = t.kind.to_string() == z.kind.to_string();
                same_iff(&format!("kinds {:?} and {:?}", t.kind, z.kind), &t.kind, &z.kind, kind)?;
                ensure!(!kind || y32_hash(&t.kind) == y32_hash(&z.kind), "the hashes of equal kinds {:?} differ", t.kind);
            }
            let n = yamd::lexer::Token::new(t.kind.clone(), t.range.clone(), t.position.clone());
            ensure!(n.kind == t.kind && n.range == t.range && n.position == t.position && !n.escaped, "Token::new gives {n:?} for {t:?}");
        }
    }
    let empty = y::Yamd::default();
    ensure!(empty == y::Yamd::new(None, vec![]) && empty.body.is_empty() && empty.metadata.is_none(), "the default document is {empty:?}");
    ensure!(y::Paragraph::default() == y::Paragraph::new(vec![]), "the default paragraph is {:?}", y::Paragraph::default());
    ensure!(y::Bold::default() == y::Bold::new(vec![]), "the default bold is {:?}", y::Bold::default());
    good(!d.body.is_empty())
}

// --- Y33: work and size ----------------------------------------------------------------------------------------------

/// The work of reading and printing a source, and the lengths of its stream, its texts and its printed form.
fn work(s: &str) -> (u64, usize, usize, usize) {
    let before = crate::cov::steps();
    let ops = yamd::parse(s);
    let y = yamd::to_yamd(&ops, s);
    let printed = y.to_string();
    let steps = crate::cov::steps() - before;
    let mut texts = 0;
    map_strings(&from_yamd(&y), &mut |t| {
        texts += t.len();
        String::new()
    });
    (steps, ops.len(), texts, printed.len())
}

/// One block of many like parts: what comes before them, around each, between them and after them.
const GROW: &[(&str, &str, &str, &str)] = &[
    ("", "", "\n\n", ""),
    ("", "", "\n", ""),
    ("", "", " ", ""),
    ("", "# ", "\n\n", ""),
    ("# ", "", " ", ""),
    ("# ", "", "\n", ""),
    ("# h\n", "", "\n", ""),
    ("", "- ", "\n", ""),
    ("", "+ ", "\n\n", ""),
    ("", "+ ", "\n - a\n", "b"),
    ("- a\n", " - ", "\n", "- b"),
    ("- a\n", "", "\n", "- b"),
    ("- a\n - b\n  - c\n", "   + ", "\n", "- d"),
    ("", "![a](b)\n![c](", ")\n", "d)"),
    ("", "![c](d)\n", "\n\n", ""),
    ("", "![a](", ")\n", "![c](d)"),
    ("", "![", "](b)\n", "![c](d)"),
    ("{% t\n", "![a](", ")\n", "\n%}"),
    ("", "![a](", ")\n\n", ""),
    ("", "{{a|", "}}\n\n", ""),
    ("# ", "[a](", ") ", "x"),
    ("x ", "[a](", ") ", "x"),
    ("", "- a\n - ", "\n", "- b"),
    ("", "- a\n\n+ ", "\n\n", "x"),
    ("!! t\n", "a **", "**\n", "\n!!"),
    ("", "***\n", "\n\n", ""),
    ("*", "", " ", "*"),
    ("~~", "", "\n", "~~"),
    ("!! t\n! ", "", "\n! ", "\n!!"),
    ("", "![a](b) ", "\n", ""),
    ("", "{{a|", "}}\n", "b}}"),
    ("{{a|", "", "\n", "}}"),
    ("{{", "", " | ", "}}"),
    ("```\n", "", "\n", "\n```"),
    ("```\n", "", "\n\n", "\n```\n\nx"),
    ("", "```\n", "\n```\n", "```"),
    ("", "```a\n", "\n```\n\n", "```"),
    ("!! t\n! i\n", "", "\n", "\n!!"),
    ("!!\n", "", "\n\n", "\n!!"),
    ("", "!!\n", "\n!!\n", "!!"),
    ("", "!! ", "\na\n!!\n\n", "b"),
    ("---\n", "k: ", "\n", "\n---\n\nx"),
    ("---\n", "", "\n\n", "\n---"),
    ("{% t\n", "", "\n", "\n%}"),
    ("{% t\n", "", "\n\n", "\n%}\n\nx"),
    ("{% t\n", "- ", "\n", "\n%}"),
    ("{% t\n", "{% u\n", "\n%}\n", "\n%}"),
    ("{% t\n{% u\n", "", "\n\n", "\n%}\n%}"),
    ("", "{% u\n", "\n%}\n", "{% v\n%}"),
    ("", "{% ", "\nx\n%}\n\n", ""),
    ("", "-----\n", "\n", ""),
    ("**", "", " ~~x~~ ", "**"),
    ("_", "", " ", "_"),
    ("[t](", "", "", ")"),
    ("[t](", "(", ")", ")"),
    ("[", "", "\n", "](u)"),
    ("`", "", "\n", "`"),
];

/// What the parts hold: nothing that stays open.
const PIECES: &[&str] = &[
    "a", "b c", "1. d", "é", "\\*", "\\_x", "x\\\\", "日本", "\\%}", "a-b", "c.", "\\(d\\)", "[a](b)", "**b**", "_c_", "~~d~~", "`e`", "*f*", "**g _h_**", "# i", "x > y", "- j", "\r", "a + b",
];

/// A source of `n` parts; the pieces with markup only where they are read as such.
fn grown(p: &[usize], n: usize) -> String {
    let (head, pre, post, tail) = GROW[p[0] % GROW.len()];
    let inline = (head.is_empty() || head == "x ") && !pre.starts_with(['!', '{', '`']) || head.starts_with("- ") || head.starts_with("!! t") || head.starts_with("{% t");
    let pieces = if inline { PIECES } else { &PIECES[..12] };
    let unit: Vec<&str> = p[2..].iter().take(6).map(|i| pieces[i % pieces.len()]).collect();
    let mut s = String::from(head);
    for _ in 0..n {
        s.push_str(pre);
        s.push_str(&unit.join(" "));
        s.push_str(post);
    }
    s.push_str(tail);
    s
}

fn y33_gen(s: &mut Src) -> Case {
    if s.chance(1, 5) {
        let mut p = vec![s.below(GROW.len()), 20 + s.below(30)];
        let k = 1 + s.below(3);
        p.extend((0..k).map(|_| s.below(PIECES.len())));
        return Case::Mix(vec![], p);
    }
    y21_gen(s)
}

fn y33_fixed() -> Vec<Case> {
    let mut v = vec![];
    for g in 0..GROW.len() {
        for i in 0..PIECES.len() {
            v.push(Case::Mix(vec![], vec![g, 60, i]));
        }
        v.push(Case::Mix(vec![], vec![g, 400, 0]));
        v.push(Case::Mix(vec![], vec![g, 300, 1, 4, 2]));
        v.push(Case::Mix(vec![], vec![g, 5_000, 1]));
    }
    v
}

/// The processor time of this thread.
fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

fn head60(s: &str) -> String {
    s.chars().take(60).collect()
}

/// Four times as many parts take about four times the steps, the memory and, where there are thousands, the time.
fn y33_grow(p: &[usize]) -> Res {
    if p.len() < 3 || p[1] == 0 {
        return Ok(Out::Discard);
    }
    let n = p[1].min(5_000);
    let (small, large) = (grown(p, n), grown(p, 4 * n));
    let measure = |s: &str| {
        cov::rebudget(budget(s));
        let m = crate::memory::allocated();
        let t = cpu();
        let w = work(s).0;
        (w, crate::memory::allocated() - m, cpu() - t)
    };
    let (s1, m1, mut t1) = measure(&small);
    let (s4, m4, mut t4) = measure(&large);
    ensure!(s4 <= 5 * s1 + 2_000, "{n} parts like {:?} take {s1} steps, {} take {s4}", head60(&small), 4 * n);
    ensure!(m4 <= 6 * m1 + 20_000, "for {n} parts like {:?} {m1} bytes are allocated, for {} {m4}", head60(&small), 4 * n);
    if n >= 2_000 {
        for _ in 0..6 {
            if t4 <= 8.0 * t1 + 0.02 {
                break;
            }
            t1 = t1.max(measure(&small).2);
            t4 = t4.min(measure(&large).2);
        }
        ensure!(t4 <= 8.0 * t1 + 0.02, "{n} parts like {:?} take {t1} s, {} take {t4} s", head60(&small), 4 * n);
        label("thousands of parts in a block, timed");
    }
    label("four times as many parts in a block");
    good(true)
}

fn y33(c: &Case) -> Res {
    if let Case::Mix(_, p) = c {
        return y33_grow(p);
    }
    let Case::Two(a, b) = c else { unreachable!() };
    for s in [a, b] {
        let (_, ops, texts, printed) = work(s);
        ensure!(ops <= 4 * s.len() + 4, "{s:?} of {} bytes has {ops} operations", s.len());
        ensure!(texts <= s.len(), "{s:?} of {} bytes has {texts} bytes of texts", s.len());
        ensure!(printed <= 2 * s.len() + 8, "{s:?} of {} bytes is printed as {printed} bytes", s.len());
        // once all that is kept for good has been set up, nothing stays
        let read = |n: usize| {
            let before = crate::memory::held();
            for _ in 0..n {
                drop(yamd::deserialize(s).to_string());
                drop(Lexer::new(s).collect::<Vec<_>>());
            }
            crate::memory::held() - before
        };
        if read(2) != 0 {
            let kept = read(8);
            ensure!(kept <= 0, "{s:?}: reading it 8 times more leaves {kept} bytes in memory");
        }
    }
    if a.ends_with(is_eol) || ends_in_backslash(a) || !all_closed(a) || read(b).meta.is_some() {
        return Ok(Out::Discard);
    }
    let (wa, wb) = (work(a).0, work(b).0);
    let both = work(&format!("{a}\n\n{b}")).0;
    ensure!(both <= wa + wb + (wa + wb) / 2 + 500, "{a:?} takes {wa} steps, {b:?} takes {wb} steps, one after the other {both} steps");
    // one and the same block again and again
    let a2 = if read(a).meta.is_some() { b } else { a };
    let n = 2 + (8_000 / (a2.len() + 20)).min(300);
    if a2.ends_with(is_eol) || ends_in_backslash(a2) || !all_closed(a2) {
        return good(false);
    }
    let one = work(a2).0;
    let many = work(&vec![&a2[..]; n].join("\n\n")).0;
    ensure!(many <= n as u64 * (one + one / 2 + 300), "{a2:?} takes {one} steps, {n} times it takes {many} steps");
    label(match n {
        ..20 => "repeated less than 20 times",
        _ => "repeated 20 to 302 times",
    });
    good(a.len() > 3 && b.len() > 3)
}

const TRUST: &str = "rustc, the standard library and serde_json are correct; the harness's lexer, parser and printer encode the documented grammar";
const BOUND: &str = "sources beyond the generated sizes (a few hundred bytes; fixed cases of one thing repeated or lengthened to 1,300 and, where only the position matters, 70,000) and nesting depths are not explored";

macro_rules! p {
    ($id:literal, $rule:literal, $gen:expr, $ft:expr, $check:expr, $al:expr, $cases:expr, $fixed:expr) => {
        Prop {
            id: $id,
            rule: $rule,
            gen: $gen,
            from_text: $ft,
            check: $check,
            alphabets: $al,
            cases: $cases,
            fixed: $fixed,
            assumptions: &[TRUST, BOUND],
        }
    };
}

pub const PROPS: &[Prop] = &[
    p!("Y32", "random documents with arbitrary texts and documents of random sources, each compared with copies that differ in one place; non-trivial: the document has a block", y32_gen, as_text, y32, EVERY_SMALL, 300_000, y12_fixed),
    p!("Y33", "pairs of sources, repeated up to 302 times, and blocks of up to 20,000 parts; non-trivial: more than three characters each, or such a block", y33_gen, y21_text, y33, EVERY_SMALL, 150_000, y33_fixed),
    p!("Y01", "sources: random soups of lexemes, arbitrary characters, repeated and nested openers, edited documents, all short sequences of lexemes; non-trivial: at least one token and more than four operations", y01_gen, as_text, y01, EVERY_SMALL, 600_000, y01_fixed),
    p!("Y02", "sources: random characters, runs, escapes and lexemes, all short sequences over small alphabets; non-trivial: more than one token", lex_source, as_text, y02, &[(LEX_ALPHA, 5, 6), (LEX_ALPHA2, 3, 4)], 6_000_000, none),
    p!("Y03", "sources: random characters, runs, escapes and lexemes, all short sequences over small alphabets; non-trivial: at least two kinds of tokens", lex_source, as_text, y03, &[(LEX_ALPHA, 5, 6), (LEX_ALPHA2, 3, 4)], 6_000_000, none),
    p!("Y04", "sources: random characters, runs, escapes and lexemes, all short sequences over small alphabets; non-trivial: a token that is neither on the first line nor in the first column", lex_source, as_text, y04, &[(LEX_ALPHA, 5, 6), (LEX_ALPHA2, 3, 4)], 6_000_000, none),
    p!("Y05", "random documents with arbitrary texts written with every special character escaped (and, at random, others), all short texts escaped in every place, and sources whose escaped characters are compared with ordinary ones in their stead; non-trivial: a text holds a special character", y05_gen, as_text, y05, &[(ESC_ALPHA, 2, 3), (ESC_LINES, 4, 5)], 1_500_000, y05_fixed),
    p!("Y06", "sources: soups, edited documents, all short sequences of lexemes; non-trivial: more than five operations", any_gen, as_text, y06, EVERY, 1_500_000, none),
    p!("Y07", "sources: soups, edited documents, all short sequences of lexemes; non-trivial: more than five operations", any_gen, as_text, y07, EVERY, 1_500_000, none),
    p!("Y08", "sources: soups, edited documents, all short sequences of lexemes; non-trivial: more than five operations", any_gen, as_text, y08, EVERY, 1_200_000, none),
    p!("Y09", "operation streams: edited streams of sources, random streams, all sequences of at most four operations over several triples of nodes, all pairs of nodes; non-trivial: at least two operations", y09_gen, y09_text, y09, &[(SMALL, 3, 4)], 2_000_000, y09_fixed),
    p!("Y10", "sources: soups, edited documents, all short sequences of lexemes; non-trivial: more than one block, or one that is no paragraph", any_gen, as_text, y10, EVERY, 1_500_000, none),
    p!("Y11", "sources: soups, edited documents, all short sequences of lexemes; non-trivial: a document with blocks that is not printed as it was written", any_gen, as_text, y11, EVERY, 1_500_000, none),
    p!("Y12", "random documents in normal form with arbitrary texts, and all short texts in every place; non-trivial: a text holds a special character", y12_gen, as_text, y12, &[(ESC_ALPHA, 2, 3)], 1_200_000, y12_fixed),
    p!("Y13", "sources made mainly of inline markup, all short sequences of inline lexemes; non-trivial: an inline node occurs", y13_gen, as_text, y13, &[(A_INLINE, 5, 6)], 1_500_000, none),
    p!("Y14", "sources made mainly of headings, breaks and blank lines, all short sequences of such lexemes; non-trivial: a heading or thematic break occurs", y14_gen, as_text, y14, &[(A_HEAD, 5, 6)], 1_500_000, none),
    p!("Y15", "sources made mainly of list lines, all short sequences of such lexemes; non-trivial: a list occurs", y15_gen, as_text, y15, &[(A_LIST, 6, 7)], 1_200_000, none),
    p!("Y16", "sources made mainly of fences, all short sequences of such lexemes; non-trivial: a code block occurs", y16_gen, as_text, y16, &[(A_CODE, 5, 7)], 1_000_000, none),
    p!("Y17", "sources made mainly of highlight lines, all short sequences of such lexemes; non-trivial: a highlight occurs", y17_gen, as_text, y17, &[(A_HIGH, 6, 7)], 1_000_000, none),
    p!("Y18", "sources made mainly of collapsible lines, all short sequences of such lexemes; non-trivial: a collapsible occurs", y18_gen, as_text, y18, &[(A_COLL, 5, 7)], 800_000, none),
    p!("Y19", "sources made mainly of image and embed parts, all short sequences of such lexemes; non-trivial: an image, gallery or embed occurs", y19_gen, as_text, y19, &[(A_MEDIA, 5, 7)], 2_000_000, none),
    p!("Y20", "sources made mainly of runs of dashes, all short sequences of such lexemes; non-trivial: metadata occurs", y20_gen, as_text, y20, &[(A_META, 6, 7)], 1_200_000, none),
    p!("Y21", "pairs of sources joined by a blank line, the first with all markers of fences, highlights, collapsibles and metadata closed; non-trivial: both have blocks", y21_gen, y21_text, y21, EVERY, 2_500_000, none),
    p!("Y22", "sources with closed collapsibles, wrapped in one to about twenty collapsibles; non-trivial: the source has blocks", y22_gen, y22_text, y22, EVERY, 2_500_000, none),
    p!("Y23", "sources with LF line breaks, all or a random subset of them replaced by CRLF; non-trivial: at least one is replaced", y23_gen, y23_text, y23, EVERY, 1_000_000, none),
    p!("Y24", "sources with a random replacement of their ordinary characters by others; non-trivial: the source changes and has more than five operations", y24_gen, y24_text, y24, EVERY, 1_000_000, none),
    p!("Y25", "random documents with arbitrary texts and documents of random sources, with their operation streams; non-trivial: a block occurs", y25_gen, as_text, y25, EVERY_SMALL, 500_000, none),
    p!("Y26", "random documents in canonical layout with ordinary texts; non-trivial: more than one block or line", y26_gen, no_text, y26, &[], 3_000_000, y26_fixed),
    p!("Y27", "choices of tokens of random sources, and all contiguous ones of short sources; non-trivial: at least two tokens", y27_gen, as_text, y27, &[(LEX_ALPHA, 4, 5), (LEX_ALPHA2, 3, 4)], 3_000_000, none),
    p!("Y28", "runs of the command-line tools on random files and arguments; non-trivial: at least two kinds of tokens, or a length above 0", y28_gen, y28_text, y28, &[], 6_000, y28_fixed),
    p!("Y29", "groups of sources, some differing in a few characters only, read in several orders, from one buffer, in turns and by threads at the same time; non-trivial: at least two sources with more than four operations", y29_gen, mix_text, y29, EVERY_SMALL, 250_000, y29_fixed),
    p!("Y30", "nodes of random documents in normal form and of documents of random sources, printed on their own; non-trivial: a block that is neither a paragraph nor a thematic break", y30_gen, as_text, y30, EVERY, 1_200_000, none),
    p!("Y31", "documents put together from the blocks of documents of random sources, in any order and depth; non-trivial: more than one block, and none of the sources' documents", y31_gen, mix_text, y31, EVERY, 2_500_000, none),
];
