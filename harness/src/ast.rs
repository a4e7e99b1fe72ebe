//! The harness's own document type, conversions from and to the types under test (through public constructors and
//! public fields only).
use serde::{Deserialize, Serialize};
use yamd::nodes as y;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Doc {
    pub meta: Option<String>,
    pub body: Vec<Block>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Block {
    Para(Vec<Inl>),
    Heading(u8, Vec<Inl>), // Text and Anchor only
    Image(Img),
    Images(Vec<Img>),
    Code(String, String),
    List(List),
    Highlight(Option<String>, Option<String>, Vec<Vec<Inl>>),
    Break,
    Embed(String, String),
    Collapsible(String, Vec<Block>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Img {
    pub alt: String,
    pub src: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Inl {
    Text(String),
    Bold(Vec<Inl>), // Text, Italic and Strike only
    Italic(String),
    Strike(String),
    CodeSpan(String),
    Emph(String),
    Anchor(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct List {
    pub ordered: bool,
    pub level: usize,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Item {
    pub text: Vec<Inl>,
    pub nested: Option<List>,
}

fn from_para(ns: &[y::ParagraphNodes]) -> Vec<Inl> {
    ns.iter()
        .map(|n| match n {
            y::ParagraphNodes::Anchor(a) => Inl::Anchor(a.text.clone(), a.url.clone()),
            y::ParagraphNodes::Bold(b) => Inl::Bold(
                b.body
                    .iter()
                    .map(|n| match n {
                        y::BoldNodes::Text(t) => Inl::Text(t.clone()),
                        y::BoldNodes::Italic(i) => Inl::Italic(i.0.clone()),
                        y::BoldNodes::Strikethrough(s) => Inl::Strike(s.0.clone()),
                    })
                    .collect(),
            ),
            y::ParagraphNodes::Italic(i) => Inl::Italic(i.0.clone()),
            y::ParagraphNodes::Strikethrough(s) => Inl::Strike(s.0.clone()),
            y::ParagraphNodes::Text(t) => Inl::Text(t.clone()),
            y::ParagraphNodes::CodeSpan(c) => Inl::CodeSpan(c.0.clone()),
            y::ParagraphNodes::Emphasis(e) => Inl::Emph(e.0.clone()),
        })
        .collect()
}

fn from_list(l: &y::List) -> List {
    List {
        ordered: l.list_type == y::ListTypes::Ordered,
        level: l.level,
        items: l
            .body
            .iter()
            .map(|i| Item {
                text: from_para(&i.text),
                nested: i.nested_list.as_ref().map(from_list),
            })
            .collect(),
    }
}

fn from_img(i: &y::Image) -> Img {
    Img {
        alt: i.alt.clone(),
        src: i.src.clone(),
    }
}

pub fn from_blocks(ns: &[y::YamdNodes]) -> Vec<Block> {
    ns.iter()
        .map(|n| match n {
            y::YamdNodes::Paragraph(p) => Block::Para(from_para(&p.body)),
            y::YamdNodes::Heading(h) => Block::Heading(
                h.level,
                h.body
                    .iter()
                    .map(|n| match n {
                        y::HeadingNodes::Text(t) => Inl::Text(t.clone()),
                        y::HeadingNodes::Anchor(a) => Inl::Anchor(a.text.clone(), a.url.clone()),
                    })
                    .collect(),
            ),
            y::YamdNodes::Image(i) => Block::Image(from_img(i)),
            y::YamdNodes::Images(i) => Block::Images(i.body.iter().map(from_img).collect()),
            y::YamdNodes::Code(c) => Block::Code(c.lang.clone(), c.code.clone()),
            y::YamdNodes::List(l) => Block::List(from_list(l)),
            y::YamdNodes::Highlight(h) => Block::Highlight(
                h.title.clone(),
                h.icon.clone(),
                h.body.iter().map(|p| from_para(&p.body)).collect(),
            ),
            y::YamdNodes::ThematicBreak(_) => Block::Break,
            y::YamdNodes::Embed(e) => Block::Embed(e.kind.clone(), e.args.clone()),
            y::YamdNodes::Collapsible(c) => Block::Collapsible(c.title.clone(), from_blocks(&c.body)),
        })
        .collect()
}

pub fn from_yamd(d: &y::Yamd) -> Doc {
    Doc {
        meta: d.metadata.clone(),
        body: from_blocks(&d.body),
    }
}

fn to_para(ns: &[Inl]) -> Vec<y::ParagraphNodes> {
    ns.iter()
        .map(|n| match n {
            Inl::Text(t) => y::ParagraphNodes::Text(t.clone()),
            Inl::Bold(b) => y::Bold::new(
                b.iter()
                    .map(|n| match n {
                        Inl::Text(t) => y::BoldNodes::Text(t.clone()),
                        Inl::Italic(i) => y::Italic::new(i.clone()).into(),
                        Inl::Strike(s) => y::Strikethrough::new(s.clone()).into(),
                        _ => panic!("harness: {n:?} in bold"),
                    })
                    .collect(),
            )
            .into(),
            Inl::Italic(i) => y::Italic::new(i.clone()).into(),
            Inl::Strike(s) => y::Strikethrough::new(s.clone()).into(),
            Inl::CodeSpan(c) => y::CodeSpan::new(c.clone()).into(),
            Inl::Emph(e) => y::Emphasis::new(e.clone()).into(),
            Inl::Anchor(t, u) => y::Anchor::new(t.clone(), u.clone()).into(),
        })
        .collect()
}

fn to_list(l: &List) -> y::List {
    y::List::new(
        if l.ordered {
            y::ListTypes::Ordered
        } else {
            y::ListTypes::Unordered
        },
        l.level,
        l.items
            .iter()
            .map(|i| y::ListItem::new(to_para(&i.text), i.nested.as_ref().map(to_list)))
            .collect(),
    )
}

fn to_img(i: &Img) -> y::Image {
    y::Image::new(i.alt.clone(), i.src.clone())
}

fn to_blocks(bs: &[Block]) -> Vec<y::YamdNodes> {
    bs.iter()
        .map(|b| match b {
            Block::Para(p) => y::Paragraph::new(to_para(p)).into(),
            Block::Heading(l, b) => y::Heading::new(
                *l,
                b.iter()
                    .map(|n| match n {
                        Inl::Text(t) => y::HeadingNodes::Text(t.clone()),
                        Inl::Anchor(t, u) => y::Anchor::new(t.clone(), u.clone()).into(),
                        _ => panic!("harness: {n:?} in heading"),
                    })
                    .collect(),
            )
            .into(),
            Block::Image(i) => to_img(i).into(),
            Block::Images(i) => y::Images::new(i.iter().map(to_img).collect()).into(),
            Block::Code(l, c) => y::Code::new(l.clone(), c.clone()).into(),
            Block::List(l) => to_list(l).into(),
            Block::Highlight(t, i, ps) => y::Highlight::new(
                t.clone(),
                i.clone(),
                ps.iter().map(|p| y::Paragraph::new(to_para(p))).collect(),
            )
            .into(),
            Block::Break => y::ThematicBreak::new().into(),
            Block::Embed(k, a) => y::Embed::new(k.clone(), a.clone()).into(),
            Block::Collapsible(t, b) => y::Collapsible::new(t.clone(), to_blocks(b)).into(),
        })
        .collect()
}

pub fn to_yamd(d: &Doc) -> y::Yamd {
    y::Yamd::new(d.meta.clone(), to_blocks(&d.body))
}

/// The same document by other means: conversions, variants and public fields instead of constructors.
pub fn to_yamd_otherwise(d: &Doc) -> y::Yamd {
    fn bold(ns: &[Inl]) -> y::Bold {
        let v: Vec<y::BoldNodes> = ns
            .iter()
            .map(|n| match n {
                Inl::Text(t) => t.clone().into(),
                Inl::Italic(i) => y::BoldNodes::Italic(i.clone().into()),
                Inl::Strike(s) => y::BoldNodes::Strikethrough(s.clone().into()),
                _ => panic!("harness: {n:?} in bold"),
            })
            .collect();
        v.into()
    }
    fn para(ns: &[Inl]) -> Vec<y::ParagraphNodes> {
        ns.iter()
            .map(|n| match n {
                Inl::Text(t) => t.clone().into(),
                Inl::Bold(b) => y::ParagraphNodes::Bold(bold(b)),
                Inl::Italic(i) => y::ParagraphNodes::Italic(i.clone().into()),
                Inl::Strike(s) => y::ParagraphNodes::Strikethrough(s.clone().into()),
                Inl::CodeSpan(c) => y::ParagraphNodes::CodeSpan(c.clone().into()),
                Inl::Emph(e) => y::ParagraphNodes::Emphasis(e.clone().into()),
                Inl::Anchor(t, u) => y::ParagraphNodes::Anchor(y::Anchor { text: t.clone(), url: u.clone() }),
            })
            .collect()
    }
    fn list(l: &List) -> y::List {
        y::List {
            list_type: if l.ordered { y::ListTypes::Ordered } else { y::ListTypes::Unordered },
            level: l.level,
            body: l
                .items
                .iter()
                .map(|i| y::ListItem { text: para(&i.text), nested_list: i.nested.as_ref().map(list) })
                .collect(),
        }
    }
    fn img(i: &Img) -> y::Image {
        y::Image::new(&i.alt[..], &i.src[..])
    }
    fn blocks(bs: &[Block]) -> Vec<y::YamdNodes> {
        use y::YamdNodes as Y;
        bs.iter()
            .map(|b| match b {
                Block::Para(p) => Y::Paragraph(para(p).into()),
                Block::Heading(l, b) => Y::Heading(y::Heading {
                    level: *l,
                    body: b
                        .iter()
                        .map(|n| match n {
                            Inl::Text(t) => t.clone().into(),
                            Inl::Anchor(t, u) => y::HeadingNodes::Anchor(y::Anchor::new(&t[..], &u[..])),
                            _ => panic!("harness: {n:?} in heading"),
                        })
                        .collect(),
                }),
                Block::Image(i) => Y::Image(img(i)),
                Block::Images(i) => Y::Images(y::Images { body: i.iter().map(img).collect() }),
                Block::Code(l, c) => Y::Code(y::Code { lang: l.clone(), code: c.trim_end_matches(['\n', '\r']).to_string() }),
                Block::List(l) => Y::List(list(l)),
                Block::Highlight(t, i, ps) => Y::Highlight(y::Highlight {
                    title: t.clone(),
                    icon: i.clone(),
                    body: ps.iter().map(|p| y::Paragraph { body: para(p) }).collect(),
                }),
                Block::Break => Y::ThematicBreak(Default::default()),
                Block::Embed(k, a) => Y::Embed(y::Embed { kind: k.clone(), args: a.clone() }),
                Block::Collapsible(t, b) => Y::Collapsible(y::Collapsible { title: t.clone(), body: blocks(b) }),
            })
            .collect()
    }
    y::Yamd {
        metadata: d.meta.as_ref().map(|m| m.trim_matches(['\n', '\r']).to_string()),
        body: blocks(&d.body),
    }
}

/// Documents that differ from `d` in one place each: a string, a number, a choice, a kind, or the number, order and division of parts.
pub fn variants(d: &Doc, max: usize) -> Vec<Doc> {
    use serde_json::Value;
    fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
        match v {
            Value::Array(a) => {
                if !a.is_empty() {
                    out.push(at.concat());
                }
                for (i, v) in a.iter().enumerate() {
                    at.push(format!("/{i}"));
                    leaves(v, at, out);
                    at.pop();
                }
            }
            Value::Object(o) => {
                for (k, v) in o {
                    at.push(format!("/{k}"));
                    leaves(v, at, out);
                    at.pop();
                }
            }
            _ => out.push(at.concat()),
        }
    }
    let v = serde_json::to_value(d).expect("a document as JSON");
    let mut at = vec![];
    leaves(&v, &mut vec![], &mut at);
    let step = at.len() / max + 1;
    at.iter()
        .enumerate()
        .step_by(step)
        .filter_map(|(k, p)| {
            let mut w = v.clone();
            let x = w.pointer_mut(p)?;
            // one of several edits, by the place and what is there
            let e = k + p.len() + x.as_str().map_or(0, |s| s.len() + s.bytes().map(usize::from).sum::<usize>());
            *x = match x.take() {
                Value::String(s) => edited(s, e),
                Value::Number(n) => Value::from(match e % 3 {
                    0 if n.as_u64()? > 0 => n.as_u64()? - 1,
                    1 => n.as_u64()? + 256,
                    _ => n.as_u64()? + 1,
                }),
                Value::Bool(b) => Value::Bool(!b),
                Value::Null => Value::String(if e % 2 == 0 { String::new() } else { "x".into() }),
                Value::Array(mut a) => {
                    let n = a.len();
                    match e % 6 {
                        0 if n > 1 => a.swap(0, n - 1),
                        1 => a.push(a[n - 1].clone()),
                        2 => drop(a.remove(0)),
                        3 => {
                            // a text in two parts
                            let t = a.iter().position(|x| x.get("Text").and_then(Value::as_str).is_some_and(|t| t.chars().count() > 1));
                            match t {
                                Some(i) => {
                                    let t = a[i]["Text"].as_str()?.to_string();
                                    let m = t.char_indices().nth(t.chars().count() / 2)?.0;
                                    a[i]["Text"] = t[m..].into();
                                    a.insert(i, serde_json::json!({ "Text": t[..m] }));
                                }
                                None => a.clear(),
                            }
                        }
                        4 => {
                            // another kind of node with the same text
                            for x in a.iter_mut() {
                                if let Some((k, t)) = x.as_object().and_then(|o| o.iter().next()).filter(|(_, t)| t.is_string()) {
                                    let kinds = ["Text", "Italic", "Strike", "CodeSpan", "Emph"];
                                    let k = kinds.iter().position(|x| x == k).unwrap_or(0);
                                    *x = serde_json::json!({ kinds[(k + 1 + e / 6 % 4) % 5]: t.clone() });
                                    break;
                                }
                            }
                        }
                        _ => drop(a.pop()),
                    }
                    Value::Array(a)
                }
                o => o,
            };
            // not every kind of node may stand everywhere
            serde_json::from_value(w).ok().filter(allowed)
        })
        .collect()
}

fn edited(s: String, e: usize) -> serde_json::Value {
    let first = s.chars().next();
    let rest: String = s.chars().skip(1).collect();
    let most: String = s.chars().take(s.chars().count().saturating_sub(1)).collect();
    match (e % 9, first) {
        (0, _) => s + "x",
        (1, Some(_)) => rest,
        (2, Some(_)) => most,
        (3, Some(c)) if c.is_lowercase() => c.to_uppercase().to_string() + &rest,
        (3, Some(c)) => c.to_lowercase().to_string() + &rest,
        (4, _) => s + " ",
        (5, _) => s + "\n",
        (6, Some(_)) => most + "\0",
        (7, _) => s.chars().rev().collect(),
        (8, _) => " ".to_string() + &s,
        _ => s + "y",
    }
    .into()
}

/// Whether the document can be built.
fn allowed(d: &Doc) -> bool {
    fn block(b: &Block) -> bool {
        match b {
            Block::Para(p) => para(p),
            Block::Heading(_, h) => h.iter().all(|x| matches!(x, Inl::Text(_) | Inl::Anchor(..))),
            Block::Highlight(_, _, ps) => ps.iter().all(|p| para(p)),
            Block::Collapsible(_, b) => b.iter().all(block),
            Block::List(l) => list(l),
            _ => true,
        }
    }
    fn list(l: &List) -> bool {
        l.items.iter().all(|i| para(&i.text) && i.nested.as_ref().is_none_or(list))
    }
    fn para(p: &[Inl]) -> bool {
        p.iter().all(|x| match x {
            Inl::Bold(b) => b.iter().all(|x| matches!(x, Inl::Text(_) | Inl::Italic(_) | Inl::Strike(_))),
            _ => true,
        })
    }
    d.body.iter().all(block)
}

/// Applies `f` to every string of the document.
pub fn map_strings(d: &Doc, f: &mut dyn FnMut(&str) -> String) -> Doc {
    fn inls(v: &[Inl], f: &mut dyn FnMut(&str) -> String) -> Vec<Inl> {
        v.iter()
            .map(|n| match n {
                Inl::Text(t) => Inl::Text(f(t)),
                Inl::Bold(b) => Inl::Bold(inls(b, f)),
                Inl::Italic(t) => Inl::Italic(f(t)),
                Inl::Strike(t) => Inl::Strike(f(t)),
                Inl::CodeSpan(t) => Inl::CodeSpan(f(t)),
                Inl::Emph(t) => Inl::Emph(f(t)),
                Inl::Anchor(a, b) => Inl::Anchor(f(a), f(b)),
            })
            .collect()
    }
    fn img(i: &Img, f: &mut dyn FnMut(&str) -> String) -> Img {
        Img {
            alt: f(&i.alt),
            src: f(&i.src),
        }
    }
    fn list(l: &List, f: &mut dyn FnMut(&str) -> String) -> List {
        List {
            ordered: l.ordered,
            level: l.level,
            items: l
                .items
                .iter()
                .map(|i| Item {
                    text: inls(&i.text, f),
                    nested: i.nested.as_ref().map(|n| list(n, f)),
                })
                .collect(),
        }
    }
    fn blocks(bs: &[Block], f: &mut dyn FnMut(&str) -> String) -> Vec<Block> {
        bs.iter()
            .map(|b| match b {
                Block::Para(p) => Block::Para(inls(p, f)),
                Block::Heading(l, p) => Block::Heading(*l, inls(p, f)),
                Block::Image(i) => Block::Image(img(i, f)),
                Block::Images(v) => Block::Images(v.iter().map(|i| img(i, f)).collect()),
                Block::Code(a, b) => Block::Code(f(a), f(b)),
                Block::List(l) => Block::List(list(l, f)),
                Block::Highlight(t, i, ps) => Block::Highlight(
                    t.as_ref().map(|t| f(t)),
                    i.as_ref().map(|t| f(t)),
                    ps.iter().map(|p| inls(p, f)).collect(),
                ),
                Block::Break => Block::Break,
                Block::Embed(a, b) => Block::Embed(f(a), f(b)),
                Block::Collapsible(t, b) => Block::Collapsible(f(t), blocks(b, f)),
            })
            .collect()
    }
    Doc {
        meta: d.meta.as_ref().map(|m| f(m)),
        body: blocks(&d.body, f),
    }
}
