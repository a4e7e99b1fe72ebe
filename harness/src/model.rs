//! Reference parser: a side-effect-free recursive-descent reading of the documented grammar over the reference
//! tokens. Every production takes a place and the limits in force and returns the events and the place after it;
//! there is no shared stack, no event buffer to roll back and no token rewriting. Also the reference folding of
//! events into a document.
use crate::ast::*;
use crate::lex::{lex, Tok, K};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Anchor,
    Bold,
    Code,
    CodeSpan,
    Collapsible,
    Destination,
    Document,
    Embed,
    Emphasis,
    Heading,
    Highlight,
    Icon,
    Image,
    Images,
    Italic,
    ListItem,
    Modifier,
    Metadata,
    OrderedList,
    Paragraph,
    Strikethrough,
    ThematicBreak,
    Title,
    UnorderedList,
}

pub const NODES: [N; 24] = [
    N::Paragraph,
    N::Document,
    N::Bold,
    N::Italic,
    N::Heading,
    N::Anchor,
    N::Title,
    N::Destination,
    N::Code,
    N::CodeSpan,
    N::Collapsible,
    N::Embed,
    N::Emphasis,
    N::Highlight,
    N::Icon,
    N::Image,
    N::Images,
    N::ListItem,
    N::Modifier,
    N::Metadata,
    N::OrderedList,
    N::Strikethrough,
    N::ThematicBreak,
    N::UnorderedList,
];

impl N {
    pub fn of(n: &yamd::op::Node) -> N {
        use yamd::op::Node as O;
        match n {
            O::Anchor => N::Anchor,
            O::Bold => N::Bold,
            O::Code => N::Code,
            O::CodeSpan => N::CodeSpan,
            O::Collapsible => N::Collapsible,
            O::Destination => N::Destination,
            O::Document => N::Document,
            O::Embed => N::Embed,
            O::Emphasis => N::Emphasis,
            O::Heading => N::Heading,
            O::Highlight => N::Highlight,
            O::Icon => N::Icon,
            O::Image => N::Image,
            O::Images => N::Images,
            O::Italic => N::Italic,
            O::ListItem => N::ListItem,
            O::Modifier => N::Modifier,
            O::Metadata => N::Metadata,
            O::OrderedList => N::OrderedList,
            O::Paragraph => N::Paragraph,
            O::Strikethrough => N::Strikethrough,
            O::ThematicBreak => N::ThematicBreak,
            O::Title => N::Title,
            O::UnorderedList => N::UnorderedList,
        }
    }
    pub fn to(self) -> yamd::op::Node {
        use yamd::op::Node as O;
        match self {
            N::Anchor => O::Anchor,
            N::Bold => O::Bold,
            N::Code => O::Code,
            N::CodeSpan => O::CodeSpan,
            N::Collapsible => O::Collapsible,
            N::Destination => O::Destination,
            N::Document => O::Document,
            N::Embed => O::Embed,
            N::Emphasis => O::Emphasis,
            N::Heading => O::Heading,
            N::Highlight => O::Highlight,
            N::Icon => O::Icon,
            N::Image => O::Image,
            N::Images => O::Images,
            N::Italic => O::Italic,
            N::ListItem => O::ListItem,
            N::Modifier => O::Modifier,
            N::Metadata => O::Metadata,
            N::OrderedList => O::OrderedList,
            N::Paragraph => O::Paragraph,
            N::Strikethrough => O::Strikethrough,
            N::ThematicBreak => O::ThematicBreak,
            N::Title => O::Title,
            N::UnorderedList => O::UnorderedList,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Start(N),
    End(N),
    Value,
}

/// An event of the stream: its kind and its text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E {
    pub k: EK,
    pub s: String,
}

/// The events the real parser reported, with their contents resolved to text.
pub fn real_events(ops: &[yamd::op::Op], src: &str) -> Vec<E> {
    ops.iter()
        .map(|o| E {
            k: match &o.kind {
                yamd::op::OpKind::Start(n) => EK::Start(N::of(n)),
                yamd::op::OpKind::End(n) => EK::End(N::of(n)),
                yamd::op::OpKind::Value => EK::Value,
            },
            s: o.content.as_str(src).to_string(),
        })
        .collect()
}

#[derive(Clone, Copy, Debug)]
struct Ev {
    k: EK,
    a: usize,
    b: usize,
}

/// The limits a production must not read across.
#[derive(Clone, Copy)]
struct Lim<'l> {
    coll: bool,
    hl: bool,
    term: bool,
    list: Option<&'l Open<'l>>,
}

/// An open list item: level, whether its list is ordered, the enclosing open items.
struct Open<'l> {
    level: usize,
    ordered: bool,
    outer: Option<&'l Open<'l>>,
}

type Got = Option<(Vec<Ev>, usize)>;

pub struct Model<'s> {
    src: &'s str,
    t: Vec<Tok>,
    colls: RefCell<HashMap<usize, Got>>,
}

const NONE: Lim<'static> = Lim {
    coll: false,
    hl: false,
    term: false,
    list: None,
};

fn ev(k: EK, a: usize, b: usize) -> Ev {
    Ev { k, a, b }
}
fn leaf(n: N, open: (usize, usize), body: (usize, usize), close: (usize, usize)) -> Vec<Ev> {
    vec![
        ev(EK::Start(n), open.0, open.1),
        ev(EK::Value, body.0, body.1),
        ev(EK::End(n), close.0, close.1),
    ]
}

impl<'s> Model<'s> {
    pub fn new(src: &'s str) -> Self {
        Model {
            src,
            t: lex(src),
            colls: RefCell::new(HashMap::new()),
        }
    }

    fn is(&self, i: usize, k: K) -> bool {
        self.t.get(i).is_some_and(|t| t.k == k)
    }
    fn run(&self, i: usize, k: K, n: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.k == k && t.len() == n)
    }
    fn col0(&self, i: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.col == 0)
    }

    /// `-` or `+` followed by exactly one space: is the list ordered?
    fn marker(&self, i: usize) -> Option<bool> {
        let ordered = if self.run(i, K::Minus, 1) {
            false
        } else if self.run(i, K::Plus, 1) {
            true
        } else {
            return None;
        };
        self.run(i + 1, K::Space, 1).then_some(ordered)
    }
    /// A list marker line at `i`: its level, its type, the place of its text.
    fn item_line(&self, i: usize) -> Option<(usize, bool, usize)> {
        if !self.col0(i) {
            return None;
        }
        if let Some(o) = self.marker(i) {
            return Some((0, o, i + 2));
        }
        if self.is(i, K::Space) {
            return self.marker(i + 1).map(|o| (self.t[i].len(), o, i + 3));
        }
        None
    }

    /// Is `i` at a limit?
    fn at(&self, i: usize, l: Lim) -> bool {
        let Some(t) = self.t.get(i) else {
            return true;
        };
        if l.term && t.k == K::Term {
            return true;
        }
        if l.coll
            && ((t.k == K::CollEnd && t.col == 0) || (t.k == K::Eol && self.is(i + 1, K::CollEnd)))
        {
            return true;
        }
        if l.hl && t.k == K::Bang && t.col == 0 && t.len() == 2 {
            return true;
        }
        if l.list.is_some() {
            if let Some((level, ordered, _)) = self.item_line(i) {
                // every open item is bounded by the lines of its own list, of lists around it and of a list nested in it
                let mut o = l.list;
                while let Some(x) = o {
                    if level <= x.level + 1 && (level != x.level || ordered == x.ordered) {
                        return true;
                    }
                    o = x.outer;
                }
            }
        }
        false
    }

    /// First place from `i` on that satisfies `f`, before any limit.
    fn find(&self, i: usize, l: Lim, f: impl Fn(&Tok) -> bool) -> Option<usize> {
        let mut j = i;
        while !self.at(j, l) {
            if f(&self.t[j]) {
                return Some(j);
            }
            j += 1;
        }
        None
    }

    /// An inline node of opaque text between two equal markers.
    fn delimited(&self, i: usize, l: Lim, n: N, k: K, len: usize) -> Got {
        if !self.run(i, k, len) {
            return None;
        }
        let j = self.find(i + 1, l, |t| t.k == k && t.len() == len)?;
        Some((leaf(n, (i, i + 1), (i + 1, j), (j, j + 1)), j + 1))
    }

    /// Text interleaved with the nodes `node` finds, up to `end`.
    fn mixed(
        &self,
        i: usize,
        end: impl Fn(usize) -> bool,
        node: impl Fn(usize) -> Got,
    ) -> (Vec<Ev>, usize) {
        let mut out = vec![];
        let (mut j, mut text) = (i, i);
        while !end(j) {
            match node(j) {
                Some((evs, k)) => {
                    if text < j {
                        out.push(ev(EK::Value, text, j));
                    }
                    out.extend(evs);
                    j = k;
                    text = k;
                }
                None => j += 1,
            }
        }
        if text < j {
            out.push(ev(EK::Value, text, j));
        }
        (out, j)
    }

    fn bold(&self, i: usize, l: Lim) -> Got {
        if !self.run(i, K::Star, 2) {
            return None;
        }
        let (evs, j) = self.mixed(
            i + 1,
            |j| self.at(j, l) || self.run(j, K::Star, 2),
            |j| {
                self.delimited(j, l, N::Strikethrough, K::Tilde, 2)
                    .or_else(|| self.delimited(j, l, N::Italic, K::Under, 1))
            },
        );
        if self.at(j, l) {
            return None;
        }
        let mut out = vec![ev(EK::Start(N::Bold), i, i + 1)];
        out.extend(evs);
        out.push(ev(EK::End(N::Bold), j, j + 1));
        Some((out, j + 1))
    }

    fn title(&self, i: usize, l: Lim) -> Got {
        if !self.is(i, K::LSq) {
            return None;
        }
        let j = self.find(i + 1, l, |t| t.k == K::RSq)?;
        Some((leaf(N::Title, (i, i + 1), (i + 1, j), (j, j + 1)), j + 1))
    }

    /// Up to the parenthesis that balances the opening one, or else up to the last one there is.
    fn destination(&self, i: usize, l: Lim) -> Got {
        if !self.is(i, K::LPar) {
            return None;
        }
        let (mut depth, mut last) = (1, None);
        let mut j = i + 1;
        while depth > 0 && !self.at(j, l) {
            match self.t[j].k {
                K::LPar => depth += 1,
                K::RPar => {
                    depth -= 1;
                    last = Some(j);
                }
                _ => {}
            }
            j += 1;
        }
        let j = last?;
        Some((
            leaf(N::Destination, (i, i + 1), (i + 1, j), (j, j + 1)),
            j + 1,
        ))
    }

    fn link(&self, i: usize, l: Lim) -> Got {
        let (mut a, j) = self.title(i, l)?;
        let (b, j) = self.destination(j, l)?;
        a.extend(b);
        Some((a, j))
    }

    fn anchor(&self, i: usize, l: Lim) -> Got {
        let (evs, j) = self.link(i, l)?;
        let mut out = vec![ev(EK::Start(N::Anchor), 0, 0)];
        out.extend(evs);
        out.push(ev(EK::End(N::Anchor), 0, 0));
        Some((out, j))
    }

    fn inline(&self, i: usize, l: Lim) -> Got {
        match self.t[i].k {
            K::Tilde => self.delimited(i, l, N::Strikethrough, K::Tilde, 2),
            K::Under => self.delimited(i, l, N::Italic, K::Under, 1),
            K::Tick => self.delimited(i, l, N::CodeSpan, K::Tick, 1),
            K::LSq => self.anchor(i, l),
            K::Star => self
                .bold(i, l)
                .or_else(|| self.delimited(i, l, N::Emphasis, K::Star, 1)),
            _ => None,
        }
    }

    fn paragraph(&self, i: usize, l: Lim) -> (Vec<Ev>, usize) {
        let (evs, j) = self.mixed(i, |j| self.at(j, l), |j| self.inline(j, l));
        let mut out = vec![ev(EK::Start(N::Paragraph), 0, 0)];
        out.extend(evs);
        out.push(ev(EK::End(N::Paragraph), 0, 0));
        (out, j)
    }

    fn heading(&self, i: usize, l: Lim) -> Got {
        if !(self.is(i, K::Hash) && self.col0(i) && self.t[i].len() <= 6 && self.run(i + 1, K::Space, 1))
        {
            return None;
        }
        let (evs, j) = self.mixed(i + 2, |j| self.at(j, l), |j| self.anchor(j, l));
        let mut out = vec![ev(EK::Start(N::Heading), i, i + 2)];
        out.extend(evs);
        out.push(ev(EK::End(N::Heading), 0, 0));
        Some((out, j))
    }

    fn images(&self, i: usize, l: Lim) -> Got {
        let mut j = i;
        let mut evs = vec![];
        let mut count = 0;
        while j < self.t.len() {
            let image = if self.run(j, K::Bang, 1) {
                self.link(j + 1, l).and_then(|(e, k)| {
                    if self.is(k, K::Eol) {
                        Some((e, (k, k + 1), k + 1))
                    } else if self.at(k, l) {
                        Some((e, (0, 0), k))
                    } else {
                        None
                    }
                })
            } else {
                None
            };
            match image {
                Some((e, close, k)) => {
                    evs.push(ev(EK::Start(N::Image), j, j + 1));
                    evs.extend(e);
                    evs.push(ev(EK::End(N::Image), close.0, close.1));
                    count += 1;
                    j = k;
                }
                None if self.at(j, l) => break,
                None => return None,
            }
        }
        match count {
            0 => None,
            1 => Some((evs, j)),
            _ => {
                evs.insert(0, ev(EK::Start(N::Images), 0, 0));
                evs.push(ev(EK::End(N::Images), 0, 0));
                Some((evs, j))
            }
        }
    }

    fn list(&self, i: usize, level: usize, l: Lim) -> Got {
        let (_, ordered, _) = self.item_line(i).filter(|x| x.0 == level)?;
        let n = if ordered { N::OrderedList } else { N::UnorderedList };
        let mut out = vec![ev(EK::Start(n), 0, 0)];
        let mut j = i;
        while let Some((_, _, text)) = self
            .item_line(j)
            .filter(|x| x.0 == level && x.1 == ordered)
        {
            out.push(ev(EK::Start(N::ListItem), j, text));
            let open = Open {
                level,
                ordered,
                outer: l.list,
            };
            let (evs, k) = self.paragraph(
                text,
                Lim {
                    list: Some(&open),
                    ..l
                },
            );
            out.extend(evs);
            j = k;
            if !self.at(j, l) {
                if let Some((evs, k)) = self.list(j, level + 1, l) {
                    out.extend(evs);
                    j = k;
                }
            }
            out.push(ev(EK::End(N::ListItem), 0, 0));
        }
        out.push(ev(EK::End(n), 0, 0));
        Some((out, j))
    }

    /// The rest of an opening line: title or language.
    fn modifier(&self, i: usize, l: Lim) -> Got {
        let j = self.find(i, l, |t| t.k == K::Eol || t.k == K::Term)?;
        Some((leaf(N::Modifier, (0, 0), (i, j), (j, j + 1)), j + 1))
    }

    /// After a closing marker ending at `i`: the line break that belongs to it, if the block may end here.
    fn closed(&self, i: usize, l: Lim) -> Option<usize> {
        if self.is(i, K::Eol) {
            Some(i + 1)
        } else if self.at(i, l) || self.is(i, K::Term) {
            Some(i)
        } else {
            None
        }
    }

    fn code(&self, i: usize, l: Lim) -> Got {
        let fence = |t: &Tok| t.k == K::Tick && t.col == 0 && t.len() == 3;
        if !self.t.get(i).is_some_and(fence) {
            return None;
        }
        let mut out = vec![];
        let mut j = i + 1;
        if self.is(j, K::Eol) {
            j += 1;
            out.push(ev(EK::Start(N::Code), i, j));
        } else {
            out.push(ev(EK::Start(N::Code), i, j));
            if let Some((m, k)) = self.modifier(j, NONE) {
                out.extend(m);
                j = k;
            }
        }
        let k = self.find(j, NONE, fence)?;
        let end = self.closed(k + 1, l)?;
        out.push(ev(EK::Value, j, k));
        out.push(ev(EK::End(N::Code), k, end));
        Some((out, end))
    }

    fn embed(&self, i: usize, l: Lim) -> Got {
        if !(self.run(i, K::LCurly, 2) && self.col0(i)) {
            return None;
        }
        let lt = Lim { term: true, ..l };
        let p = self.find(i + 1, lt, |t| t.k == K::Pipe)?;
        let c = self.find(p + 1, lt, |t| t.k == K::RCurly && t.len() == 2)?;
        let end = self.closed(c + 1, l)?;
        Some((
            vec![
                ev(EK::Start(N::Embed), i, i + 1),
                ev(EK::Value, i + 1, p),
                ev(EK::Value, p, p + 1),
                ev(EK::Value, p + 1, c),
                ev(EK::End(N::Embed), c, end),
            ],
            end,
        ))
    }

    fn highlight(&self, i: usize, l: Lim) -> Got {
        let marker = |i: usize| self.run(i, K::Bang, 2) && self.col0(i);
        if !marker(i) {
            return None;
        }
        let mut j = i + 2;
        let mut out = vec![ev(EK::Start(N::Highlight), i, j)];
        if self.run(i + 1, K::Space, 1) {
            if let Some((m, k)) = self.modifier(j, l) {
                out.extend(m);
                j = k;
            }
        } else if !self.is(i + 1, K::Eol) {
            return None;
        }
        if self.run(j, K::Bang, 1) && self.col0(j) && self.run(j + 1, K::Space, 1) {
            if let Some(k) = self.find(j + 2, Lim { term: true, ..l }, |t| t.k == K::Eol) {
                out.extend(leaf(N::Icon, (j, j + 2), (j + 2, k), (k, k + 1)));
                j = k + 1;
            }
        }
        if !self.col0(j) {
            return None;
        }
        let body = Lim {
            term: true,
            hl: true,
            ..l
        };
        while !self.at(j, l) {
            if marker(j) {
                let end = if self.is(j + 1, K::Eol) { j + 2 } else { j + 1 };
                out.push(ev(EK::End(N::Highlight), j, end));
                return Some((out, end));
            }
            if self.is(j, K::Term) {
                out.push(ev(EK::Value, j, j + 1));
                j += 1;
            }
            let (p, k) = self.paragraph(j, body);
            out.extend(p);
            j = k;
        }
        None
    }

    fn collapsible(&self, i: usize) -> Got {
        if !(self.is(i, K::CollStart) && self.col0(i)) {
            return None;
        }
        if let Some(got) = self.colls.borrow().get(&i) {
            return got.clone();
        }
        let got = self.collapsible_at(i);
        self.colls.borrow_mut().insert(i, got.clone());
        got
    }

    fn collapsible_at(&self, i: usize) -> Got {
        let mut j = i + 2;
        let mut out = vec![ev(EK::Start(N::Collapsible), i, j)];
        if self.is(i + 1, K::Space) {
            let (m, k) = self.modifier(j, NONE)?;
            out.extend(m);
            j = k;
        } else if !self.is(i + 1, K::Eol) {
            return None;
        }
        if j >= self.t.len() {
            return None;
        }
        let (body, mut j) = self.document(j, Lim { coll: true, ..NONE });
        out.extend(body);
        if self.is(j, K::Eol) {
            j += 1;
        }
        if !(self.is(j, K::CollEnd) && self.col0(j)) {
            return None;
        }
        let end = if self.is(j + 1, K::Eol) { j + 2 } else { j + 1 };
        out.push(ev(EK::End(N::Collapsible), j, end));
        Some((out, end))
    }

    fn document(&self, i: usize, l: Lim) -> (Vec<Ev>, usize) {
        let mut out = vec![ev(EK::Start(N::Document), 0, 0)];
        let mut j = i;
        while !self.at(j, l) {
            let lt = Lim { term: true, ..l };
            let (evs, k) = if self.is(j, K::Term) {
                (vec![ev(EK::Value, j, j + 1)], j + 1)
            } else {
                self.code(j, l)
                    .or_else(|| self.collapsible(j))
                    .or_else(|| self.embed(j, l))
                    .or_else(|| self.highlight(j, l))
                    .or_else(|| self.list(j, 0, lt))
                    .or_else(|| self.images(j, lt))
                    .or_else(|| {
                        (self.run(j, K::Minus, 5) && self.col0(j))
                            .then(|| (leaf(N::ThematicBreak, (0, 0), (j, j + 1), (0, 0)), j + 1))
                    })
                    .or_else(|| self.heading(j, lt))
                    .unwrap_or_else(|| self.paragraph(j, lt))
            };
            out.extend(evs);
            j = k;
        }
        out.push(ev(EK::End(N::Document), 0, 0));
        (out, j)
    }

    /// The events of the whole source.
    pub fn events(&self) -> Vec<E> {
        self.places()
            .iter()
            .map(|e| E {
                k: e.k,
                s: self.t[e.a..e.b]
                    .iter()
                    .map(|t| &self.src[t.start..t.end])
                    .collect(),
            })
            .collect()
    }

    /// Calls `f` with every stretch of tokens and the node it belongs to: as one of its markers (false) or as a value
    /// directly inside it (true).
    pub fn structure(&self, f: &mut dyn FnMut(N, bool, usize, usize)) {
        let mut open = vec![];
        for e in self.places() {
            match e.k {
                EK::Start(n) => {
                    f(n, false, e.a, e.b);
                    open.push(n);
                }
                EK::End(n) => {
                    f(n, false, e.a, e.b);
                    open.pop();
                }
                EK::Value => f(*open.last().unwrap(), true, e.a, e.b),
            }
        }
    }

    fn places(&self) -> Vec<Ev> {
        let mut out = vec![];
        let mut i = 0;
        let fence = |t: &Tok| t.k == K::Minus && t.col == 0 && t.len() == 3;
        if self.t.first().is_some_and(fence) {
            if let Some(j) = self.find(1, NONE, fence) {
                out.extend(leaf(N::Metadata, (0, 1), (1, j), (j, j + 1)));
                i = j + 1;
            }
        }
        out.extend(self.document(i, NONE).0);
        out
    }
}


// ---------------------------------------------------------------------------------------------------------------
// Folding events into a document

struct Cur<'e> {
    e: &'e [E],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'e> Cur<'e> {
    fn peek(&self) -> Option<EK> {
        self.e.get(self.i).map(|e| e.k)
    }
    fn take(&mut self, k: EK) -> R<&'e str> {
        match self.e.get(self.i) {
            Some(e) if e.k == k => {
                self.i += 1;
                Ok(&e.s)
            }
            other => Err(format!("event {}: expected {k:?}, found {other:?}", self.i)),
        }
    }
    fn leaf(&mut self, n: N) -> R<String> {
        self.take(EK::Start(n))?;
        let s = self.take(EK::Value)?.to_string();
        self.take(EK::End(n))?;
        Ok(s)
    }
    fn link(&mut self) -> R<(String, String)> {
        Ok((self.leaf(N::Title)?, self.leaf(N::Destination)?))
    }
    /// Children of an inline container up to its end.
    fn inlines(&mut self, n: N) -> R<Vec<Inl>> {
        let mut out = vec![];
        loop {
            match self.peek() {
                Some(EK::End(m)) if m == n => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(EK::Value) => {
                    let s = self.take(EK::Value)?;
                    if s.is_empty() {
                        return Err(format!("event {}: empty text", self.i - 1));
                    }
                    if matches!(out.last(), Some(Inl::Text(_))) {
                        return Err(format!("event {}: two texts in a row", self.i - 1));
                    }
                    out.push(Inl::Text(s.to_string()));
                }
                Some(EK::Start(N::Anchor)) if n != N::Bold => {
                    self.i += 1;
                    let (a, b) = self.link()?;
                    self.take(EK::End(N::Anchor))?;
                    out.push(Inl::Anchor(a, b));
                }
                Some(EK::Start(N::Italic)) if n != N::Heading => out.push(Inl::Italic(self.leaf(N::Italic)?)),
                Some(EK::Start(N::Strikethrough)) if n != N::Heading => {
                    out.push(Inl::Strike(self.leaf(N::Strikethrough)?))
                }
                Some(EK::Start(N::CodeSpan)) if n == N::Paragraph => {
                    out.push(Inl::CodeSpan(self.leaf(N::CodeSpan)?))
                }
                Some(EK::Start(N::Emphasis)) if n == N::Paragraph => {
                    out.push(Inl::Emph(self.leaf(N::Emphasis)?))
                }
                Some(EK::Start(N::Bold)) if n == N::Paragraph => {
                    self.i += 1;
                    out.push(Inl::Bold(self.inlines(N::Bold)?));
                }
                other => return Err(format!("event {}: {other:?} in {n:?}", self.i)),
            }
        }
    }
    fn image(&mut self) -> R<Img> {
        self.take(EK::Start(N::Image))?;
        let (alt, src) = self.link()?;
        self.take(EK::End(N::Image))?;
        Ok(Img { alt, src })
    }
    fn trimmed(mut p: Vec<Inl>) -> Vec<Inl> {
        if let Some(Inl::Text(t)) = p.last_mut() {
            t.truncate(t.trim_end_matches(['\n', '\r']).len());
            if t.is_empty() {
                p.pop();
            }
        }
        p
    }
    fn list(&mut self, ordered: bool, level: usize) -> R<List> {
        let n = if ordered { N::OrderedList } else { N::UnorderedList };
        self.take(EK::Start(n))?;
        let mut items = vec![];
        loop {
            self.take(EK::Start(N::ListItem))?;
            self.take(EK::Start(N::Paragraph))?;
            let text = Self::trimmed(self.inlines(N::Paragraph)?);
            let nested = match self.peek() {
                Some(EK::Start(N::OrderedList)) => Some(self.list(true, level + 1)?),
                Some(EK::Start(N::UnorderedList)) => Some(self.list(false, level + 1)?),
                _ => None,
            };
            self.take(EK::End(N::ListItem))?;
            items.push(Item { text, nested });
            if self.peek() == Some(EK::End(n)) {
                self.i += 1;
                return Ok(List {
                    ordered,
                    level,
                    items,
                });
            }
        }
    }
    fn terminator(&mut self, s: &str) -> R<()> {
        let lf = s.replace("\r\n", "\n");
        if lf == "\n\n" {
            Ok(())
        } else {
            Err(format!("event {}: value {s:?} between blocks", self.i - 1))
        }
    }
    fn document(&mut self) -> R<Vec<Block>> {
        self.take(EK::Start(N::Document))?;
        let mut out = vec![];
        loop {
            let Some(k) = self.peek() else {
                return Err("stream ends inside a document".into());
            };
            let b = match k {
                EK::End(N::Document) => {
                    self.i += 1;
                    return Ok(out);
                }
                EK::Value => {
                    let s = self.take(EK::Value)?;
                    self.terminator(s)?;
                    continue;
                }
                EK::Start(N::Paragraph) => {
                    self.i += 1;
                    Block::Para(self.inlines(N::Paragraph)?)
                }
                EK::Start(N::Heading) => {
                    let s = self.take(EK::Start(N::Heading))?;
                    let level = s.len().saturating_sub(1);
                    if !(1..=6).contains(&level) || s != format!("{} ", "#".repeat(level)) {
                        return Err(format!("event {}: heading marker {s:?}", self.i - 1));
                    }
                    Block::Heading(level as u8, self.inlines(N::Heading)?)
                }
                EK::Start(N::Image) => Block::Image(self.image()?),
                EK::Start(N::Images) => {
                    self.i += 1;
                    let mut v = vec![];
                    while self.peek() == Some(EK::Start(N::Image)) {
                        v.push(self.image()?);
                    }
                    self.take(EK::End(N::Images))?;
                    if v.len() < 2 {
                        return Err(format!("event {}: gallery of {}", self.i - 1, v.len()));
                    }
                    Block::Images(v)
                }
                EK::Start(N::Code) => {
                    self.i += 1;
                    let lang = if self.peek() == Some(EK::Start(N::Modifier)) {
                        self.leaf(N::Modifier)?
                    } else {
                        String::new()
                    };
                    let code = self.take(EK::Value)?.trim_end_matches(['\n', '\r']).to_string();
                    self.take(EK::End(N::Code))?;
                    Block::Code(lang, code)
                }
                EK::Start(N::OrderedList) => Block::List(self.list(true, 0)?),
                EK::Start(N::UnorderedList) => Block::List(self.list(false, 0)?),
                EK::Start(N::ThematicBreak) => {
                    let s = self.leaf(N::ThematicBreak)?;
                    if s != "-----" {
                        return Err(format!("thematic break {s:?}"));
                    }
                    Block::Break
                }
                EK::Start(N::Embed) => {
                    self.i += 1;
                    let kind = self.take(EK::Value)?.to_string();
                    let sep = self.take(EK::Value)?;
                    if sep != "|" {
                        return Err(format!("embed separator {sep:?}"));
                    }
                    let args = self.take(EK::Value)?.to_string();
                    self.take(EK::End(N::Embed))?;
                    Block::Embed(kind, args)
                }
                EK::Start(N::Highlight) => {
                    self.i += 1;
                    let title = if self.peek() == Some(EK::Start(N::Modifier)) {
                        Some(self.leaf(N::Modifier)?)
                    } else {
                        None
                    };
                    let icon = if self.peek() == Some(EK::Start(N::Icon)) {
                        Some(self.leaf(N::Icon)?)
                    } else {
                        None
                    };
                    let mut ps = vec![];
                    loop {
                        match self.peek() {
                            Some(EK::Value) => {
                                let s = self.take(EK::Value)?;
                                self.terminator(s)?;
                            }
                            Some(EK::Start(N::Paragraph)) => {
                                self.i += 1;
                                let p = Self::trimmed(self.inlines(N::Paragraph)?);
                                if !p.is_empty() {
                                    ps.push(p);
                                }
                            }
                            _ => break,
                        }
                    }
                    self.take(EK::End(N::Highlight))?;
                    Block::Highlight(title, icon, ps)
                }
                EK::Start(N::Collapsible) => {
                    self.i += 1;
                    let title = if self.peek() == Some(EK::Start(N::Modifier)) {
                        self.leaf(N::Modifier)?
                    } else {
                        String::new()
                    };
                    let body = self.document()?;
                    self.take(EK::End(N::Collapsible))?;
                    Block::Collapsible(title, body)
                }
                other => return Err(format!("event {}: {other:?} in a document", self.i)),
            };
            out.push(b);
        }
    }
}

/// The document a stream describes, or why the stream is not grammatical.
pub fn fold(e: &[E]) -> R<Doc> {
    let mut c = Cur { e, i: 0 };
    let meta = if c.peek() == Some(EK::Start(N::Metadata)) {
        Some(c.leaf(N::Metadata)?.trim_matches(['\n', '\r']).to_string())
    } else {
        None
    };
    let body = c.document()?;
    if c.i != e.len() {
        return Err(format!("event {}: events after the document", c.i));
    }
    Ok(Doc { meta, body })
}
