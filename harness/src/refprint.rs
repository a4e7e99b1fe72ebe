//! Reference printer: writes a document so that the grammar reads it back, by escaping every markup character of every
//! text. Which optional escapes, line breaks, blank lines and line-break styles are used is drawn from the tape.
use crate::ast::*;
use crate::tape::Src;

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// percentage of ordinary characters that get a needless escape
    pub escape: usize,
    /// percentage of line breaks of texts that are written unescaped where that is possible
    pub soft: usize,
    /// percentage of block separators with additional blank lines
    pub blank: usize,
    /// percentage of blocks ending in their own closing line that are not followed by a blank line
    pub tight: usize,
    /// percentage of structural line breaks written as CRLF
    pub crlf: usize,
    /// percentage of absent titles written in their other possible form
    pub named: usize,
}

pub const MINIMAL: Style = Style { escape: 0, soft: 100, blank: 0, tight: 0, crlf: 0, named: 0 };

struct Pr<'a, 'b> {
    out: String,
    st: Style,
    s: &'a mut Src<'b>,
}

pub fn print(d: &Doc, st: Style, s: &mut Src) -> String {
    let mut p = Pr { out: String::new(), st, s };
    if let Some(m) = &d.meta {
        p.out.push_str("---");
        p.nl();
        p.text(m, Slot::Meta, true);
        p.nl();
        p.out.push_str("---");
        if !d.body.is_empty() || p.pct(50) {
            p.nl();
            p.nl();
        }
    }
    p.blocks(&d.body);
    p.out
}

#[derive(Clone, Copy, PartialEq)]
enum Slot {
    /// may span lines
    Multi,
    /// the rest of a line
    Line,
    Meta,
    /// body of a code block
    Code,
}

impl Pr<'_, '_> {
    fn pct(&mut self, p: usize) -> bool {
        p >= 100 || (p > 0 && self.s.chance(p, 100))
    }
    fn nl(&mut self) {
        let crlf = self.pct(self.st.crlf);
        self.out.push_str(if crlf { "\r\n" } else { "\n" });
    }

    /// `text` with every markup character escaped; `lead`: a leading space would belong to the marker before it.
    fn text(&mut self, t: &str, slot: Slot, lead: bool) {
        let cs: Vec<char> = t.chars().collect();
        let mut before_soft = false; // the previous character was an unescaped line break
        for (i, &c) in cs.iter().enumerate() {
            let first = i == 0;
            let last = i + 1 == cs.len();
            let soft = match c {
                // a lone line break inside a text that may span lines
                '\n' => {
                    slot != Slot::Line && !first && !last && !before_soft && !(cs[i - 1] == '\r') && cs[i + 1] != '\r'
                }
                ' ' => !(first && lead),
                _ => false,
            };
            let must = match c {
                '\n' | '\r' | '\\' | '~' | '*' | '{' | '}' | '%' | '-' | '#' | '>' | '!' | '`' | '+' | '[' | ']' | '(' | ')' | '_' | '|' => true,
                ' ' => first && lead,
                _ => false,
            };
            let escape = if soft {
                if c == '\n' {
                    let p = self.st.soft;
                    !self.pct(p)
                } else {
                    let p = self.st.escape;
                    self.pct(p)
                }
            } else if must {
                true
            } else {
                let p = self.st.escape;
                self.pct(p)
            };
            if escape {
                self.out.push('\\');
            }
            self.out.push(c);
            before_soft = c == '\n' && !escape;
        }
    }

    fn inls(&mut self, v: &[Inl], lead: bool) {
        for (i, n) in v.iter().enumerate() {
            match n {
                Inl::Text(t) => self.text(t, Slot::Multi, lead && i == 0),
                Inl::Bold(b) => self.wrapped("**", "**", |p| p.inls(b, false)),
                Inl::Italic(t) => self.wrapped("_", "_", |p| p.text(t, Slot::Multi, false)),
                Inl::Strike(t) => self.wrapped("~~", "~~", |p| p.text(t, Slot::Multi, false)),
                Inl::CodeSpan(t) => self.wrapped("`", "`", |p| p.text(t, Slot::Multi, false)),
                Inl::Emph(t) => self.wrapped("*", "*", |p| p.text(t, Slot::Multi, false)),
                Inl::Anchor(a, b) => self.link(a, b),
            }
        }
    }
    fn wrapped(&mut self, a: &str, b: &str, f: impl FnOnce(&mut Self)) {
        self.out.push_str(a);
        f(self);
        self.out.push_str(b);
    }
    fn link(&mut self, a: &str, b: &str) {
        self.wrapped("[", "]", |p| p.text(a, Slot::Multi, false));
        self.wrapped("(", ")", |p| p.text(b, Slot::Multi, false));
    }
    fn image(&mut self, i: &Img) {
        self.out.push('!');
        self.link(&i.alt, &i.src);
    }
    fn list(&mut self, l: &List) {
        for (i, it) in l.items.iter().enumerate() {
            if i > 0 {
                self.nl();
            }
            self.out.push_str(&" ".repeat(l.level));
            self.out.push_str(if l.ordered { "+ " } else { "- " });
            self.inls(&it.text, true);
            if let Some(n) = &it.nested {
                self.nl();
                self.list(n);
            }
        }
    }
    fn blocks(&mut self, bs: &[Block]) {
        for (i, b) in bs.iter().enumerate() {
            let own_end = self.block(b);
            if i + 1 < bs.len() {
                self.nl();
                let (tight, blank) = (self.st.tight, self.st.blank);
                if own_end && self.pct(tight) {
                    continue;
                }
                self.nl();
                if self.pct(blank) {
                    for _ in 0..1 + self.s.below(3) {
                        self.nl();
                        self.nl();
                    }
                }
            }
        }
    }
    /// Prints a block; true if it ends in a closing marker of its own, after which a line break suffices.
    fn block(&mut self, b: &Block) -> bool {
        match b {
            Block::Para(p) => self.inls(p, true),
            Block::Heading(l, p) => {
                self.out.push_str(&"#".repeat(*l as usize));
                self.out.push(' ');
                self.inls(p, true);
            }
            Block::Image(i) => self.image(i),
            Block::Images(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.nl();
                    }
                    self.image(x);
                }
            }
            Block::Code(l, c) => {
                self.out.push_str("```");
                self.text(l, Slot::Line, false);
                self.nl();
                self.text(c, Slot::Code, false);
                self.nl();
                self.out.push_str("```");
                return true;
            }
            Block::List(l) => self.list(l),
            Block::Highlight(t, i, ps) => {
                self.out.push_str("!!");
                if let Some(t) = t {
                    self.out.push(' ');
                    self.text(t, Slot::Line, true);
                }
                self.nl();
                if let Some(i) = i {
                    self.out.push_str("! ");
                    self.text(i, Slot::Line, true);
                    self.nl();
                }
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        self.nl();
                        self.nl();
                    }
                    self.inls(p, true);
                }
                if !ps.is_empty() {
                    self.nl();
                }
                self.out.push_str("!!");
                return true;
            }
            Block::Break => self.out.push_str("-----"),
            Block::Embed(k, a) => {
                self.out.push_str("{{");
                self.text(k, Slot::Multi, false);
                self.out.push('|');
                self.text(a, Slot::Multi, false);
                self.out.push_str("}}");
                return true;
            }
            Block::Collapsible(t, b) => {
                self.out.push_str("{%");
                let named = self.st.named;
                if !(t.is_empty() && self.pct(named)) {
                    self.out.push(' ');
                    self.text(t, Slot::Line, true);
                }
                self.nl();
                if !b.is_empty() {
                    self.blocks(b);
                    self.nl();
                }
                self.out.push_str("%}");
                return true;
            }
        }
        false
    }
}
