//! Reference lexer, written from the documentation of the token kinds: first the input is turned into cells
//! (character, escaped or not, place), then the cells are grouped.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Term,
    Eol,
    LCurly,
    RCurly,
    CollStart,
    CollEnd,
    Tilde,
    Star,
    Space,
    Minus,
    Hash,
    Gt,
    Bang,
    Tick,
    Plus,
    LSq,
    RSq,
    LPar,
    RPar,
    Under,
    Pipe,
    Lit,
}

impl K {
    pub fn of(k: &yamd::lexer::TokenKind) -> K {
        use yamd::lexer::TokenKind as T;
        match k {
            T::Terminator => K::Term,
            T::Eol => K::Eol,
            T::LeftCurlyBrace => K::LCurly,
            T::RightCurlyBrace => K::RCurly,
            T::CollapsibleStart => K::CollStart,
            T::CollapsibleEnd => K::CollEnd,
            T::Tilde => K::Tilde,
            T::Star => K::Star,
            T::Space => K::Space,
            T::Minus => K::Minus,
            T::Hash => K::Hash,
            T::GreaterThan => K::Gt,
            T::Bang => K::Bang,
            T::Backtick => K::Tick,
            T::Plus => K::Plus,
            T::LeftSquareBracket => K::LSq,
            T::RightSquareBracket => K::RSq,
            T::LeftParenthesis => K::LPar,
            T::RightParenthesis => K::RPar,
            T::Underscore => K::Under,
            T::Pipe => K::Pipe,
            T::Literal => K::Lit,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            K::Term => "Terminator",
            K::Eol => "Eol",
            K::LCurly => "LeftCurlyBrace",
            K::RCurly => "RightCurlyBrace",
            K::CollStart => "CollapsibleStart",
            K::CollEnd => "CollapsibleEnd",
            K::Tilde => "Tilde",
            K::Star => "Star",
            K::Space => "Space",
            K::Minus => "Minus",
            K::Hash => "Hash",
            K::Gt => "GreaterThan",
            K::Bang => "Bang",
            K::Tick => "Backtick",
            K::Plus => "Plus",
            K::LSq => "LeftSquareBracket",
            K::RSq => "RightSquareBracket",
            K::LPar => "LeftParenthesis",
            K::RPar => "RightParenthesis",
            K::Under => "Underscore",
            K::Pipe => "Pipe",
            K::Lit => "Literal",
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cell {
    pub c: char,
    pub esc: bool,
    pub start: usize,
    pub end: usize,
    pub row: usize,
    pub col: usize,
}

pub fn cells(s: &str) -> Vec<Cell> {
    let mut out = Vec::with_capacity(s.len());
    let mut it = s.char_indices();
    let (mut row, mut col) = (0, 0);
    while let Some((at, c)) = it.next() {
        let (start, c, esc) = if c == '\\' {
            match it.next() {
                Some((at, c)) => (at, c, true),
                None => break,
            }
        } else {
            (at, c, false)
        };
        out.push(Cell {
            c,
            esc,
            start,
            end: start + c.len_utf8(),
            row,
            col,
        });
        if c == '\n' && !esc {
            row += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
    pub row: usize,
    pub col: usize,
    pub esc: bool,
}

impl Tok {
    pub fn len(&self) -> usize {
        self.end - self.start
    }
}

fn run_kind(c: char) -> Option<K> {
    Some(match c {
        '~' => K::Tilde,
        '*' => K::Star,
        '{' => K::LCurly,
        '}' => K::RCurly,
        '-' => K::Minus,
        '#' => K::Hash,
        '>' => K::Gt,
        '!' => K::Bang,
        '`' => K::Tick,
        '+' => K::Plus,
        _ => return None,
    })
}

fn single_kind(c: char) -> Option<K> {
    Some(match c {
        '[' => K::LSq,
        ']' => K::RSq,
        '(' => K::LPar,
        ')' => K::RPar,
        '_' => K::Under,
        '|' => K::Pipe,
        _ => return None,
    })
}

pub fn lex(s: &str) -> Vec<Tok> {
    let cs = cells(s);
    let plain = |i: usize, c: char| i < cs.len() && !cs[i].esc && cs[i].c == c;
    // an unescaped CR directly before an unescaped LF belongs to that line break
    let eol_len = |i: usize| {
        if plain(i, '\n') {
            1
        } else if plain(i, '\r') && plain(i + 1, '\n') {
            2
        } else {
            0
        }
    };
    let special_len = |i: usize| -> Option<(K, usize)> {
        if cs[i].esc {
            return None;
        }
        if eol_len(i) > 0 {
            return Some((K::Eol, eol_len(i)));
        }
        if plain(i, '{') && plain(i + 1, '%') {
            return Some((K::CollStart, 2));
        }
        if plain(i, '%') && plain(i + 1, '}') {
            return Some((K::CollEnd, 2));
        }
        if let Some(k) = run_kind(cs[i].c) {
            let mut n = 1;
            while plain(i + n, cs[i].c) {
                n += 1;
            }
            return Some((k, n));
        }
        single_kind(cs[i].c).map(|k| (k, 1))
    };
    let mut out: Vec<Tok> = Vec::new();
    let mut push = |k: K, i: usize, n: usize| {
        out.push(Tok {
            k,
            start: cs[i].start,
            end: cs[i + n - 1].end,
            row: cs[i].row,
            col: cs[i].col,
            esc: cs[i].esc,
        })
    };
    let mut i = 0;
    while i < cs.len() {
        if let Some((K::Eol, n)) = special_len(i) {
            // pairs of line breaks
            let m = if i + n < cs.len() { eol_len(i + n) } else { 0 };
            if m > 0 {
                push(K::Term, i, n + m);
                i += n + m;
            } else {
                push(K::Eol, i, n);
                i += n;
            }
        } else if let Some((k, n)) = special_len(i) {
            push(k, i, n);
            i += n;
        } else if plain(i, ' ') {
            let mut n = 1;
            while plain(i + n, ' ') {
                n += 1;
            }
            push(K::Space, i, n);
            i += n;
        } else {
            let mut n = 1;
            while i + n < cs.len() && !cs[i + n].esc && special_len(i + n).is_none() {
                n += 1;
            }
            push(K::Lit, i, n);
            i += n;
        }
    }
    out
}
