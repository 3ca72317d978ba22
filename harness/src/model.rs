//! Reference models, written without the code under test.
use crate::sym::*;

/// The characters symbolic texts are made of. Bytes are symbolic within a class; the class is
/// chosen per character, one path each.
#[derive(Clone, Copy, PartialEq)]
pub enum Class {
    Ascii,
    Newline,
    Two,
    Combining,
    Four,
    Cr,
}
use Class::*;

pub const PLAIN: &[Class] = &[Ascii, Newline];
pub const WIDE: &[Class] = &[Ascii, Newline, Two, Combining, Four];
pub const MIXED: &[Class] = &[Ascii, Newline, Two];
pub const ALL: &[Class] = &[Ascii, Newline, Two, Combining, Four, Cr];

pub fn one(c: Class, out: &mut Vec<u8>) {
    match c {
        Ascii => out.push(byte(0x20, 0x7e)),
        Newline => out.push(b'\n'),
        Two => out.extend([0xc3, byte(0x80, 0xbf)]),
        Combining => out.extend([0xcc, byte(0x80, 0xbf)]),
        Four => out.extend([0xf0, 0x9f, 0xa6, byte(0x80, 0xbf)]),
        Cr => out.push(b'\r'),
    }
}

/// `n` characters of the given classes.
pub fn chars(n: usize, classes: &[Class]) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let c = classes[pick(classes.len())];
        one(c, &mut v);
    }
    v
}

pub fn string(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// `n` printable ASCII characters.
pub fn ascii(n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|_| byte(0x20, 0x7e)).collect();
    string(&b)
}

/// The offsets at which characters start, and the end.
pub fn boundaries(b: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for (i, x) in b.iter().enumerate() {
        if *x < 0x80 || *x >= 0xc0 {
            v.push(i);
        }
    }
    v.push(b.len());
    v
}

#[derive(Clone, Debug)]
pub struct Line {
    pub start: usize,
    /// offset and length of each grapheme, without the newline
    pub g: Vec<(usize, usize)>,
    pub nl: bool,
}

impl Line {
    pub fn end(&self) -> usize {
        self.g.last().map_or(self.start, |(o, n)| o + n)
    }
    /// The last column the cursor can take.
    pub fn max_col(&self) -> usize {
        if self.nl {
            self.g.len() + 1
        } else {
            self.g.len().max(1)
        }
    }
}

/// A text, its lines and graphemes.
#[derive(Clone)]
pub struct Doc {
    pub b: Vec<u8>,
    pub lines: Vec<Line>,
}

fn width(b: u8) -> usize {
    if b < 0x80 {
        1
    } else if b < 0xe0 {
        2
    } else {
        4
    }
}

impl Doc {
    pub fn new(b: &[u8]) -> Doc {
        let mut lines = vec![];
        let mut cur = Line { start: 0, g: vec![], nl: false };
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\n' {
                cur.nl = true;
                lines.push(cur);
                cur = Line { start: i + 1, g: vec![], nl: false };
                i += 1;
                continue;
            }
            let w = width(b[i]);
            let attach = b[i] == 0xcc && cur.g.last().map_or(false, |(o, _)| b[*o] != b'\r');
            if attach {
                cur.g.last_mut().unwrap().1 += w;
            } else {
                cur.g.push((i, w));
            }
            i += w;
        }
        if lines.is_empty() || cur.start < b.len() {
            lines.push(cur);
        }
        Doc { b: b.to_vec(), lines }
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn line_text(&self, l: usize) -> &[u8] {
        let x = &self.lines[l - 1];
        &self.b[x.start..x.end()]
    }
    pub fn coord(&self, off: usize) -> Option<(usize, usize)> {
        if off == 0 {
            return Some((1, 1));
        }
        if off >= self.b.len() {
            return None;
        }
        for (k, l) in self.lines.iter().enumerate() {
            if off < l.start || off > l.end() {
                continue;
            }
            if off == l.end() {
                return Some((k + 1, l.g.len() + 1));
            }
            let c = l.g.iter().filter(|(o, _)| *o <= off).count();
            return Some((k + 1, c));
        }
        None
    }
    pub fn offset(&self, l: usize, c: usize) -> Option<usize> {
        let x = self.lines.get(l.checked_sub(1)?)?;
        if c == x.g.len() + 1 {
            return Some(x.end());
        }
        x.g.get(c.checked_sub(1)?).map(|(o, _)| *o)
    }
    pub fn grapheme(&self, l: usize, c: usize) -> Option<&[u8]> {
        let x = self.lines.get(l.checked_sub(1)?)?;
        if c == x.g.len() + 1 {
            return if x.nl { Some(b"\n") } else { None };
        }
        x.g.get(c.checked_sub(1)?).map(|(o, n)| &self.b[*o..*o + *n])
    }
    pub fn grapheme_at(&self, off: usize) -> Option<&[u8]> {
        if off < self.b.len() && self.b[off] == b'\n' {
            return Some(b"\n");
        }
        for l in &self.lines {
            for (o, n) in &l.g {
                if *o == off {
                    return Some(&self.b[*o..*o + *n]);
                }
            }
        }
        None
    }
    /// The last position the cursor can take.
    pub fn last(&self) -> (usize, usize) {
        let n = self.lines.len();
        (n, self.lines[n - 1].max_col())
    }
    /// Every position the cursor can take.
    pub fn positions(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (k, l) in self.lines.iter().enumerate() {
            for c in 1..=l.max_col() {
                v.push((k + 1, c));
            }
        }
        v
    }
    /// Where the grapheme at a position ends.
    pub fn after(&self, off: usize) -> usize {
        if off < self.b.len() && self.b[off] == b'\n' {
            return off + 1;
        }
        for l in &self.lines {
            for (o, n) in &l.g {
                if *o <= off && off < o + n {
                    return o + n;
                }
            }
        }
        self.b.len()
    }
}

/// A cursor moving over a text.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cur {
    pub l: usize,
    pub c: usize,
    pub target: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Move {
    Left,
    Right,
    Up,
    Down,
    LineBegin,
    LineEnd,
    Begin,
    End,
}

pub const MOVES: &[Move] = &[
    Move::Left,
    Move::Right,
    Move::Up,
    Move::Down,
    Move::LineBegin,
    Move::LineEnd,
    Move::Begin,
    Move::End,
];

impl Cur {
    pub fn at(l: usize, c: usize) -> Cur {
        Cur { l, c, target: c }
    }
    pub fn go(&mut self, d: &Doc, m: Move) {
        let line = &d.lines[self.l - 1];
        let horizontal = !matches!(m, Move::Up | Move::Down);
        match m {
            Move::Left => {
                // a horizontal move which leads nowhere keeps the column to return to
                if (self.l, self.c) == (1, 1) {
                    return;
                }
                if self.c > 1 {
                    self.c -= 1;
                } else if self.l > 1 {
                    self.l -= 1;
                    self.c = d.lines[self.l - 1].g.len() + 1;
                }
            }
            Move::Right => {
                if (self.l, self.c) == d.last() {
                    return;
                }
                if self.c > line.g.len() {
                    self.l += 1;
                    self.c = 1;
                } else {
                    self.c += 1;
                }
            }
            Move::Up => {
                if self.l > 1 {
                    self.l -= 1;
                }
            }
            Move::Down => {
                if self.l < d.lines.len() {
                    self.l += 1;
                }
            }
            Move::LineBegin => self.c = 1,
            Move::LineEnd => self.c = line.g.len().max(1),
            Move::Begin => {
                self.l = 1;
                self.c = 1;
            }
            Move::End => {
                let (l, c) = d.last();
                self.l = l;
                self.c = c;
            }
        }
        if horizontal {
            self.target = self.c;
        } else {
            self.c = self.target.min(d.lines[self.l - 1].max_col());
        }
    }
}
