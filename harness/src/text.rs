//! T*: the text of a buffer.
use crate::model::*;
use crate::sym::*;
use ced::editor::verif::*;
use ced::editor::{Buffer, BufferSource};
use std::path::{Path, PathBuf};

pub fn run(idx: usize, p: usize) {
    match idx {
        100 => edits(p),
        101 => edits_pieces(p),
        102 => repacked(p),
        103 => rejoined(p),
        400 => history(p),
        401 => history_lines(p),
        500 => diffed(p),
        501 => diffed_pieces(p),
        600 => opened(p),
        601 => reloaded(p),
        602 => unreadable(p),
        200 => lines(p, false),
        201 => lines(p, true),
        300 => coords(p),
        700 => moves(p),
        701 => positions(p),
        702 => moves_lines(p),
        _ => panic!("no such scenario"),
    }
}

/// One arbitrary edit applied to the table and to the reference string.
fn edit(t: &mut PieceTable, r: &mut Vec<u8>, max_ins: usize) {
    let kind = pick(4);
    match kind {
        0 => {
            let off = num(0, r.len());
            let s = ascii(range(0, max_ins));
            t.insert(off, s.clone());
            let off = conc(off);
            r.splice(off..off, s.into_bytes());
            cover("insert");
        }
        1 => {
            let s = ascii(range(0, max_ins));
            t.append(s.clone());
            r.extend(s.into_bytes());
            cover("append");
        }
        2 => {
            let a = num(0, r.len());
            let b = num(0, r.len());
            assume(a <= b);
            t.delete(&(a..b));
            let (a, b) = (conc(a), conc(b));
            r.drain(a..b);
            cover("delete");
        }
        _ => {
            let a = num(0, r.len());
            let b = num(0, r.len());
            assume(a <= b);
            let s = ascii(range(0, max_ins));
            t.replace(OffsetRange::new(a, b - a), s.clone());
            let (a, b) = (conc(a), conc(b));
            r.splice(a..b, s.into_bytes());
            cover("replace");
        }
    }
    let text = t.text();
    observe(text.as_bytes());
    check(text.as_bytes() == &r[..], "text after edit");
    check(t.len() == r.len(), "length after edit");
}

fn subrange(t: &PieceTable, r: &[u8]) {
    let a = num(0, r.len());
    let b = num(0, r.len());
    assume(a < b);
    let got = t.text_range(&(a..b));
    let (a, b) = (conc(a), conc(b));
    check(got.is_some() && got.unwrap().as_bytes() == &r[a..b], "text of a range");
}

fn edits(p: usize) {
    let s = ascii(range(0, 3));
    let mut r = s.clone().into_bytes();
    let mut t = if flag() { PieceTable::with_text(s) } else { r.clear(); PieceTable::new() };
    for _ in 0..p {
        edit(&mut t, &mut r, 2);
    }
    subrange(&t, &r);
}

fn edits_pieces(p: usize) {
    // several pieces from both buffers, the last made of two appends
    let mut t = PieceTable::with_text("abcdef".to_owned());
    let mut r = b"abcdef".to_vec();
    t.insert(2, "XY".to_owned());
    r.splice(2..2, b"XY".to_vec());
    t.insert(6, "Z".to_owned());
    r.splice(6..6, b"Z".to_vec());
    t.append("end".to_owned());
    r.extend(b"end");
    check(t.text().as_bytes() == &r[..], "text after edit");
    for _ in 0..p {
        edit(&mut t, &mut r, 1);
    }
    subrange(&t, &r);
}

/// Many small pieces, some of them contiguous in the underlying buffer, then a commit which packs
/// them, then another edit.
fn repacked(p: usize) {
    let mut t = PieceTable::new();
    let mut r: Vec<u8> = Vec::new();
    for i in 0..p {
        let s = vec![b'a' + (i % 26) as u8];
        let at = match pick(3) {
            0 => r.len(),
            1 => 0,
            _ => r.len() / 2,
        };
        let text = String::from_utf8(s.clone()).unwrap();
        if at == r.len() {
            t.append(text);
        } else {
            t.insert(at, text);
        }
        r.splice(at..at, s);
    }
    check(t.text().as_bytes() == &r[..], "text after inserts");
    let a = num(0, r.len());
    let b = num(0, r.len());
    assume(a < b);
    t.delete(&(a..b));
    let (a, b) = (conc(a), conc(b));
    r.drain(a..b);
    let text = t.text();
    check(text.as_bytes() == &r[..], "text after a packing edit");
    t.append("z".to_owned());
    r.push(b'z');
    let text = t.text();
    observe(text.as_bytes());
    check(text.as_bytes() == &r[..], "text after a packing edit");
    check(t.len() == r.len(), "length after a packing edit");
    cover("packed");
}

/// A text split by `p` insertions, some of which are deleted again, so that the next edit packs
/// several runs of contiguous pieces.
fn rejoined(p: usize) {
    let mut r: Vec<u8> = (0..=p as u8).map(|i| b'a' + i).collect();
    let mut t = PieceTable::with_text(String::from_utf8(r.clone()).unwrap());
    for i in 0..p {
        t.insert(2 * i + 1, "-".to_owned());
        r.insert(2 * i + 1, b'-');
    }
    check(t.text().as_bytes() == &r[..], "text after inserts");
    let mut at = 1;
    for _ in 0..p {
        if flag() {
            t.delete(&(at..at + 1));
            r.remove(at);
            at += 1;
        } else {
            at += 2;
        }
    }
    check(t.text().as_bytes() == &r[..], "text after deletes");
    let at = num(0, r.len());
    t.insert(at, "z".to_owned());
    let at = conc(at);
    r.insert(at, b'z');
    let text = t.text();
    observe(text.as_bytes());
    check(text.as_bytes() == &r[..], "text after a packing edit");
    check(t.len() == r.len(), "length after a packing edit");
    cover("packed");
}

/// A text of `n` characters of the given classes in a table, made by an edit or not, and its
/// reference. The edit is an insertion, a deletion or both at once, at character boundaries.
fn table(n: usize, classes: &[Class], edited: bool) -> (PieceTable, Vec<u8>) {
    let mut r = chars(n, classes);
    let mut t = PieceTable::with_text(string(&r));
    if edited {
        let at = boundaries(&r);
        match pick(3) {
            0 => {
                let a = at[pick(at.len())];
                let s = chars(range(1, 2), classes);
                t.insert(a, string(&s));
                r.splice(a..a, s);
                cover("insert");
            }
            1 => {
                let (i, j) = (num(0, at.len() - 1), num(0, at.len() - 1));
                assume(i < j);
                let (a, b) = (at[conc(i)], at[conc(j)]);
                t.delete(&(a..b));
                r.drain(a..b);
                cover("delete");
            }
            _ => {
                let (i, j) = (num(0, at.len() - 1), num(0, at.len() - 1));
                assume(i <= j);
                let (a, b) = (at[conc(i)], at[conc(j)]);
                let s = chars(range(0, 1), classes);
                t.replace(OffsetRange::new(a, b - a), string(&s));
                r.splice(a..b, s);
                cover("replace");
            }
        }
    }
    (t, r)
}

fn same(got: Option<String>, want: Option<&[u8]>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => a.as_bytes() == b,
        _ => false,
    }
}

fn lines(p: usize, edited: bool) {
    let n = range(0, p);
    let (t, r) = table(n, if edited { MIXED } else { ALL }, edited);
    let d = Doc::new(&r);
    observe_num(t.line_count());
    check(t.text().as_bytes() == &r[..], "text");
    check(t.line_count() == d.lines.len(), "number of lines");
    let l = num(0, d.lines.len() + 2);
    let (got, length) = (t.line_text(l), t.line_length(l));
    let l = conc(l);
    if l >= 1 && l <= d.lines.len() {
        observe(got.as_ref().unwrap().as_bytes());
        check(same(got, Some(d.line_text(l))), "text of a line");
        check(length == d.lines[l - 1].g.len(), "length of a line");
        cover("line");
    } else {
        check(got.is_none(), "text of a line that does not exist");
        check(length == 0, "length of a line that does not exist");
        cover("no line");
    }
    // all the lines at once
    let all = t.lines();
    let empty = r.is_empty();
    check(all.len() == if empty { 0 } else { d.lines.len() }, "lines");
    for (k, x) in all.iter().enumerate() {
        let want = d.line_text(k + 1);
        let cut = want.strip_suffix(b"\r").unwrap_or(want);
        let cut = if d.lines[k].nl { cut } else { want };
        check(x.as_bytes() == cut, "lines");
    }
    let mut longest = (0, 0);
    for (k, x) in d.lines.iter().enumerate() {
        if x.g.len() > longest.1 {
            longest = (k + 1, x.g.len());
        }
    }
    check(t.longest_line() == longest, "longest line");
    // between two positions
    let ps = d.positions();
    let (i, j) = (num(0, ps.len() - 1), num(0, ps.len() - 1));
    assume(i <= j);
    let (a, b) = (ps[conc(i)], ps[conc(j)]);
    if let (Some(x), Some(y)) = (d.offset(a.0, a.1), d.offset(b.0, b.1)) {
        let got = t.lines_range(a, b);
        let want = r[x..y].split_inclusive(|c| *c == b'\n');
        let mut k = 0;
        for w in want {
            let w = match w.strip_suffix(b"\n") {
                Some(w) => w.strip_suffix(b"\r").unwrap_or(w),
                None => w,
            };
            check(k < got.len() && got[k].as_bytes() == w, "lines between two positions");
            k += 1;
        }
        check(k == got.len(), "number of lines between two positions");
        cover("range");
    }
}

fn coords(p: usize) {
    let n = range(0, p);
    let (t, r) = table(n, WIDE, false);
    let d = Doc::new(&r);
    let off = num(0, r.len() + 1);
    let got = t.offset_to_coord(off).map(|c| (c.l, c.c));
    let off = conc(off);
    check(got == d.coord(off), "coordinates of an offset");
    let at = boundaries(&r);
    if let Some((l, c)) = got {
        cover("coordinates");
        observe_num(l);
        observe_num(c);
        if let Some(o) = t.coord_to_offset((l, c).into()) {
            // the start of the grapheme
            check(o <= off && at.contains(&o), "offset of coordinates of an offset");
            check(t.offset_to_coord(o).map(|c| (c.l, c.c)) == Some((l, c)) || r.is_empty(), "coordinates round trip");
        } else {
            check(false, "offset of coordinates of an offset");
        }
    }
    let l = num(1, d.lines.len() + 1);
    let c = num(0, p + 3);
    let got = t.coord_to_offset((l, c).into());
    let ch = t.char_at((l, c));
    let (l, c) = (conc(l), conc(c));
    check(got == d.offset(l, c), "offset of coordinates");
    check(same(ch, d.grapheme(l, c)), "character at coordinates");
    let last = t.max_coord();
    check(d.coord(r.len().saturating_sub(1)) == Some((last.l, last.c)), "last coordinates");
    // the character of any offset where one starts
    let o = at[pick(at.len())];
    let want = if o == r.len() { None } else { d.grapheme_at(o) };
    if let Some(want) = want {
        check(same(t.char_at_offset(o), Some(want)), "character at an offset");
    }
}

fn moves(p: usize) {
    let (steps, n) = (p / 10, range(1, p % 10));
    let (t, r) = table(n, WIDE, false);
    let d = Doc::new(&r);
    walk(&t, &d, steps);
}

fn walk(t: &PieceTable, d: &Doc, steps: usize) {
    let ps = d.positions();
    let (l, c) = ps[pick(ps.len())];
    let mut cur = Cur::at(l, c);
    let nv = t.navigate(Coords { l, c });
    check(nv.is_some(), "position accepted");
    let mut nv = nv.unwrap();
    for _ in 0..steps {
        let m = MOVES[pick(MOVES.len())];
        match m {
            Move::Left => nv.previous(),
            Move::Right => nv.next(),
            Move::Up => nv.previous_line(),
            Move::Down => nv.next_line(),
            Move::LineBegin => nv.line_begin(),
            Move::LineEnd => nv.line_end(),
            Move::Begin => nv.begin(),
            Move::End => nv.end(),
        };
        cur.go(d, m);
        let pos = nv.pos();
        observe_num(pos.offset);
        check((pos.coords.l, pos.coords.c) == (cur.l, cur.c), "coordinates after a move");
        check(Some(pos.offset) == d.offset(cur.l, cur.c), "offset after a move");
        check(same(pos.grapheme, d.grapheme(cur.l, cur.c)), "character after a move");
        check(nv.is_at_end() == ((cur.l, cur.c) == d.last()), "at the end");
        cover("moved");
    }
    // nothing outside the text is accepted
    check(t.navigate(Coords { l: d.lines.len() + 1, c: 1 }).is_none(), "position outside");
    check(t.navigate(Coords { l, c: d.lines[l - 1].g.len() + 2 }).is_none(), "position outside");
}

/// Texts of several lines of all shapes, and moves over them.
fn moves_lines(p: usize) {
    let (lines, steps) = (p / 10, p % 10);
    let mut r = vec![];
    for k in 0..lines {
        let shape: &[Class] = match pick(7) {
            0 => &[],
            1 => &[Class::Ascii],
            2 => &[Class::Two, Class::Ascii],
            3 => &[Class::Ascii, Class::Combining],
            4 => &[Class::Four, Class::Combining, Class::Ascii],
            5 => &[Class::Ascii, Class::Two, Class::Ascii],
            _ => &[Class::Ascii, Class::Ascii, Class::Ascii, Class::Ascii],
        };
        for c in shape {
            one(*c, &mut r);
        }
        if k + 1 < lines || flag() {
            r.push(b'\n');
        }
    }
    assume(!r.is_empty());
    let t = PieceTable::with_text(string(&r));
    let d = Doc::new(&r);
    walk(&t, &d, steps);
}

fn positions(p: usize) {
    let n = range(0, p);
    let (t, r) = table(n, WIDE, false);
    let d = Doc::new(&r);
    let ps = d.positions();
    let mut k = 0;
    for pos in PositionIterator::from(&t) {
        check(k < ps.len(), "number of positions");
        if k >= ps.len() {
            break;
        }
        let (l, c) = ps[k];
        check((pos.coords.l, pos.coords.c) == (l, c), "coordinates of a position");
        check(Some(pos.offset) == d.offset(l, c), "offset of a position");
        check(same(pos.grapheme, d.grapheme(l, c)), "character of a position");
        observe_num(pos.offset);
        k += 1;
    }
    check(k == ps.len(), "number of positions");
    cover("iterated");
}

/// The text and everything derived from it, against the reference.
fn agrees(t: &PieceTable, r: &[u8], tag: &str) {
    let text = t.text();
    observe(text.as_bytes());
    check(text.as_bytes() == r, tag);
    check(t.len() == r.len(), tag);
    let d = Doc::new(r);
    check(t.line_count() == d.lines.len(), tag);
    for k in 0..d.lines.len() {
        check(same(t.line_text(k + 1), Some(d.line_text(k + 1))), tag);
    }
    check(t.line_text(d.lines.len() + 1).is_none(), tag);
}

#[derive(Clone, Copy, PartialEq)]
enum Group {
    Insert,
    Delete,
    None,
}

/// A history of edits, undos and redos. Consecutive insertions are one step, and so are
/// consecutive deletions.
fn history(p: usize) {
    let (steps, n) = (p / 10, p % 10);
    let mut r = chars(range(0, n), MIXED);
    let mut t = PieceTable::with_text(string(&r));
    let mut undos: Vec<Vec<u8>> = vec![];
    let mut redos: Vec<Vec<u8>> = vec![];
    let mut group = Group::None;
    let mut begin = |g: Group, group: &mut Group, r: &Vec<u8>, undos: &mut Vec<Vec<u8>>, redos: &mut Vec<Vec<u8>>| {
        if g == Group::None || *group != g {
            undos.push(r.clone());
            redos.clear();
        }
        *group = g;
    };
    for _ in 0..steps {
        let at = boundaries(&r);
        match pick(6) {
            0 => {
                let a = at[pick(at.len())];
                let s = chars(1, MIXED);
                begin(Group::Insert, &mut group, &r, &mut undos, &mut redos);
                t.insert(a, string(&s));
                r.splice(a..a, s);
                cover("insert");
            }
            1 => {
                let s = chars(1, PLAIN);
                begin(Group::Insert, &mut group, &r, &mut undos, &mut redos);
                t.append(string(&s));
                r.extend(s);
            }
            2 => {
                if r.is_empty() {
                    continue;
                }
                let (i, j) = (num(0, at.len() - 1), num(0, at.len() - 1));
                assume(i < j);
                let (a, b) = (at[conc(i)], at[conc(j)]);
                begin(Group::Delete, &mut group, &r, &mut undos, &mut redos);
                t.delete(&(a..b));
                r.drain(a..b);
                cover("delete");
            }
            3 => {
                let (i, j) = (num(0, at.len() - 1), num(0, at.len() - 1));
                assume(i <= j);
                let (a, b) = (at[conc(i)], at[conc(j)]);
                let s = b"r\n".to_vec();
                begin(Group::None, &mut group, &r, &mut undos, &mut redos);
                t.replace(OffsetRange::new(a, b - a), string(&s));
                r.splice(a..b, s);
                cover("replace");
            }
            4 => {
                let done = t.verif_undo();
                check(done == !undos.is_empty(), "something to undo");
                if let Some(x) = undos.pop() {
                    redos.push(std::mem::replace(&mut r, x));
                    group = Group::None;
                    cover("undo");
                }
                agrees(&t, &r, "after undo");
                continue;
            }
            _ => {
                let done = t.verif_redo();
                check(done == !redos.is_empty(), "something to redo");
                if let Some(x) = redos.pop() {
                    undos.push(std::mem::replace(&mut r, x));
                    group = Group::None;
                    cover("redo");
                }
                agrees(&t, &r, "after redo");
                continue;
            }
        }
        check(t.text().as_bytes() == &r[..], "after an edit");
    }
    agrees(&t, &r, "at the end");
    // all the way back, then all the way forth
    while let Some(x) = undos.pop() {
        check(t.verif_undo(), "something to undo");
        redos.push(std::mem::replace(&mut r, x));
        agrees(&t, &r, "after undo");
    }
    check(!t.verif_undo(), "nothing left to undo");
    while let Some(x) = redos.pop() {
        check(t.verif_redo(), "something to redo");
        r = x;
        agrees(&t, &r, "after redo");
    }
    check(!t.verif_redo(), "nothing left to redo");
}

/// Edits, then everything undone and redone one by one.
fn history_lines(p: usize) {
    let mut r = chars(2, MIXED);
    let mut t = PieceTable::with_text(string(&r));
    let mut states = vec![r.clone()];
    let mut last = 9;
    for _ in 0..p {
        let at = boundaries(&r);
        let kind = pick(4);
        match kind {
            0 => {
                let a = at[pick(at.len())];
                let s = chars(1, MIXED);
                t.insert(a, string(&s));
                r.splice(a..a, s);
            }
            1 => {
                if r.is_empty() {
                    continue;
                }
                let (i, j) = (num(0, at.len() - 1), num(0, at.len() - 1));
                assume(i < j);
                let (a, b) = (at[conc(i)], at[conc(j)]);
                t.delete(&(a..b));
                r.drain(a..b);
            }
            2 => {
                let a = at[pick(at.len())];
                t.replace(OffsetRange::new(a, r.len() - a), "\n".to_owned());
                r.truncate(a);
                r.push(b'\n');
            }
            _ => {
                let s = chars(2, PLAIN);
                if s == r {
                    continue;
                }
                t.apply_diff(&string(&s));
                r = s;
                cover("diff");
            }
        }
        agrees(&t, &r, "after an edit");
        if kind == last && kind < 2 {
            states.pop();
        }
        last = kind;
        states.push(r.clone());
    }
    let n = states.len();
    for k in (0..n - 1).rev() {
        check(t.verif_undo(), "an edit to undo");
        agrees(&t, &states[k], "after undo");
        cover("undo");
    }
    check(!t.verif_undo(), "nothing left to undo");
    for k in 1..n {
        check(t.verif_redo(), "an edit to redo");
        agrees(&t, &states[k], "after redo");
        cover("redo");
    }
    check(!t.verif_redo(), "nothing left to redo");
}

fn diffed(p: usize) {
    let (n, m) = (p / 10, p % 10);
    let r = chars(range(0, n), MIXED);
    let mut t = PieceTable::with_text(string(&r));
    let w = chars(range(0, m), MIXED);
    t.apply_diff(&string(&w));
    agrees(&t, &w, "after applying a new text");
    cover("diff");
    if w == r {
        // whether that counts as a step is left open
        return;
    }
    // a step of its own, which later edits do not join
    if flag() {
        let at = boundaries(&w);
        let mut x = w.clone();
        let a = at[pick(at.len())];
        if flag() && a < w.len() {
            let b = at[at.iter().position(|o| *o == a).unwrap() + 1];
            t.delete(&(a..b));
            x.drain(a..b);
        } else {
            t.insert(a, "k".to_owned());
            x.insert(a, b'k');
        }
        agrees(&t, &x, "an edit after a new text");
        check(t.verif_undo(), "undo of an edit after a new text");
        agrees(&t, &w, "undo of an edit after a new text");
        cover("edited");
    }
    check(t.verif_undo(), "undo of a new text");
    agrees(&t, &r, "undo of a new text");
    check(!t.verif_undo(), "undo of a new text is one step");
    check(t.verif_redo(), "redo of a new text");
    agrees(&t, &w, "redo of a new text");
}

/// The same on a text of several pieces, twice.
fn diffed_pieces(p: usize) {
    let (n, m) = (p / 10, p % 10);
    let (mut t, r) = table(n, MIXED, true);
    let w = chars(range(0, m), WIDE);
    t.apply_diff(&string(&w));
    agrees(&t, &w, "after applying a new text");
    let x = chars(range(0, 1), PLAIN);
    t.apply_diff(&string(&x));
    agrees(&t, &x, "after applying a new text");
    cover("diff");
    if x != w && w != r {
        check(t.verif_undo(), "undo of a new text");
        agrees(&t, &w, "undo of a new text");
        check(t.verif_undo(), "undo of a new text");
        agrees(&t, &r, "undo of a new text");
    }
}

/// What a buffer of a file holds.
fn filed(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.last() != Some(&b'\n') {
        v.push(b'\n');
    }
    v
}

fn opened(p: usize) {
    let b = chars(range(0, p), ALL);
    file("some/name", &b);
    let relative = flag();
    let path = PathBuf::from(format!("{}/some/name", DIR));
    let buf = if relative {
        cover("relative");
        Buffer::open(Path::new("some/../some/name"))
    } else {
        Buffer::open(&path)
    };
    check(buf.is_ok(), "a readable file opens");
    let buf = match buf {
        Ok(b) => b,
        Err(_) => return,
    };
    check(buf.source == BufferSource::File(path), "the file of a buffer");
    agrees(&buf.content, &filed(&b), "content of a file");
    check(buf.to_string().as_bytes() == &filed(&b)[..], "content of a file");
    check(buf.line_count() == Doc::new(&filed(&b)).lines.len(), "lines of a file");
    cover("opened");
}

fn reloaded(p: usize) {
    let (n, m) = (p / 10, p % 10);
    let b = chars(range(0, n), MIXED);
    file("name", &b);
    let path = PathBuf::from(format!("{}/name", DIR));
    let mut buf = match Buffer::open(&path) {
        Ok(b) => b,
        Err(_) => return check(false, "a readable file opens"),
    };
    // nothing changed
    let again = buf.load_from_disk();
    check(again.map_or(false, |x| !x), "an unchanged file is not loaded again");
    agrees(&buf.content, &filed(&b), "content of a file");
    let edited = flag();
    let mut r = filed(&b);
    if edited {
        let s = chars(1, MIXED);
        buf.append(string(&s));
        r.extend(s);
        agrees(&buf.content, &r, "content of a file after an edit");
        let again = buf.load_from_disk();
        check(again.map_or(false, |x| !x), "an unchanged file is not loaded again");
        agrees(&buf.content, &r, "an unchanged file keeps edits");
        cover("edited");
    }
    let w = chars(range(0, m), MIXED);
    file("name", &w);
    let again = buf.load_from_disk();
    check(again.map_or(false, |x| x), "a changed file is loaded again");
    agrees(&buf.content, &filed(&w), "content of a changed file");
    cover("reloaded");
    let again = buf.load_from_disk();
    check(again.map_or(false, |x| !x), "an unchanged file is not loaded again");
    // the file goes away
    unfile("name");
    let again = buf.load_from_disk();
    check(again.is_err(), "a missing file is an error");
    agrees(&buf.content, &filed(&w), "content kept");
}

/// Files which cannot be read, or are no text.
fn unreadable(p: usize) {
    match pick(4) {
        0 => {
            let r = Buffer::open(Path::new("nothing"));
            check(r.is_err(), "a missing file is an error");
            let r = Buffer::open(&PathBuf::from(format!("{}/nothing", DIR)));
            check(r.is_err(), "a missing file is an error");
            cover("missing");
        }
        1 => {
            // any bytes
            let b: Vec<u8> = (0..range(1, p)).map(|_| byte(0, 255)).collect();
            file("name", &b);
            let valid = std::str::from_utf8(&b).is_ok();
            let r = Buffer::open(Path::new("name"));
            check(r.is_ok() == valid, "only UTF-8 is accepted");
            if let Ok(buf) = r {
                check(buf.content.text().as_bytes() == &filed(&b)[..], "content of a file");
                cover("text");
            } else {
                cover("no text");
            }
        }
        2 => {
            file("name", b"ok\n");
            let mut buf = match Buffer::open(Path::new("name")) {
                Ok(b) => b,
                Err(_) => return check(false, "a readable file opens"),
            };
            let b: Vec<u8> = (0..range(1, p)).map(|_| byte(0, 255)).collect();
            file("name", &b);
            let valid = std::str::from_utf8(&b).is_ok();
            let r = buf.load_from_disk();
            check(r.is_ok() == valid, "only UTF-8 is accepted");
            if valid {
                check(buf.content.text().as_bytes() == &filed(&b)[..], "content of a file");
            } else {
                check(buf.content.text() == "ok\n", "content kept");
            }
        }
        _ => {
            // scratch buffers have no file
            let b = chars(range(0, p), MIXED);
            let mut buf = Buffer::new_scratch("*x*".to_owned(), string(&b));
            let r = buf.load_from_disk();
            check(r.map_or(false, |x| x), "a scratch buffer is always loaded");
            let want = if b.is_empty() { b"\n".to_vec() } else { b };
            agrees(&buf.content, &want, "content of a scratch buffer");
            cover("scratch");
        }
    }
}
