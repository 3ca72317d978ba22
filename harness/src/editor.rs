//! The editor: clients, views, selections, notifications.
use crate::model::*;
use crate::sym::*;
use async_channel::{unbounded, Receiver};
use ced::editor::verif::{ClientState, CursorTarget};
use ced::editor::verif::Selection;
use ced::editor::view::{Focus, Lens, View};
use ced::editor::{Buffer, Editor};
use ced::server::BroadcastMessage;
use ced_remote::jsonrpc::{Id, Response};
use ced_remote::protocol::notifications::*;
use ced_remote::protocol::{Face, Text};
use std::collections::{BTreeMap, HashMap};

pub fn run(idx: usize, p: usize) {
    match idx {
        1000 => start(p),
        1010 => delete(p),
        1011 => delete_more(p),
        1020 => moves(p),
        1021 => moves_views(p),
        1030 => shown(p),
        1031 => focused(p),
        1040 => lifecycle(p),
        _ => panic!("no such scenario"),
    }
}

pub struct Ed {
    pub e: Editor,
    pub rx: Receiver<BroadcastMessage>,
}

pub const IDS: std::ops::Range<usize> = 0..8;

pub struct Sent {
    pub to: Vec<usize>,
    pub method: String,
    pub bm: BroadcastMessage,
}

impl Sent {
    pub fn params<T: serde::de::DeserializeOwned>(&self) -> T {
        match self.bm.message.params::<T>() {
            Ok(Some(x)) => x,
            _ => {
                check(false, "a notification has the parameters of its method");
                unreachable!()
            }
        }
    }
}

impl Ed {
    /// An editor which does not log to its debug buffer.
    pub fn new() -> Ed {
        let mut ed = Ed::logging();
        ed.e.verif_core().debug_mode = false;
        ed
    }
    pub fn logging() -> Ed {
        let (tx, rx) = unbounded();
        Ed { e: Editor::new("s", tx), rx }
    }
    pub fn join(&mut self, id: usize) {
        self.e.add_client(id);
    }
    /// A scratch buffer with a content, or the content of an existing one.
    pub fn fill(&mut self, name: &str, text: &[u8]) {
        self.e.verif_core().open_scratch(name, string(text));
    }
    pub fn show(&mut self, id: usize, name: &str) {
        self.e.verif_core().edit(id, name, true).unwrap();
    }
    pub fn clients(&mut self) -> Vec<ClientState> {
        self.e.verif_core().verif_clients()
    }
    pub fn client(&mut self, id: usize) -> Option<ClientState> {
        self.clients().into_iter().find(|c| c.id == id)
    }
    pub fn buffers(&mut self) -> Vec<(String, String)> {
        self.e.verif_core().verif_buffers()
    }
    pub fn text(&mut self, name: &str) -> Option<Vec<u8>> {
        self.buffers().into_iter().find(|(n, _)| n == name).map(|(_, t)| t.into_bytes())
    }
    pub fn selection(&mut self, id: usize, name: &str) -> (usize, usize) {
        let c = self.client(id).unwrap();
        let s = c.selections.iter().find(|(n, _)| n == name);
        check(s.map_or(0, |s| s.1.len()) == 1, "a client has a selection in each buffer of its view");
        s.unwrap().1[0]
    }
    pub fn select(&mut self, id: usize, name: &str, a: usize, c: usize) {
        self.e.verif_core().verif_select(id, name, a, c);
    }
    pub fn drain(&mut self) -> Vec<Sent> {
        let mut v = vec![];
        while let Ok(bm) = self.rx.try_recv() {
            let to = IDS.filter(|i| bm.should_notify(*i)).collect();
            v.push(Sent { to, method: bm.message.method.clone(), bm });
        }
        v
    }
    pub fn request(&mut self, id: usize, line: &str) -> Response {
        match self.e.handle(id, line) {
            Ok(r) => r,
            Err(_) => {
                check(false, "a request is answered");
                unreachable!()
            }
        }
    }
    /// What must hold whatever happened.
    pub fn sound(&mut self) {
        let views = self.e.verif_core().verif_views();
        let buffers = self.buffers();
        check(!views.is_empty(), "there is a view");
        let docs: Vec<(String, Doc)> = buffers.iter().map(|(n, t)| (n.clone(), Doc::new(t.as_bytes()))).collect();
        for (_, bs) in &views {
            check(!bs.is_empty(), "a view shows a buffer");
            for b in bs {
                check(docs.iter().any(|(n, _)| n == b), "a view shows existing buffers");
            }
        }
        for c in self.clients() {
            check(views.iter().any(|(k, bs)| *k == c.view_key && *bs == c.buffers), "a client shows an existing view");
            let names: Vec<&String> = c.selections.iter().map(|s| &s.0).collect();
            let mut shown: Vec<&String> = c.buffers.iter().collect();
            shown.sort();
            check(names == shown, "a client has selections in the buffers of its view");
            for (b, ss) in &c.selections {
                check(ss.len() == 1, "a client has one selection in a buffer");
                let d = &docs.iter().find(|(n, _)| n == b).unwrap().1;
                for (a, k) in ss {
                    check(on_char(d, *a), "the anchor of a selection is on a character");
                    check(on_char(d, *k), "the cursor of a selection is on a character");
                }
            }
        }
    }
}

/// The offsets the cursor can take.
pub fn offsets(d: &Doc) -> Vec<usize> {
    d.positions().into_iter().map(|(l, c)| d.offset(l, c).unwrap_or(0)).collect()
}

pub fn on_char(d: &Doc, o: usize) -> bool {
    offsets(d).contains(&o)
}

/// Any selection over a text.
pub fn any_selection(d: &Doc) -> (usize, usize) {
    let o = offsets(d);
    (o[pick(o.len())], o[pick(o.len())])
}

/// The selected bytes.
pub fn covered(d: &Doc, s: (usize, usize)) -> (usize, usize) {
    (s.0.min(s.1), d.after(s.0.max(s.1)))
}

/// A displayed line: its text, and for each byte whether it is highlighted.
pub fn flat(t: &Text) -> (Vec<u8>, Vec<bool>) {
    let (mut b, mut m) = (vec![], vec![]);
    for f in t.iter() {
        let on = f.face == Face::Selection;
        check(on || f.face == Face::Default, "the faces of a line");
        b.extend(f.text.as_bytes());
        m.extend(f.text.as_bytes().iter().map(|_| on));
    }
    (b, m)
}

/// Lines `from..to` (0-based) of a text, as they are displayed with a selection.
pub fn check_lines(lines: &[Text], d: &Doc, from: usize, to: usize, sel: Option<(usize, usize)>) {
    check(lines.len() == to - from, "a view has the lines of its buffer");
    for (i, t) in lines.iter().enumerate() {
        let l = &d.lines[from + i];
        let (b, m) = flat(t);
        let raw = &d.b[l.start..l.end()];
        let cut = if l.nl { raw.strip_suffix(b"\r").unwrap_or(raw) } else { raw };
        let mut want = cut.to_vec();
        want.push(b' ');
        check(b == want, "a line of a view is the line of the buffer");
        for (k, on) in m.iter().enumerate() {
            let o = l.start + k;
            let sel = sel.map_or(false, |s| {
                let (lo, hi) = covered(d, s);
                // the space after the last character stands for the end of the line
                if k == cut.len() {
                    lo <= l.end() && hi > o
                } else {
                    lo <= o && o < hi
                }
            });
            check(*on == sel, "exactly the selected characters are highlighted");
        }
    }
}

/// The notified view of whole buffers.
pub fn check_view(ed: &mut Ed, id: usize, v: &ViewParams) {
    let c = ed.client(id).unwrap();
    check(v.len() == c.buffers.len(), "a view notification has the buffers of the view");
    for (item, name) in v.iter().zip(c.buffers.iter()) {
        let d = Doc::new(&ed.text(name).unwrap());
        let sel = c.selections.iter().find(|s| s.0 == *name).map(|s| s.1[0]);
        check(item.buffer == *name, "the items of a view are its buffers in order");
        check((item.start, item.end) == (1, d.lines.len()), "an item of a view names its lines");
        let shown = format!("{}{{*", name);
        let part = c.view_key.split('|').find(|k| k.starts_with(&shown)).map_or(0, |k| k.matches('*').count() - name.matches('*').count());
        check(item.lenses.len() == part, "an item of a view has its lenses");
        for lens in &item.lenses {
            check(lens.first_line_num == 1, "a lens has its first line");
            check_lines(&lens.lines, &d, 0, d.lines.len(), sel);
        }
    }
}

pub const TARGETS: &[CursorTarget] = &[
    CursorTarget::Left,
    CursorTarget::Right,
    CursorTarget::Up,
    CursorTarget::Down,
    CursorTarget::LineBegin,
    CursorTarget::LineEnd,
    CursorTarget::Begin,
    CursorTarget::End,
];

pub fn target(m: Move) -> CursorTarget {
    match m {
        Move::Left => CursorTarget::Left,
        Move::Right => CursorTarget::Right,
        Move::Up => CursorTarget::Up,
        Move::Down => CursorTarget::Down,
        Move::LineBegin => CursorTarget::LineBegin,
        Move::LineEnd => CursorTarget::LineEnd,
        Move::Begin => CursorTarget::Begin,
        Move::End => CursorTarget::End,
    }
}

/// The views notified by the last operation: each to one client, once, up to date.
pub fn check_notified(ed: &mut Ed, want: &[usize]) {
    let mut got = vec![];
    for s in ed.drain() {
        if s.method != "view" {
            continue;
        }
        check(s.to.len() == 1, "a view is notified to one client");
        got.push(s.to[0]);
        let v: ViewParams = s.params();
        check_view(ed, s.to[0], &v);
    }
    got.sort();
    check(got == want, "the clients showing what changed are notified of their view, the others not");
}

fn start(_p: usize) {
    let mut ed = Ed::logging();
    ed.join(1);
    ed.sound();
    cover("started");
}

/// One client deletes what it selected; another one shows the same buffer, a third one does not.
fn delete(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.show(1, "o");
    ed.join(3);
    ed.show(1, "a");
    ed.join(2);
    ed.show(2, "a");
    let t = chars(range(1, p % 10), ALL);
    ed.fill("a", &t);
    let d = Doc::new(&t);
    let s = any_selection(&d);
    ed.select(1, "a", s.0, s.1);
    let s2 = any_selection(&d);
    ed.select(2, "a", s2.0, s2.1);
    ed.drain();
    let out = ed.e.verif_core().delete_selection(1);
    let (lo, hi) = covered(&d, s);
    let mut want = t[..lo].to_vec();
    want.extend(&t[hi..]);
    if want.is_empty() {
        want.push(b'\n');
        cover("emptied");
    }
    let out = out.unwrap_or_default();
    check(out.len() == 1 && out[0].as_bytes() == &t[lo..hi], "the deleted text is what was selected");
    let got = ed.text("a").unwrap();
    check(got == want, "deleting removes exactly what is selected");
    observe(&got);
    check(ed.text("o").unwrap() == b"\n", "other buffers are left alone");
    ed.sound();
    check_notified(&mut ed, &[1, 2]);
    cover("deleted");
    // the other client goes on
    if p >= 10 {
        let m = MOVES[pick(MOVES.len())];
        let (d2, before) = (Doc::new(&want), ed.selection(2, "a"));
        let ok = ed.e.verif_core().move_cursor(2, target(m), false).is_ok();
        check(ok, "a client moves");
        ed.sound();
        let mut cur = refit(&d2, before.1, d.coord(s2.1).unwrap().1);
        if want.len() > 1 {
            cur.go(&d2, m);
        }
        let o = d2.offset(cur.l, cur.c).unwrap();
        check(ed.selection(2, "a").1 == o, "the cursor goes where the move leads");
        cover("moved");
    }
}

/// A cursor over a text which changed: the column to return to is kept if it leads there.
pub fn refit(d: &Doc, o: usize, target: usize) -> Cur {
    let (l, c) = d.coord(o).unwrap();
    Cur { l, c, target: if target.min(d.lines[l - 1].max_col()) == c { target } else { c } }
}

/// Deletions in views of two buffers, again and again.
fn delete_more(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    let mut texts = vec![];
    ed.show(1, "a");
    ed.fill("b", b"\n");
    ed.e.verif_core().add_to_current_view(1, "b").unwrap();
    ed.join(2);
    for name in ["a", "b"] {
        let t = chars(range(1, p % 10), MIXED);
        ed.fill(name, &t);
        texts.push(t);
    }
    for _ in 0..p / 10 % 10 {
        let who = 1 + pick(2);
        for (name, t) in ["a", "b"].iter().zip(texts.iter_mut()) {
            let d = Doc::new(t);
            let s = any_selection(&d);
            ed.select(who, name, s.0, s.1);
            let (lo, hi) = covered(&d, s);
            t.drain(lo..hi);
            if t.is_empty() {
                t.push(b'\n');
            }
        }
        ed.drain();
        let n = ed.e.verif_core().delete_selection(who).map_or(0, |d| d.len());
        check(n == 2, "what is selected in every buffer is deleted");
        for (name, t) in ["a", "b"].iter().zip(texts.iter()) {
            check(ed.text(name).unwrap() == *t, "deleting removes exactly what is selected");
        }
        ed.sound();
        check_notified(&mut ed, &[1, 2]);
        cover("deleted");
    }
}

/// A client moves over a text; the others keep their selections.
fn moves(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.show(1, "a");
    ed.join(2);
    let t = if p >= 100 {
        // lines of any lengths
        let mut t = vec![];
        for _ in 0..p / 100 {
            t.extend(vec![b'x'; pick(p % 10 + 1)]);
            t.push(b'\n');
        }
        t
    } else {
        chars(range(1, p % 10), ALL)
    };
    ed.fill("a", &t);
    let d = Doc::new(&t);
    let (l, c) = d.positions()[pick(d.positions().len())];
    let o = d.offset(l, c).unwrap_or(0);
    ed.select(1, "a", o, o);
    let s2 = ed.selection(2, "a");
    let mut cur = Cur::at(l, c);
    let mut anchor = o;
    ed.drain();
    for _ in 0..p / 10 % 10 {
        let m = MOVES[pick(MOVES.len())];
        let extend = flag();
        let before = (ed.selection(1, "a"), cur.target);
        check(ed.e.verif_core().move_cursor(1, target(m), extend).is_ok(), "a client moves");
        if t.len() > 1 {
            cur.go(&d, m);
        }
        let o = d.offset(cur.l, cur.c).unwrap_or(0);
        if !extend {
            anchor = o;
        } else {
            cover("extended");
        }
        let s = ed.selection(1, "a");
        check(s.1 == o, "the cursor goes where the move leads");
        if t.len() > 1 {
            check(s.0 == anchor, "the anchor follows unless the selection is extended");
        }
        anchor = s.0;
        observe_num(s.1);
        check(ed.selection(2, "a") == s2, "the selections of the other clients stay");
        let changed = before != (s, cur.target);
        if changed {
            cover("moved");
        }
        check_notified(&mut ed, if changed { &[1] } else { &[] });
    }
    check(ed.text("a").unwrap() == t, "moving changes no text");
}

/// Moves in a view of two buffers move the selections of both.
fn moves_views(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.show(1, "a");
    ed.fill("b", b"\n");
    ed.e.verif_core().add_to_current_view(1, "b").unwrap();
    let mut docs = vec![];
    for name in ["a", "b"] {
        let t = chars(range(1, p % 10), PLAIN);
        ed.fill(name, &t);
        let d = Doc::new(&t);
        let (l, c) = d.positions()[pick(d.positions().len())];
        let o = d.offset(l, c).unwrap_or(0);
        ed.select(1, name, o, o);
        docs.push((name, d, Cur::at(l, c)));
    }
    ed.drain();
    for _ in 0..p / 10 % 10 {
        let m = MOVES[pick(MOVES.len())];
        check(ed.e.verif_core().move_cursor(1, target(m), false).is_ok(), "a client moves");
        let mut changed = false;
        for (name, d, cur) in docs.iter_mut() {
            let was = (cur.l, cur.c, cur.target);
            if d.len() > 1 {
                cur.go(d, m);
            }
            changed |= was != (cur.l, cur.c, cur.target);
            let o = d.offset(cur.l, cur.c).unwrap_or(0);
            check(ed.selection(1, name) == (o, o), "the cursors of all buffers of a view move");
        }
        check_notified(&mut ed, if changed { &[1] } else { &[] });
        ed.sound();
        cover("moved");
    }
}

/// What a view notification says, for any text and selection.
fn shown(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.show(1, "a");
    ed.fill("b", b"x\n");
    ed.fill("c", b"y\nz\n");
    ed.fill("d", b"\n");
    for name in ["b", "c", "d"].iter().take((p / 10 % 10).max(1) - 1) {
        ed.e.verif_core().add_to_current_view(1, name).unwrap();
        cover("two buffers");
    }
    let t = chars(range(0, p % 10), ALL);
    ed.fill("a", &t);
    let t = if t.is_empty() { b"\n".to_vec() } else { t };
    let d = Doc::new(&t);
    let s = any_selection(&d);
    ed.select(1, "a", s.0, s.1);
    ed.drain();
    ed.e.verif_core().view(1, "nowhere").unwrap_err();
    let key = ed.client(1).unwrap().view_key;
    check(ed.e.verif_core().view(1, &key).is_ok(), "an existing view can be selected");
    check_notified(&mut ed, &[1]);
    cover("shown");
}

/// Views of parts of a buffer, with several selections.
fn focused(p: usize) {
    let t = chars(range(1, p % 10), ALL);
    let names = &["a", "b", "c", "d"][..1 + p / 100 % 10];
    // the other buffers are alike
    let main = pick(names.len());
    let mut buffers = HashMap::new();
    let mut sels = HashMap::new();
    let mut docs = vec![];
    for (k, name) in names.iter().enumerate() {
        let t = if k == main { t.clone() } else { b"x\nyz\n".to_vec() };
        buffers.insert(name.to_string(), Buffer::new_scratch(name.to_string(), string(&t)));
        let d = Doc::new(&t);
        let s = if k == main { any_selection(&d) } else { (3, 2) };
        let mut sel = Selection::new();
        (sel.anchor, sel.cursor) = s;
        sels.insert(name.to_string(), vec![sel]);
        docs.push((d, s));
    }
    // the parts which are shown, in order
    let mut view = View::default();
    let mut cuts = vec![];
    for (k, (d, _)) in docs.iter().enumerate() {
        let n = d.lines.len();
        let mut cut = vec![];
        let mut from = 0;
        let most = if k == main { p / 10 % 10 } else { 2 };
        for _ in 0..1 + pick(most) {
            if from == n {
                break;
            }
            let a = if k == main { range(from, n - 1) } else { from };
            let b = if k == main { range(a + 1, n) } else { a + 1 };
            cut.push((a, b));
            from = b;
        }
        cuts.push(cut);
    }
    // whatever the order they are added in
    let turn = flag();
    for m in 0..names.len() {
        let k = if turn { names.len() - 1 - m } else { m };
        let cut = &cuts[k];
        for j in 0..cut.len() {
            let (a, b) = if turn { cut[cut.len() - 1 - j] } else { cut[j] };
            view.add_lens(Lens { buffer: names[k].into(), focus: Focus::Range(a..b) });
        }
    }
    let v = view.to_notification_params(&buffers, Some(&sels));
    check(v.len() == names.len(), "a view notification has the buffers of the view");
    for (k, item) in v.iter().enumerate() {
        let (cut, (d, s)) = (&cuts[k], &docs[k]);
        check(item.buffer == names[k], "a view notification has the buffers of the view");
        check((item.start, item.end) == (cut[0].0 + 1, cut[cut.len() - 1].1), "an item of a view names its lines");
        check(item.lenses.len() == cut.len(), "an item of a view has its lens");
        for (lens, (a, b)) in item.lenses.iter().zip(cut.iter()) {
            check(lens.first_line_num == a + 1, "a lens has its first line");
            check_lines(&lens.lines, d, *a, *b, Some(*s));
        }
        if cut.len() > 1 {
            cover("several lenses");
        }
    }
    cover("shown");
}

type Shown = BTreeMap<String, usize>;

fn key_of(v: &Shown) -> String {
    let mut s = String::new();
    for (b, n) in v {
        if !s.is_empty() {
            s.push('|');
        }
        s.push_str(b);
        s.push('{');
        for i in 0..*n {
            s.push_str(if i > 0 { ",*" } else { "*" });
        }
        s.push('}');
    }
    s
}

/// What clients, views and buffers there are.
#[derive(Clone)]
struct World {
    /// the latest view first
    views: Vec<Shown>,
    buffers: Vec<String>,
    /// the latest client first
    clients: Vec<(usize, Shown)>,
    texts: BTreeMap<String, Vec<u8>>,
    /// the selections of clients in the buffers of views
    sels: BTreeMap<usize, BTreeMap<Shown, BTreeMap<String, usize>>>,
}

impl World {
    fn add_view(&mut self, v: &Shown) {
        self.views.retain(|x| x != v);
        self.views.insert(0, v.clone());
        for by_view in self.sels.values_mut() {
            let by_buffer = by_view.entry(v.clone()).or_default();
            for b in v.keys() {
                by_buffer.entry(b.clone()).or_insert(0);
            }
        }
    }
    /// What is selected stays so in the buffers which are kept.
    fn carry(&mut self, old: &Shown, new: &Shown) {
        for by_view in self.sels.values_mut() {
            if let Some(mut s) = by_view.remove(old) {
                s.retain(|b, _| new.contains_key(b));
                by_view.entry(new.clone()).or_insert(s);
            }
        }
    }
    fn open(&mut self, b: &str, text: &[u8]) {
        if !self.buffers.iter().any(|x| x == b) {
            self.buffers.push(b.into());
            self.texts.insert(b.into(), text.to_vec());
        }
    }
    fn current(&self, id: usize) -> Option<Shown> {
        self.clients.iter().find(|c| c.0 == id).map(|c| c.1.clone())
    }
    fn set(&mut self, id: usize, v: &Shown) {
        self.clients.iter_mut().find(|c| c.0 == id).unwrap().1 = v.clone();
    }
    /// Returns who shows something else from now on.
    fn delete_view(&mut self, v: &Shown) -> Vec<usize> {
        self.views.retain(|x| x != v);
        for by_view in self.sels.values_mut() {
            by_view.remove(v);
        }
        let views = self.views.clone();
        self.buffers.retain(|b| !v.contains_key(b) || views.iter().any(|x| x.contains_key(b)));
        let buffers = self.buffers.clone();
        self.texts.retain(|b, _| buffers.contains(b));
        if self.views.is_empty() {
            self.open("*scratch*", b"\n");
            self.add_view(&one_view("*scratch*"));
        }
        let latest = self.views[0].clone();
        let mut moved = vec![];
        for c in self.clients.iter_mut() {
            if c.1 == *v {
                c.1 = latest.clone();
                moved.push(c.0);
            }
        }
        moved
    }
}

fn one_view(b: &str) -> Shown {
    let mut v = Shown::new();
    v.insert(b.into(), 1);
    v
}

const NAMES: [&str; 3] = ["a", "b", "*scratch*"];

/// Views come and go, clients too.
fn lifecycle(p: usize) {
    let rich = p >= 100;
    let gone = p >= 600;
    if rich {
        // the order of maps
        set_seed(pick(if gone { p / 100 - 5 } else { p / 100 }) as u64);
    }
    let mut ed = Ed::new();
    ed.join(1);
    let mut first = one_view("*debug*");
    first.insert("*scratch*".into(), 1);
    let mut w = World {
        views: vec![],
        buffers: vec!["*debug*".into(), "*scratch*".into()],
        clients: vec![(1, first.clone())],
        texts: ed.buffers().into_iter().map(|(b, t)| (b, t.into_bytes())).collect(),
        sels: BTreeMap::new(),
    };
    w.sels.insert(1, BTreeMap::new());
    w.add_view(&first);
    let steps = p % 10;
    let names = (p / 10 % 10).max(1);
    const TEXT: &[u8] = b"xyz\n";
    if rich {
        // another client, and a buffer for each
        ed.join(2);
        w.clients.insert(0, (2, first));
        let s = w.sels[&1].clone();
        w.sels.insert(2, s);
        for (who, n) in [(1, "a"), (2, "b")] {
            ed.fill(n, TEXT);
            w.open(n, TEXT);
            ed.show(who, n);
            w.add_view(&one_view(n));
            w.set(who, &one_view(n));
        }
        if !gone {
            // the second client has been at the end of what the first one shows
            ed.show(2, "a");
            ed.select(2, "a", 3, 3);
            ed.show(2, "b");
            w.sels.get_mut(&2).unwrap().get_mut(&one_view("a")).unwrap().insert("a".into(), 3);
        }
        if gone {
            // and all have left since
            for who in [2, 1] {
                ed.e.remove_client(who);
                w.sels.remove(&who);
            }
            w.clients.clear();
        }
    }
    ed.drain();
    let mut on_disk = false;
    for _ in 0..steps {
        let op = pick(if rich { 11 } else { 7 });
        let who = if op == 5 && !rich { 2 } else { 1 + pick(if op == 5 && !gone { 3 } else { 2 }) };
        let mine = w.current(who);
        let here = mine.is_some();
        let mut told: Vec<usize> = vec![];
        let ok;
        let want_ok;
        match op {
            0 => {
                let n = NAMES[pick(names)];
                ok = ed.e.verif_core().edit(who, n, true).is_ok();
                want_ok = here;
                if here {
                    w.open(n, b"\n");
                    let v = one_view(n);
                    w.add_view(&v);
                    w.set(who, &v);
                    told.push(who);
                }
                cover("edit");
            }
            1 => {
                // a view by its key, or by the name of a buffer
                let k = pick(w.views.len() + names);
                let (name, v) = if k < w.views.len() {
                    (key_of(&w.views[k]), Some(w.views[k].clone()))
                } else {
                    let n = NAMES[k - w.views.len()];
                    let v = one_view(n);
                    (n.to_string(), if w.buffers.iter().any(|b| b == n) { Some(v) } else { None })
                };
                ok = ed.e.verif_core().view(who, &name).is_ok();
                want_ok = here && v.is_some();
                if let (true, Some(v)) = (here, v) {
                    if !w.views.contains(&v) {
                        w.add_view(&v);
                        cover("view of a buffer");
                    }
                    w.set(who, &v);
                    told.push(who);
                }
                cover("view");
            }
            2 | 3 => {
                let n = NAMES[pick(names)];
                let exists = w.buffers.iter().any(|b| b == n);
                ok = if op == 2 {
                    ed.e.verif_core().add_to_current_view(who, n).is_ok()
                } else {
                    ed.e.verif_core().remove_from_current_view(who, n).is_ok()
                };
                want_ok = here && exists;
                if want_ok {
                    let old = mine.unwrap();
                    let mut new = old.clone();
                    if op == 2 {
                        *new.entry(n.into()).or_insert(0) += 1;
                        cover("add");
                    } else {
                        new.remove(n);
                        cover("remove");
                    }
                    if new != old {
                        if !new.is_empty() {
                            w.carry(&old, &new);
                            w.add_view(&new);
                        } else {
                            cover("emptied");
                        }
                        told = w.delete_view(&old);
                    }
                }
            }
            4 => {
                ok = ed.e.verif_core().delete_current_view(who).is_ok();
                want_ok = here;
                if let Some(v) = mine {
                    told = w.delete_view(&v);
                }
                cover("delete");
            }
            5 => {
                if here {
                    return;
                }
                ed.join(who);
                let v = match w.clients.first().cloned() {
                    Some(c) => {
                        let s = w.sels[&c.0].clone();
                        w.sels.insert(who, s);
                        c.1
                    }
                    None => {
                        let zero = |v: &Shown| v.keys().map(|b| (b.clone(), 0)).collect();
                        let s = w.views.iter().map(|v| (v.clone(), zero(v))).collect();
                        w.sels.insert(who, s);
                        cover("first");
                        w.views[0].clone()
                    }
                };
                w.clients.insert(0, (who, v));
                told.push(who);
                ok = true;
                want_ok = true;
                cover("join");
            }
            6 => {
                if !here {
                    return;
                }
                ed.e.remove_client(who);
                w.clients.retain(|c| c.0 != who);
                w.sels.remove(&who);
                ok = true;
                want_ok = true;
                cover("leave");
            }
            7 => {
                let Some(v) = mine else { return };
                let n = NAMES[pick(names)];
                if !v.contains_key(n) || w.texts[n].len() < TEXT.len() {
                    return;
                }
                let o = 1 + pick(2);
                ed.select(who, n, o, o);
                w.sels.get_mut(&who).unwrap().get_mut(&v).unwrap().insert(n.into(), o);
                ok = true;
                want_ok = true;
                cover("select");
            }
            9 => {
                ok = ed.e.verif_core().delete_selection(who).is_ok();
                want_ok = here;
                if let Some(v) = mine {
                    let places = w.sels[&who][&v].clone();
                    for (b, o) in &places {
                        let t = w.texts.get_mut(b).unwrap();
                        t.remove(*o);
                        if t.is_empty() {
                            t.push(b'\n');
                        }
                        let end = t.len() - 1;
                        for by_view in w.sels.values_mut() {
                            for by_buffer in by_view.values_mut() {
                                if let Some(o) = by_buffer.get_mut(b) {
                                    *o = end.min(*o);
                                }
                            }
                        }
                    }
                    for c in &w.clients {
                        if c.1.keys().any(|b| places.contains_key(b)) {
                            told.push(c.0);
                        }
                    }
                    cover("cut");
                }
            }
            10 => {
                // a file
                let exists = w.buffers.iter().any(|b| b == "f");
                let what = if exists { 2 } else { pick(3) };
                if !exists {
                    if on_disk {
                        unfile("f");
                    }
                    on_disk = what > 0;
                    match what {
                        0 => {}
                        1 => file("f", b"x\xff\n"),
                        _ => file("f", TEXT),
                    }
                }
                ok = ed.e.verif_core().edit(who, "f", false).is_ok();
                want_ok = here && what == 2;
                if want_ok {
                    w.open("f", TEXT);
                    w.add_view(&one_view("f"));
                    w.set(who, &one_view("f"));
                    told.push(who);
                }
                cover("file");
            }
            _ => {
                // a buffer which nobody shows
                let n = NAMES[pick(names)];
                if w.buffers.iter().any(|b| b == n) {
                    return;
                }
                ed.fill(n, TEXT);
                w.open(n, TEXT);
                ok = true;
                want_ok = true;
                cover("hidden");
            }
        }
        check(ok == want_ok, "a command succeeds when its client, buffer and view exist");
        let mut keys: Vec<String> = w.views.iter().map(key_of).collect();
        keys.sort();
        let got: Vec<String> = ed.e.verif_core().verif_views().into_iter().map(|v| v.0).collect();
        check(got == keys, "the views are those that were made and not deleted");
        w.buffers.sort();
        let buffers = ed.buffers();
        let got: Vec<String> = buffers.iter().map(|b| b.0.clone()).collect();
        check(got == w.buffers, "the buffers are those that were opened and are still shown");
        for (b, t) in buffers {
            check(w.texts.get(&b).map_or(false, |w| *w == t.into_bytes()), "opening, showing and leaving buffers changes no text");
        }
        let got: Vec<(usize, String)> = ed.clients().into_iter().map(|c| (c.id, c.view_key)).collect();
        let mut want: Vec<(usize, String)> = w.clients.iter().map(|c| (c.0, key_of(&c.1))).collect();
        want.sort();
        check(got == want, "every client shows the view it chose or was given");
        for c in ed.clients() {
            let v = w.current(c.id).unwrap();
            let want = &w.sels[&c.id][&v];
            check(c.selections.len() == want.len(), "a client has a selection in each buffer of its view");
            for (b, s) in &c.selections {
                check(want.get(b).map_or(false, |o| s[..] == [(*o, *o)]), "selections stay where they are while views and clients come and go");
            }
        }
        ed.sound();
        told.sort();
        check_notified(&mut ed, &told);
    }
}
