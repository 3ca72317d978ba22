//! The terminal front end: what it draws, and what its keys ask for.
use crate::model::{one, string, Class};
use crate::sym::*;
use ced::tui::verif::input;
use ced::tui::verif::io::drawn;
use ced::tui::Term;
use ced_remote::jsonrpc::{ClientEvent, Request};
use ced_remote::protocol::notifications::{self, *};
use ced_remote::protocol::requests::{EditParams, MenuParams as AskParams, MenuSelectParams};
use ced_remote::protocol::{Face, Key, KeyEvent, Text, TextFragment};
use ced_remote::verif::{connects, MemoryStream};
use ced_remote::{Connection, Session};
use crossterm::event::{Event, KeyCode, KeyEvent as CKeyEvent, KeyModifiers};
use std::cell::RefCell;
use std::rc::Rc;

pub fn run(idx: usize, p: usize) {
    match idx {
        4200 => view(p),
        4201 => status(p),
        4202 => menu(p),
        4203 => hint(p),
        4210 => keys(p),
        4211 => errors(p),
        4220 => live(p),
        _ => panic!("no such scenario"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cell {
    c: char,
    reverse: bool,
    red: bool,
    underlined: bool,
}

const BLANK: Cell = Cell { c: ' ', reverse: false, red: false, underlined: false };

/// A terminal which understands what is needed here.
struct Screen {
    w: usize,
    h: usize,
    rows: Vec<Vec<Cell>>,
    at: (usize, usize),
    style: Cell,
    /// whether the front end has a screen of its own
    entered: bool,
    shows_cursor: bool,
}

impl Screen {
    fn new(w: usize, h: usize) -> Screen {
        Screen { w, h, rows: vec![vec![BLANK; w]; h], at: (0, 0), style: BLANK, entered: false, shows_cursor: true }
    }
    fn show(&mut self, bytes: &[u8]) {
        let text = string(bytes);
        let mut it = text.chars();
        while let Some(c) = it.next() {
            match c {
                '\x1b' => {
                    check(it.next() == Some('['), "the terminal is told what it understands");
                    let mut params = vec![0];
                    let mut private = false;
                    loop {
                        match it.next() {
                            Some(d @ '0'..='9') => {
                                let last = params.last_mut().unwrap();
                                *last = *last * 10 + d as usize - '0' as usize;
                            }
                            Some(';') => params.push(0),
                            Some('?') => private = true,
                            Some(end) if private => {
                                self.mode(end, &params);
                                break;
                            }
                            Some(end) => {
                                self.control(end, &params);
                                break;
                            }
                            None => return check(false, "the terminal is told what it understands"),
                        }
                    }
                }
                '\r' => self.at.1 = 0,
                '\n' => {
                    self.at.0 += 1;
                    check(self.at.0 < self.h, "the screen is not scrolled");
                }
                c => {
                    check(self.at.1 < self.w, "nothing is drawn past the edge of the screen");
                    if self.at.1 < self.w {
                        self.rows[self.at.0][self.at.1] = Cell { c, ..self.style };
                        self.at.1 += 1;
                    }
                }
            }
        }
    }
    fn mode(&mut self, end: char, params: &[usize]) {
        match (end, params) {
            ('h', [1049]) => {
                check(!self.entered, "the screen is left before it is entered again");
                self.entered = true;
                *self = Screen { entered: true, shows_cursor: self.shows_cursor, ..Screen::new(self.w, self.h) };
            }
            ('l', [1049]) => self.entered = false,
            ('h', [25]) => self.shows_cursor = true,
            ('l', [25]) => self.shows_cursor = false,
            _ => check(false, "the terminal is told what it understands"),
        }
    }
    fn control(&mut self, end: char, params: &[usize]) {
        match end {
            'H' => {
                let n = |i: usize| params.get(i).map_or(1, |p| (*p).max(1)) - 1;
                self.at = (n(0).min(self.h - 1), n(1).min(self.w - 1));
            }
            'A' => self.at.0 = self.at.0.saturating_sub(params[0].max(1)),
            'B' => self.at.0 = (self.at.0 + params[0].max(1)).min(self.h - 1),
            'C' => self.at.1 = (self.at.1 + params[0].max(1)).min(self.w - 1),
            'D' => self.at.1 = self.at.1.saturating_sub(params[0].max(1)),
            'E' => self.at = ((self.at.0 + params[0].max(1)).min(self.h - 1), 0),
            'F' => self.at = (self.at.0.saturating_sub(params[0].max(1)), 0),
            'G' => self.at.1 = (params[0].max(1) - 1).min(self.w - 1),
            'J' | 'K' => {
                // from, up to, or all around the cursor, on its line or on the screen
                // past the last column, it is still on it
                let (r, c) = (self.at.0, self.at.1.min(self.w - 1));
                for (y, row) in self.rows.iter_mut().enumerate() {
                    for (x, cell) in row.iter_mut().enumerate() {
                        let after = (y, x) >= (r, c);
                        let before = (y, x) <= (r, c);
                        let part = match params[0] {
                            0 => after,
                            1 => before,
                            _ => true,
                        };
                        if part && (end == 'J' || y == r) {
                            *cell = BLANK;
                        }
                    }
                }
            }
            'm' => match params {
                [0] => self.style = BLANK,
                [4] => self.style.underlined = true,
                [7] => self.style.reverse = true,
                [31] | [38, 5, 9] => self.style.red = true,
                [39] => self.style.red = false,
                _ => check(false, "the terminal is told what it understands"),
            },
            _ => check(false, "the terminal is told what it understands"),
        }
    }
    /// Whether a row starts with characters and is blank after them.
    fn row(&self, r: usize, want: &[char]) -> bool {
        let row = &self.rows[r];
        want.len() <= self.w && row.iter().enumerate().all(|(i, x)| x.c == *want.get(i).unwrap_or(&' '))
    }
}

/// A character which takes a column.
fn narrow() -> String {
    let mut v = vec![];
    one([Class::Ascii, Class::Two][pick(2)], &mut v);
    string(&v)
}

fn text(n: usize) -> String {
    (0..n).map(|i| if i > 1 && i + 2 < n { "a".into() } else { narrow() }).collect()
}

fn cells(text: &Text) -> Vec<(char, Face)> {
    let mut v = vec![];
    for f in text.iter() {
        for c in f.text.chars() {
            v.push((c, f.face.clone()));
        }
    }
    v
}

struct Tui {
    term: Option<Term>,
    screen: Screen,
}

impl Drop for Tui {
    fn drop(&mut self) {
        // there is no terminal to set back
        std::mem::forget(self.term.take());
    }
}

impl Tui {
    fn new(w: usize, h: usize) -> Tui {
        drawn();
        let connection = Connection::new(Session::from_name("s"));
        Tui { term: Some(Term::verif_new(connection, (w as u16, h as u16))), screen: Screen::new(w, h) }
    }
    fn term(&mut self) -> &mut Term {
        self.term.as_mut().unwrap()
    }
    fn tell(&mut self, note: ced_remote::jsonrpc::Notification) {
        let event = self.term().verif_connection().verif_event(&ClientEvent::Notification(note));
        self.term().verif_event(event);
        self.screen.show(&drawn());
    }
    fn input(&mut self, event: Event) -> bool {
        let exits = self.term().verif_input(event);
        self.screen.show(&drawn());
        exits
    }
    fn key(&mut self, code: KeyCode) -> bool {
        self.input(Event::Key(CKeyEvent::new(code, KeyModifiers::empty())))
    }
    fn sent(&mut self) -> Option<Request> {
        self.term().verif_connection().verif_sent()
    }
}

/// The columns of the last row.
fn check_status(s: &Screen, echo: &Text, status: &[Text]) {
    let (w, r) = (s.w, s.h - 1);
    let e: Vec<char> = echo.plain().chars().collect();
    let all: String = status.iter().map(|t| t.plain()).collect::<Vec<_>>().join("·");
    let t: Vec<char> = all.chars().collect();
    let mut want = e.clone();
    if e.len() >= w {
        want.truncate(w);
        cover("message cut");
    } else if e.len() + t.len() >= w {
        want.push(' ');
        want.extend(&t[e.len() + t.len() + 1 - w..]);
        cover("status cut");
    } else {
        want.resize(w - t.len(), ' ');
        want.extend(&t);
        cover("status");
    }
    check(want.len() == w, "the status line is as wide as the screen");
    check(s.row(r, &want), "the status line shows the message and the end of the status");
}

fn check_line(row: &[Cell], line: &Text, tag: &str) {
    let want = cells(line);
    for (i, x) in row.iter().enumerate() {
        let (c, face) = want.get(i).cloned().unwrap_or((' ', Face::Default));
        check(x.c == c, tag);
        check(x.reverse == (face == Face::Selection), "the selection is shown");
        check(x.red == (face == Face::Error), "errors are red");
    }
}

fn check_view(s: &Screen, view: &ViewParams, echo: &Text, status: &[Text]) {
    let mut r = 0;
    'all: for item in view {
        if r + 1 >= s.h {
            cover("view cut");
            break;
        }
        let mut header: Vec<char> = format!("-[{}][{}:{}]", item.buffer, item.start, item.end).chars().collect();
        if header.len() > s.w {
            cover("header cut");
        } else {
            cover("header");
        }
        header.resize(s.w, '-');
        check(s.row(r, &header), "the buffers of a view are shown with their lines");
        r += 1;
        for lens in &item.lenses {
            for line in &lens.lines {
                if r + 1 >= s.h {
                    cover("view cut");
                    break 'all;
                }
                check_line(&s.rows[r], line, "the lines of a view are shown in order");
                r += 1;
            }
        }
    }
    while r + 1 < s.h {
        check(s.row(r, &[]), "nothing is shown after the view");
        r += 1;
    }
    check_status(s, echo, status);
}

const FACES: [Face; 3] = [Face::Default, Face::Selection, Face::Error];

fn view(p: usize) {
    let (most_w, most_h) = (p % 10, p / 10 % 10);
    let (items, lines) = (p / 100 % 10, p / 1000 % 10);
    // a header takes nine columns
    let (w, h) = (range(1, most_w) + 7 * pick(2), range(1, most_h));
    let mut tui = Tui::new(w, h);
    let mut params: ViewParams = vec![];
    let items = range(1, items);
    for i in 0..items {
        let mut all = vec![];
        for _ in 0..range(1, lines) {
            // two fragments, together about as wide as the screen
            let n = range(w.saturating_sub(1), w + 1);
            let cut = if n > 0 { pick(2) } else { 0 };
            let f = |text: String, face: Face| TextFragment { text, face };
            // only one line has any text, the others are the same
            let t = if i == 0 && all.is_empty() { text(n) } else { "éa".repeat(n).chars().take(n).collect() };
            let first: String = t.chars().take(cut).collect();
            let rest: String = t.chars().skip(cut).collect();
            let l: Text = vec![f(first, FACES[pick(3)].clone()), f(rest, Face::Default)].into();
            all.push(l);
        }
        params.push(ViewParamsItem {
            buffer: ["é", "b"][i % 2].into(),
            start: 1,
            end: all.len(),
            lenses: vec![ViewParamsLens { lines: all, first_line_num: 1 }],
        });
    }
    tui.tell(View::new(params.clone()));
    check_view(&tui.screen, &params, &Text::from(Vec::new()), &[]);
    // drawn again when the size changes
    let (w, h) = (w + 1, h + 1);
    tui.screen = Screen::new(w, h);
    tui.input(Event::Resize(w as u16, h as u16));
    check_view(&tui.screen, &params, &Text::from(Vec::new()), &[]);
    cover("drawn");
}

fn status(p: usize) {
    let (most_w, n) = (p % 10, p / 10 % 10);
    let (w, h) = (range(1, most_w), range(1, 2));
    let mut tui = Tui::new(w, h);
    let echo: Text = TextFragment { text: text(range(0, n)), face: [Face::Default, Face::Error][pick(2)].clone() }.into();
    let items: Vec<Text> = (0..range(0, 2)).map(|_| Text::from(text(range(0, n)).as_str())).collect();
    let params: Vec<StatusParamsItem> =
        items.iter().enumerate().map(|(i, t)| StatusParamsItem { index: i as isize, text: t.clone() }).collect();
    if flag() {
        tui.tell(Echo::new(echo.clone()));
        tui.tell(Status::new(params));
    } else {
        tui.tell(Status::new(params));
        tui.tell(Echo::new(echo.clone()));
    }
    check_view(&tui.screen, &vec![], &echo, &items);
    cover("drawn");
}

fn check_menu(s: &Screen, m: &MenuParams, selected: usize) {
    let mut title: Vec<char> = format!("{}:{}", m.title, m.search).chars().collect();
    title.truncate(s.w);
    check(s.row(0, &title), "a menu shows its title and the search");
    check(s.rows[0].iter().all(|x| x.reverse), "the title of a menu is reversed");
    for r in 1..s.h {
        let Some(e) = m.entries.get(r - 1) else {
            check(s.row(r, &[]), "nothing is shown after the entries of a menu");
            continue;
        };
        let want = cells(&e.text);
        for (i, x) in s.rows[r].iter().enumerate() {
            let (c, face) = want.get(i).cloned().unwrap_or((' ', Face::Default));
            check(x.c == c, "a menu shows its entries in order");
            check(x.underlined == (face == Face::Match), "what matches in an entry is underlined");
            check(!x.reverse || selected == r - 1, "only the selected entry is reversed");
        }
        if selected == r - 1 && !want.is_empty() {
            check(s.rows[r][0].reverse, "the selected entry is reversed");
            cover("selected");
        }
    }
    if m.entries.len() >= s.h {
        cover("menu cut");
    }
}

fn again(m: &MenuParams) -> MenuParams {
    let entry = |e: &MenuParamsEntry| MenuParamsEntry {
        value: e.value.clone(),
        text: e.text.clone(),
        description: e.description.clone(),
    };
    MenuParams {
        command: m.command.clone(),
        title: m.title.clone(),
        search: m.search.clone(),
        entries: m.entries.iter().map(entry).collect(),
    }
}

fn some_menu(n: usize, most: usize) -> MenuParams {
    let entries = (0..range(0, most))
        .map(|i| {
            // only one entry has any text
            let t = if i == 0 { text(range(0, n)) } else { "éb".into() };
            let cut = t.chars().count() / 2;
            let first: String = t.chars().take(cut).collect();
            let rest: String = t.chars().skip(cut).collect();
            let face = [Face::Match, Face::Default][pick(2)].clone();
            let f = |text: String, face: Face| TextFragment { text, face };
            MenuParamsEntry { value: format!("v{}", i), text: vec![f(first, Face::Default), f(rest, face)].into(), description: None }
        })
        .collect();
    MenuParams { command: "c".into(), title: "é".into(), search: text(range(0, 1)), entries }
}

fn menu(p: usize) {
    let (most_w, n, most, steps) = (p % 10, p / 10 % 10, p / 100 % 10, p / 1000 % 10);
    let (w, h) = (range(1, most_w), range(1, most + 1));
    let mut tui = Tui::new(w, h);
    let m = some_menu(n, most);
    tui.tell(notifications::Menu::new(again(&m)));
    let mut selected: usize = 0;
    check_menu(&tui.screen, &m, selected);
    for _ in 0..steps {
        match pick(3) {
            0 => {
                tui.key(KeyCode::Up);
                selected = selected.saturating_sub(1);
            }
            1 => {
                tui.key(KeyCode::Down);
                selected = (selected + 1).min(m.entries.len().saturating_sub(1));
            }
            _ => {
                let (w, h) = (tui.screen.w + 1, tui.screen.h);
                tui.screen = Screen::new(w, h);
                tui.input(Event::Resize(w as u16, h as u16));
            }
        }
        check_menu(&tui.screen, &m, selected);
    }
    check(tui.sent().is_none(), "looking at a menu sends nothing");
    cover("drawn");
}

fn hint(p: usize) {
    let (most_w, most) = (p % 10, p / 10 % 10);
    let (w, h) = (range(1, most_w), range(1, most + 1));
    let mut tui = Tui::new(w, h);
    let count = range(0, most);
    let mut lines: Vec<Text> = vec![];
    for i in 0..count {
        let n = range(if i == 0 { 1 } else { 0 }, most_w + 1);
        let t: String = if i == 0 { text(n) } else { "éa".repeat(n).chars().take(n).collect() };
        lines.push(t.as_str().into());
    }
    tui.tell(Hint::new(HintParams { text: lines.clone() }));
    let s = &tui.screen;
    let n0 = lines.first().map_or(0, |l| l.plain().chars().count()).min(w);
    let x = w - n0;
    let y = h - count.min(h);
    for r in 0..h {
        for c in 0..w {
            let cell = s.rows[r][c];
            let want = if r >= y && c >= x { lines[r - y].plain().chars().nth(c - x) } else { None };
            match want {
                Some(want) => {
                    check(cell.c == want, "a hint is shown in the corner of the screen");
                    check(cell.reverse, "a hint is reversed");
                    cover("hint");
                }
                None => check(cell == BLANK, "a hint leaves the rest of the screen alone"),
            }
        }
    }
    if count > h {
        cover("hint cut");
    }
    cover("drawn");
}

fn keys(p: usize) {
    let mut tui = Tui::new(8, 4);
    let shown = if p > 0 && flag() {
        let m = some_menu(1, 2);
        tui.tell(notifications::Menu::new(again(&m)));
        Some(m)
    } else {
        None
    };
    let (ctrl, alt, shift) = (flag(), flag(), flag());
    let mut mods = KeyModifiers::empty();
    mods.set(KeyModifiers::CONTROL, ctrl);
    mods.set(KeyModifiers::ALT, alt);
    mods.set(KeyModifiers::SHIFT, shift);
    let mut selected = 0;
    if let Some(m) = &shown {
        // down to any entry
        selected = range(0, m.entries.len().saturating_sub(1));
        for _ in 0..selected {
            tui.key(KeyCode::Down);
        }
    }
    let kind = pick(12);
    let code = match kind {
        0 => KeyCode::Char(byte(0x20, 0x7e) as char),
        1 => KeyCode::Char(char::from_u32(u32s(0xc0, 0xff)).unwrap()),
        2 => KeyCode::Backspace,
        3 => KeyCode::Enter,
        4 => KeyCode::Esc,
        5 => KeyCode::Up,
        6 => KeyCode::Down,
        7 => KeyCode::Left,
        8 => KeyCode::Right,
        9 => KeyCode::Tab,
        10 => KeyCode::F(num(1, 12) as u8),
        _ => KeyCode::Home,
    };
    let c = match code {
        KeyCode::Char(c) => Some(c),
        _ => None,
    };
    if shown.is_none() && ctrl {
        // keys of its developers
        assume(c != Some('x') && c != Some('d') && c != Some('e'));
    }
    let exits = tui.input(Event::Key(CKeyEvent::new(code, mods)));
    let sent = tui.sent();
    check(tui.sent().is_none(), "a key sends one request at most");
    let ask = |command: &str, search: &str| match &sent {
        Some(r) => match r.params::<AskParams>() {
            Ok(Some(x)) if r.method == "menu" => check(x.command == command && x.search == search, "a key asks for its menu"),
            _ => check(false, "a key asks for its menu"),
        },
        None => check(false, "a key asks for its menu"),
    };
    let nothing = || check(sent.is_none(), "other keys send nothing");
    if let Some(m) = shown {
        check(!exits, "a menu has to be left first");
        let left = tui.term().verif_connection().state().menu;
        let open = left.is_some();
        match kind {
            0 | 1 => {
                let mut search = m.search.clone();
                search.push(c.unwrap());
                ask(&m.command, &search);
                check(open, "a menu stays while it is searched");
                cover("searched");
            }
            2 => {
                let mut search = m.search.clone();
                search.pop();
                ask(&m.command, &search);
                check(open, "a menu stays while it is searched");
                cover("searched less");
            }
            3 => {
                check(!open, "choosing leaves the menu");
                match (&sent, m.entries.get(selected)) {
                    (None, None) => {}
                    (Some(r), Some(e)) => match r.params::<MenuSelectParams>() {
                        Ok(Some(x)) if r.method == "menu-select" => {
                            check(x.command == m.command && x.choice == e.value, "the selected entry is chosen");
                            cover("chosen");
                        }
                        _ => check(false, "the selected entry is chosen"),
                    },
                    _ => check(false, "the selected entry is chosen"),
                }
                check_view(&tui.screen, &vec![], &Text::from(Vec::new()), &[]);
            }
            4 => {
                check(!open, "a menu can be left");
                nothing();
                check_view(&tui.screen, &vec![], &Text::from(Vec::new()), &[]);
                cover("left");
            }
            5 | 6 => {
                nothing();
                let last = m.entries.len().saturating_sub(1);
                let want = if kind == 5 { selected.saturating_sub(1) } else { (selected + 1).min(last) };
                check(left.map(|l| l.selected) == Some(want), "the selection moves in the menu");
                check_menu(&tui.screen, &m, want);
                cover("moved");
            }
            _ => {
                nothing();
                check(open, "other keys leave a menu alone");
            }
        }
        return;
    }
    if alt && c == Some('q') {
        check(exits, "the front end can be left");
        nothing();
        return cover("exit");
    }
    check(!exits, "the front end goes on");
    if ctrl && c == Some('f') {
        ask("open", "");
        cover("open");
    } else if ctrl && c == Some('p') {
        ask("", "");
        cover("commands");
    } else if ctrl && c == Some('v') {
        ask("view_select", "");
        cover("views");
    } else if kind < 2 || kind == 4 {
        let key = c.map_or(Key::Escape, Key::Char);
        let want = KeyEvent { ctrl, alt, shift, key };
        match sent.map(|r| (r.method.clone(), r.params::<Vec<KeyEvent>>())) {
            Some((m, Ok(Some(v)))) if m == "keys" => check(v == vec![want], "a key is sent as it was typed"),
            _ => check(false, "a key is sent as it was typed"),
        }
        cover("key");
    } else {
        nothing();
        cover("nothing");
    }
}

/// An error of the front end is shown by its editor.
fn errors(p: usize) {
    let mut ed = crate::editor::Ed::new();
    ed.join(1);
    ed.drain();
    let mut tui = Tui::new(8, 2);
    let mut message = String::new();
    for _ in 0..range(0, p % 10) {
        message.push(match pick(8) {
            0 => '"',
            1 => '\'',
            2 => '\\',
            3 => '\n',
            4 => 'é',
            5 => '\u{7f}',
            6 => ']',
            _ => '\u{301}',
        });
    }
    tui.term().verif_event(ced_remote::ConnectionEvent::ConnErr(message.clone()));
    let Some(r) = tui.sent() else { return check(false, "an error is reported") };
    let answer = ed.request(1, &r.to_string());
    check(matches!(answer.result::<()>(), Ok(Ok(()))), "an error can be reported");
    let mut shown = false;
    for s in ed.drain() {
        if s.method != "echo" {
            continue;
        }
        check(s.to == [1], "an error is shown to the client it is of");
        let t: Text = s.params();
        let f: Vec<&TextFragment> = t.iter().collect();
        check(f.len() == 1 && f[0].face == Face::Error, "an error is shown as an error");
        let flat: String = message.lines().next().unwrap_or("").into();
        check(f[0].text.contains(&flat), "an error is shown with its message");
        observe(f[0].text.as_bytes());
        shown = true;
    }
    check(shown, "an error is shown");
    cover("shown");
}

/// What is there between a front end, its terminal and its server.
struct Live {
    screen: Screen,
    server: MemoryStream,
    view: ViewParams,
    echo: Option<Text>,
    status: Vec<Text>,
    menu: Option<(MenuParams, usize)>,
    sent: Vec<u8>,
    files: Vec<&'static str>,
    asked: Vec<Ask>,
    errors: usize,
    // asked when the front end last came to rest
    due: usize,
    leaves: bool,
    over: bool,
}

/// What a key asks for.
#[derive(Debug)]
enum Ask {
    Key(KeyEvent),
    Menu(String, String),
    Select(String, String),
}

impl Live {
    fn tell(&mut self, note: ced_remote::jsonrpc::Notification) {
        let line = format!("{}\n", ClientEvent::Notification(note));
        self.server.feed(line.as_bytes());
    }
    fn key(&mut self, code: KeyCode, mods: KeyModifiers) {
        input(Ok(Event::Key(CKeyEvent::new(code, mods))));
    }
    fn requests(&mut self, all: bool) {
        self.sent.extend(self.server.drain());
        check(self.sent.is_empty() || self.sent[self.sent.len() - 1] == b'\n', "whole requests are sent");
        let mut files = self.files.iter();
        let mut asked = self.asked.iter();
        let (mut errors, mut asks) = (0, 0);
        for line in string(&self.sent).lines() {
            let Ok(r) = line.parse::<Request>() else { return check(false, "requests are sent, one a line") };
            match r.method.as_str() {
                "edit" => {
                    let name = r.params::<EditParams>().ok().flatten();
                    let want = files.next();
                    check(name.is_some() && want.is_some(), "each file is edited once");
                    if let (Some(x), Some(name)) = (name, want) {
                        check(x.name == *name && !x.scratch, "the files are edited in order");
                    }
                    check(errors + asks == 0, "the files are edited first");
                }
                "exec" => errors += 1,
                method => {
                    let same = match asked.next() {
                        None => false,
                        Some(Ask::Key(k)) => method == "keys" && matches!(r.params::<Vec<KeyEvent>>(), Ok(Some(v)) if v.len() == 1 && v[0] == *k),
                        Some(Ask::Menu(command, search)) => {
                            method == "menu"
                                && matches!(r.params::<AskParams>(), Ok(Some(x)) if x.command == *command && x.search == *search)
                        }
                        Some(Ask::Select(command, choice)) => {
                            method == "menu-select"
                                && matches!(r.params::<MenuSelectParams>(), Ok(Some(x)) if x.command == *command && x.choice == *choice)
                        }
                    };
                    check(same, "what is typed is sent once, in order");
                    asks += 1;
                }
            }
        }
        check(errors <= self.errors, "the server is told of what it got wrong only");
        if all {
            check(files.next().is_none(), "each file is edited");
            check(asks == self.asked.len(), "what is typed is sent at once");
            check(errors == self.errors, "the server is told what it got wrong");
        }
        check(asks >= self.due, "what was typed was sent");
    }
    /// When a front end waits.
    fn settled(&mut self) {
        self.screen.show(&drawn());
        self.requests(true);
        self.due = self.asked.len();
        check(self.screen.entered && !self.screen.shows_cursor, "a front end has a screen of its own");
        check(!self.leaves, "a front end can be left");
        check(!self.over, "a front end ends with its server");
        let s = &self.screen;
        let none = Text::from(Vec::new());
        match &self.menu {
            // a message is shown over the menu
            Some((m, selected)) if self.echo.is_none() => check_menu(s, m, *selected),
            Some(_) => check_status(s, self.echo.as_ref().unwrap(), &self.status),
            None if self.view.is_empty() && self.echo.is_none() && self.status.is_empty() => {}
            None => check_view(s, &self.view, self.echo.as_ref().unwrap_or(&none), &self.status),
        }
    }
    /// Something happens; whether nothing else may before the front end goes on.
    fn happens(&mut self, kinds: usize, first: bool) -> bool {
        match pick(kinds) {
            0 => {
                let c = byte(b'a', b'z') as char;
                self.key(KeyCode::Char(c), KeyModifiers::empty());
                match &self.menu {
                    Some((m, _)) => {
                        // the server is asked, and has not answered
                        let search = format!("{}{}", m.search, c);
                        self.asked.push(Ask::Menu(m.command.clone(), search));
                        cover("searched");
                    }
                    None => {
                        self.asked.push(Ask::Key(KeyEvent { ctrl: false, alt: false, shift: false, key: Key::Char(c) }));
                        cover("key");
                    }
                }
            }
            1 => {
                let mut t = "\u{e9}".to_string();
                t.push(byte(b'a', b'z') as char);
                let line: Text = TextFragment { text: t, face: FACES[pick(3)].clone() }.into();
                let lines: Vec<Text> = vec![line, "b".into()];
                self.view = vec![ViewParamsItem {
                    buffer: "b".into(),
                    start: 1,
                    end: 2,
                    lenses: vec![ViewParamsLens { lines, first_line_num: 1 }],
                }];
                self.tell(View::new(self.view.clone()));
                cover("view");
            }
            2 => {
                let mut t = "\u{e9}".to_string();
                t.push(byte(b'a', b'z') as char);
                let echo: Text = t.as_str().into();
                self.tell(Echo::new(echo.clone()));
                self.echo = Some(echo);
                cover("message");
            }
            3 => {
                let mut t = "\u{e9}".to_string();
                t.push(byte(b'a', b'z') as char);
                let text: Text = t.as_str().into();
                self.tell(Status::new(vec![StatusParamsItem { index: 1, text: text.clone() }]));
                self.status = vec![text];
                cover("status");
            }
            4 => {
                // no message, or of another kind
                let b = byte(0x20, 0x7e);
                if flag() {
                    self.server.feed(&[b'z', b, b'\n']);
                    self.errors += 1;
                    cover("no message");
                } else {
                    self.server.feed(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}\n{\"jsonrpc\":\"2.0\",\"method\":\"new\"}\n");
                    cover("other message");
                }
            }
            5 => {
                // drawn in the new size
                let (w, h) = (self.screen.w + 1, self.screen.h);
                let shows_cursor = self.screen.shows_cursor;
                self.screen = Screen { entered: true, shows_cursor, ..Screen::new(w, h) };
                input(Ok(Event::Resize(w as u16, h as u16)));
                cover("resized");
                return true;
            }
            6 => {
                input(Err(std::io::Error::from(std::io::ErrorKind::Other).into()));
                self.errors += 1;
                cover("no event");
            }
            7 => {
                if self.menu.is_some() {
                    return true;
                }
                self.key(KeyCode::Char('q'), KeyModifiers::ALT);
                self.leaves = true;
                cover("left");
                return true;
            }
            8 => {
                // the server leaves
                if flag() {
                    self.server.reset();
                } else {
                    self.server.close();
                }
                self.over = true;
                cover("server left");
                if flag() {
                    // without the user knowing
                    self.key(KeyCode::Char('x'), KeyModifiers::empty());
                    self.asked.push(Ask::Key(KeyEvent { ctrl: false, alt: false, shift: false, key: Key::Char('x') }));
                    cover("key");
                }
                return true;
            }
            // keys go to the menu or not, as they arrive before or after it
            9 if !first => return true,
            9 => {
                let entry = |v: &str| MenuParamsEntry { value: v.into(), text: v.into(), description: None };
                let mut entries = vec![entry("v"), entry("w"), entry("\u{e9}")];
                entries.truncate(range(0, 3));
                let mut search = String::new();
                search.push(byte(b'a', b'z') as char);
                let m = MenuParams { command: "c".into(), title: "t".into(), search, entries };
                self.tell(notifications::Menu::new(again(&m)));
                self.echo = None;
                self.menu = Some((m, 0));
                cover("menu");
                return true;
            }
            k => {
                let Some((m, at)) = self.menu.as_mut() else { return true };
                let last = m.entries.len().saturating_sub(1);
                let code = match k {
                    10 => KeyCode::Down,
                    11 => KeyCode::Up,
                    12 => KeyCode::Enter,
                    _ => KeyCode::Esc,
                };
                match k {
                    10 => *at = (*at + 1).min(last),
                    11 => *at = at.saturating_sub(1),
                    12 => {
                        if let Some(e) = m.entries.get(*at) {
                            self.asked.push(Ask::Select(m.command.clone(), e.value.clone()));
                        }
                    }
                    _ => {}
                }
                if k > 11 {
                    self.menu = None;
                    cover("menu left");
                }
                self.key(code, KeyModifiers::empty());
            }
        }
        false
    }
}

/// A front end, its terminal and its server.
fn live(p: usize) {
    let (steps, burst) = (p % 10, p / 10 % 10);
    let limit = [usize::MAX, 9][p / 100 % 10];
    let kinds = [10, 14][p / 1000 % 10];
    #[cfg(feature = "native")]
    nowhere();
    drawn();
    let (w, h) = ([1, 12][pick(2)], 4);
    ced::tui::verif::terminal::set_size((w as u16, h as u16));
    let (ours, server) = MemoryStream::pair(limit);
    connects(ours);
    let files: Vec<&'static str> = ["f", "\u{e9}/g"].into_iter().take(range(0, 2)).collect();
    let live = Live {
        screen: Screen::new(w, h),
        server,
        view: vec![],
        echo: None,
        status: vec![],
        menu: None,
        sent: vec![],
        files: files.clone(),
        asked: vec![],
        errors: 0,
        due: 0,
        leaves: false,
        over: false,
    };
    let live = Rc::new(RefCell::new(live));
    let l2 = live.clone();
    let mut left = steps;
    ced::clients::verif::waits(Box::new(move || {
        let l = &mut *l2.borrow_mut();
        l.settled();
        if left == 0 {
            let alt_q = l.menu.is_none() && flag();
            if alt_q {
                l.key(KeyCode::Char('q'), KeyModifiers::ALT);
                l.leaves = true;
            } else {
                l.server.close();
                l.over = true;
            }
            return;
        }
        left -= 1;
        for i in 0..burst {
            if l.happens(kinds, i == 0) {
                return;
            }
            if i + 1 < burst && !flag() {
                return;
            }
        }
    }));
    let mut term = Term::new(Session::from_name("s"), &files);
    term.start();
    {
        let l = &mut *live.borrow_mut();
        check(l.leaves || l.over, "a front end goes on until it is left");
        l.screen.show(&drawn());
        l.requests(false);
        observe(&l.sent);
    }
    drop(term);
    let l = &mut *live.borrow_mut();
    l.screen.show(&drawn());
    check(!l.screen.entered && l.screen.shows_cursor, "the terminal is set back");
    cover("end");
}

/// A directory in which nothing can be made.
#[cfg(feature = "native")]
fn nowhere() {
    let dir = std::path::Path::new(DIR).join("gone");
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    std::fs::remove_dir(&dir).unwrap();
}
