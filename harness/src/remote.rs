//! The protocol and the client's side of it.
use crate::model::*;
use crate::sym::*;
use ced_remote::jsonrpc::{ClientEvent, Error, Id, Notification as Note, Request, Response};
use ced_remote::protocol::notifications::{self, *};
use ced_remote::protocol::requests::{self, Request as _};
use ced_remote::protocol::{Face, Key, KeyEvent, Text, TextFragment};
use ced_remote::{Connection, ConnectionEvent, ConnectionMode, ConnectionState, Session};
use serde_json::Value;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};

pub fn run(idx: usize, p: usize) {
    match idx {
        2000 => request_trip(p),
        2001 => response_trip(p),
        2002 => notification_trip(p),
        2010 => key_trip(p),
        2011 => key_parse(p),
        2020 => names(p),
        2021 => addresses(p),
        2030 => mirror(p),
        2040 => menu(p),
        2050 => sends(p),
        _ => panic!("no such scenario"),
    }
}

/// Any text, with all that JSON treats specially.
pub fn wild(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..range(0, n) {
        match pick(5) {
            0 => v.push(byte(0, 0x1f)),
            1 => v.push(byte(0x20, 0x7f)),
            2 => one(Class::Two, &mut v),
            3 => v.extend([0xe2, 0x80, byte(0x80, 0xbf)]),
            _ => one(Class::Four, &mut v),
        }
    }
    string(&v)
}

fn some_id(n: usize) -> Id {
    match pick(5) {
        0 => Id::Number([0, 1, -1, 42, i32::MAX, i32::MIN][pick(6)]),
        1 => Id::Null,
        2 => Id::Number(num(0, 255) as i32 - 100),
        _ => Id::String(wild(n)),
    }
}

fn framed(s: &str) {
    check(!s.as_bytes().contains(&b'\n'), "a message is written on one line");
}

fn request_trip(p: usize) {
    // one of the parts is any text, the others are plain
    let n = p % 10;
    let part = pick(3);
    let id = if part == 0 { some_id(n) } else { Id::Number(1) };
    let method = if part == 1 { wild(n) } else { "edit".into() };
    let text = if part == 2 { wild(n) } else { "t".into() };
    let kind = pick(4);
    let r = match kind {
        0 => Request::new::<(), _, _>(id.clone(), method.clone(), None),
        1 => Request::new(id.clone(), method.clone(), text.clone()),
        2 => Request::new(id.clone(), method.clone(), vec![text.clone(), String::new()]),
        _ => Request::new(id.clone(), method.clone(), num(0, 200)),
    };
    let r = r.unwrap();
    let s = r.to_string();
    framed(&s);
    observe(s.as_bytes());
    let Ok(back) = s.parse::<Request>() else { return check(false, "a request can be read back") };
    check(back.id == id, "a request keeps its id");
    check(back.method == method, "a request keeps its method");
    match kind {
        0 => check(matches!(back.params::<Value>(), Ok(None)), "a request keeps its parameters"),
        1 => check(matches!(back.params::<String>(), Ok(Some(x)) if x == text), "a request keeps its parameters"),
        2 => check(matches!(back.params::<Vec<String>>(), Ok(Some(x)) if x.len() == 2 && x[0] == text && x[1].is_empty()), "a request keeps its parameters"),
        _ => {
            let (a, b) = (r.params::<usize>().unwrap(), back.params::<usize>());
            check(matches!(b, Ok(b) if b == a), "a request keeps its parameters");
        }
    }
    cover("request");
}

fn response_trip(p: usize) {
    let n = p % 10;
    let part = pick(2);
    let id = if part == 0 { some_id(n) } else { Id::Number(1) };
    let text = if part == 1 { wild(n) } else { "t".into() };
    let kind = pick(5);
    // an answer may be changed before it is sent
    let changed = kind < 4 && flag();
    let mut r: Response = match kind {
        2 | 3 if changed => Response::new(id.clone(), Ok(text.clone())).unwrap(),
        0 | 1 if changed => Response::new::<()>(id.clone(), Err(Error::new(7, text.clone(), 3).unwrap())).unwrap(),
        0 => Response::new(id.clone(), Ok(())).unwrap(),
        1 => Response::new(id.clone(), Ok(text.clone())).unwrap(),
        2 => Response::new::<()>(id.clone(), Err(Error::new(7, text.clone(), 3).unwrap())).unwrap(),
        3 => Response::new::<()>(id.clone(), Err(Error::new::<(), _>(-7, text.clone(), None).unwrap())).unwrap(),
        _ => match pick(3) {
            0 => Response::invalid_request(id.clone(), &text),
            1 => Response::method_not_found(id.clone(), &text),
            _ => Response::invalid_params(id.clone(), &text),
        },
    };
    if changed {
        let done = match kind {
            0 => r.set_result(Ok(())),
            1 => r.set_result(Ok(text.clone())),
            2 => r.set_result::<()>(Err(Error::new(7, text.clone(), 3).unwrap())),
            _ => r.set_result::<()>(Err(Error::new::<(), _>(-7, text.clone(), None).unwrap())),
        };
        check(done.is_ok(), "an answer may be changed before it is sent");
        // both at once are no answer
        let v: Value = serde_json::from_str(&r.to_string()).unwrap();
        let has = |k: &str| v.get(k).map_or(false, |x| !x.is_null());
        check(has("error") == (kind > 1) && !(has("error") && has("result")), "an answer is a result or an error");
        cover("changed");
    }
    let s = r.to_string();
    framed(&s);
    observe(s.as_bytes());
    let back = match s.parse::<ClientEvent>() {
        Ok(ClientEvent::Response(r)) => r,
        _ => return check(false, "a response is read back as a response"),
    };
    check(back.id == id, "a response keeps its id");
    match kind {
        0 => check(matches!(back.result::<()>(), Ok(Ok(()))), "a response keeps its result"),
        1 => check(matches!(back.result::<String>(), Ok(Ok(x)) if x == text), "a response keeps its result"),
        _ => match back.result::<Value>() {
            Ok(Err(e)) => {
                let v: Value = serde_json::from_str(&e.to_string()).unwrap();
                let c = v["code"].as_i64();
                if kind == 2 || kind == 3 {
                    check(c == Some(if kind == 2 { 7 } else { -7 }), "a response keeps its error");
                    check(v["message"].as_str() == Some(&text), "a response keeps its error");
                    let d = e.data::<i32>();
                    check(matches!(d, Ok(d) if d == if kind == 2 { Some(3) } else { None }), "a response keeps its error");
                } else {
                    check([Some(-32600), Some(-32601), Some(-32602)].contains(&c), "a response keeps its error");
                    check(matches!(e.data::<String>(), Ok(Some(d)) if d == text), "a response keeps its error");
                }
                cover("error");
            }
            _ => check(false, "a response keeps its error"),
        },
    }
    cover("response");
}

const FACES: [Face; 5] = [Face::Default, Face::Error, Face::Match, Face::Prompt, Face::Selection];

pub fn fragment(n: usize) -> TextFragment {
    TextFragment { text: wild(n), face: FACES[pick(5)].clone() }
}

fn same(a: &Text, b: &[TextFragment]) -> bool {
    let a: Vec<&TextFragment> = a.iter().collect();
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.text == y.text && x.face == y.face)
}

fn notification_trip(p: usize) {
    let n = p % 10;
    let kind = pick(6);
    let (f, w) = (fragment(n), wild(n));
    let num = num(0, 200);
    let plain: Text = w.as_str().into();
    let t: Text = f.clone().into();
    let f = [f];
    let note = match kind {
        0 => Echo::new(t),
        1 => Hint::new(HintParams { text: vec![t, plain] }),
        2 => Info::new(InfoParams { client: w.clone(), session: f[0].text.clone(), cwd: w.clone() }),
        3 => notifications::Menu::new(MenuParams {
            command: w.clone(),
            title: "t".into(),
            search: f[0].text.clone(),
            entries: vec![
                MenuParamsEntry { value: w.clone(), text: t, description: None },
                MenuParamsEntry { value: String::new(), text: plain, description: Some(w.clone()) },
            ],
        }),
        4 => Status::new(vec![StatusParamsItem { index: num as isize - 100, text: t }]),
        _ => View::new(vec![
            ViewParamsItem { buffer: w.clone(), start: num, end: 2, lenses: vec![ViewParamsLens { lines: vec![t, plain], first_line_num: num }] },
            ViewParamsItem::default(),
        ]),
    };
    let s = note.to_string();
    framed(&s);
    observe(s.as_bytes());
    let back = match s.parse::<ClientEvent>() {
        Ok(ClientEvent::Notification(r)) => r,
        _ => return check(false, "a notification is read back as a notification"),
    };
    check(back.method == ["echo", "hint", "info", "menu", "status", "view"][kind], "a notification keeps its method");
    check(back == note, "a notification is read back as it was");
    let lost = || check(false, "a notification keeps its parameters");
    match kind {
        0 => match back.params::<Text>() {
            Ok(Some(x)) => check(same(&x, &f), "a notification keeps its parameters"),
            _ => lost(),
        },
        1 => match back.params::<HintParams>() {
            Ok(Some(x)) => check(x.text.len() == 2 && same(&x.text[0], &f), "a notification keeps its parameters"),
            _ => lost(),
        },
        2 => match back.params::<InfoParams>() {
            Ok(Some(x)) => check(x.client == w && x.session == f[0].text && x.cwd == w, "a notification keeps its parameters"),
            _ => lost(),
        },
        3 => match back.params::<MenuParams>() {
            Ok(Some(x)) => {
                check(x.command == w && x.title == "t" && x.search == f[0].text, "a notification keeps its parameters");
                let e = &x.entries;
                check(e.len() == 2 && e[0].value == w && same(&e[0].text, &f) && e[0].description.is_none(), "a notification keeps its parameters");
                check(e[1].value.is_empty() && e[1].description.as_ref() == Some(&w), "a notification keeps its parameters");
            }
            _ => lost(),
        },
        4 => match back.params::<StatusParams>() {
            Ok(Some(x)) => check(x.len() == 1 && x[0].index == num as isize - 100 && same(&x[0].text, &f), "a notification keeps its parameters"),
            _ => lost(),
        },
        _ => match back.params::<ViewParams>() {
            Ok(Some(x)) => {
                check(x.len() == 2 && x[0].buffer == w && (x[0].start, x[0].end) == (num, 2), "a notification keeps its parameters");
                let l = &x[0].lenses;
                check(l.len() == 1 && l[0].first_line_num == num && l[0].lines.len() == 2 && same(&l[0].lines[0], &f), "a notification keeps its parameters");
            }
            _ => lost(),
        },
    }
    cover(["echo", "hint", "info", "menu", "status", "view"][kind]);
}

fn any_key() -> Key {
    match pick(12) {
        0 => Key::Char(byte(0x20, b'@') as char),
        1 => Key::Char(byte(b'[', 0x7e) as char),
        2 => Key::Char(char::from_u32(u32s(0xa1, 0x17f)).unwrap()),
        3 => Key::Char(char::from_u32(u32s(0x1f600, 0x1f64f)).unwrap()),
        4 => Key::Backspace,
        5 => Key::Enter,
        6 => Key::Escape,
        7 => Key::Up,
        8 => Key::Down,
        9 => Key::Left,
        10 => Key::Right,
        _ => Key::Char(byte(0, 0x1f) as char),
    }
}

fn same_key(a: &Key, b: &Key) -> bool {
    a == b
}

fn key_trip(_p: usize) {
    let e = KeyEvent { ctrl: flag(), alt: flag(), shift: flag(), key: any_key() };
    let s = e.to_string();
    observe(s.as_bytes());
    let back = KeyEvent::from(s.as_str());
    check(same_key(&back.key, &e.key), "a key is read back from what it is written as");
    check((back.ctrl, back.alt, back.shift) == (e.ctrl, e.alt, e.shift), "the modifiers of a key are read back");
    let id = Id::Number(1);
    let r = requests::Keys::new(id, KeyEvent { ctrl: e.ctrl, alt: e.alt, shift: e.shift, key: any_copy(&e.key) });
    let line = r.to_string();
    framed(&line);
    match line.parse::<Request>().map(|r| r.params::<Vec<KeyEvent>>()) {
        Ok(Ok(Some(v))) => check(v.len() == 1 && v[0] == e, "a key is sent as it was typed"),
        _ => check(false, "a key is sent as it was typed"),
    }
    cover("key");
}

fn any_copy(k: &Key) -> Key {
    match k {
        Key::Char(c) => Key::Char(*c),
        Key::Backspace => Key::Backspace,
        Key::Enter => Key::Enter,
        Key::Escape => Key::Escape,
        Key::Up => Key::Up,
        Key::Down => Key::Down,
        Key::Left => Key::Left,
        Key::Right => Key::Right,
    }
}

/// A typed character is a key.
fn key_parse(_p: usize) {
    let c = match pick(3) {
        0 => byte(0, 0x7f) as char,
        1 => char::from_u32(u32s(0xa1, 0x24f)).unwrap(),
        _ => char::from_u32(u32s(0x1f600, 0x1f64f)).unwrap(),
    };
    let e = KeyEvent::from(c);
    let upper = c.is_ascii_uppercase();
    check(e.shift == upper && !e.ctrl && !e.alt, "an upper case letter is typed with shift");
    let lower = if upper { (c as u8 + 0x20) as char } else { c };
    check(e.key == Key::Char(lower), "a typed character is its key");
    let back = KeyEvent::from(e.to_string().as_str());
    check(back == e, "a typed character is read back from what it is written as");
    cover("typed");
}

/// An IPv4 address and port, as a session may be named by.
fn address(s: &[u8]) -> Option<SocketAddr> {
    let s = s.strip_prefix(b"@")?;
    let colon = s.iter().rposition(|b| *b == b':')?;
    let (host, port) = (&s[..colon], &s[colon + 1..]);
    let number = |d: &[u8], max: u32| -> Option<u32> {
        if d.is_empty() || d.iter().any(|b| !b.is_ascii_digit()) {
            return None;
        }
        let n = d.iter().fold(0u32, |n, b| (n * 10 + (b - b'0') as u32).min(1 << 20));
        if n <= max {
            Some(n)
        } else {
            None
        }
    };
    let port = number(port, 65535)? as u16;
    let ip = if host.is_empty() {
        [127, 0, 0, 1]
    } else {
        let parts: Vec<&[u8]> = host.split(|b| *b == b'.').collect();
        if parts.len() != 4 {
            return None;
        }
        let mut ip = [0u8; 4];
        for (i, x) in parts.iter().enumerate() {
            // an octet is written without leading zeros
            if x.len() > 3 || (x.len() > 1 && x[0] == b'0') {
                return None;
            }
            ip[i] = number(x, 255)? as u8;
        }
        ip
    };
    Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(ip[0], ip[1], ip[2], ip[3])), port))
}

fn check_name(name: &[u8], display: bool) {
    let text = string(name);
    let s = Session::from_name(&text);
    match address(name) {
        Some(a) => {
            check(s.mode == ConnectionMode::Tcp(a), "the name of an address is the address");
            cover("address");
        }
        None => {
            let path = format!("{}/t/ced-u/{}", DIR, text);
            check(s.mode == ConnectionMode::Socket(path.into()), "any other name is the one of a socket of the user");
            check(s.to_string() == text, "a session is displayed as its name");
            cover("socket");
        }
    }
    if !display {
        return;
    }
    // what a server is started with names the same session
    let again = Session::from_name(&s.to_string());
    check(again.mode == s.mode, "a server is given the session of its client");
    observe(s.to_string().as_bytes());
}

fn names(p: usize) {
    let mut name = vec![];
    Session::from_name("x");
    for _ in 0..range(1, p % 10) {
        match pick(5) {
            0 => name.push(byte(0x30, 0x39)),
            1 => name.push([b'@', b':', b'.', b'-'][pick(4)]),
            2 => name.push(byte(0x41, 0x7e)),
            3 => one(Class::Two, &mut name),
            _ => name.push(byte(0x20, 0x2d)),
        }
    }
    if name == b"." || name == b".." {
        return;
    }
    check_name(&name, true);
}

/// Names which look like addresses.
fn addresses(p: usize) {
    let mut name = vec![b'@'];
    // the digits are symbolic unless the address is displayed too
    let display = p < 100;
    Session::from_name("x");
    let digits = |name: &mut Vec<u8>, lo: usize, hi: usize| {
        for _ in 0..range(lo, hi) {
            name.push(if display { b'0' + pick(10) as u8 } else { byte(b'0', b'9') });
        }
    };
    match pick(5) {
        0 => {}
        1 => {
            let at = pick(4);
            for i in 0..4 {
                if i > 0 {
                    name.push(b'.');
                }
                if i == at {
                    digits(&mut name, 0, p / 10 % 10);
                } else {
                    name.push(b'1');
                }
            }
            name.extend(b":7");
            return check_name(&name, display);
        }
        2 => name.extend(b"1.2.3"),
        3 => name.extend(b"host"),
        _ => name.extend(b"10.0.0.1"),
    }
    name.push(b':');
    if flag() {
        name.extend(b"655");
        digits(&mut name, 2, 2);
    } else {
        digits(&mut name, 0, p % 10);
    }
    check_name(&name, display);
}

fn connection() -> Connection {
    Connection::new(Session::from_name("x"))
}

fn texts(t: &Option<Text>) -> Option<String> {
    t.as_ref().map(|t| t.iter().map(|f| f.text.clone()).collect())
}

fn view_names(v: &ViewParams) -> Vec<String> {
    v.iter().map(|i| i.buffer.clone()).collect()
}

fn mirror(p: usize) {
    let c = connection();
    let mut client = String::new();
    let mut session = String::new();
    let (mut echo, mut menu): (Option<String>, Option<String>) = (None, None);
    let mut status: Vec<isize> = vec![];
    let mut view: Vec<String> = vec![];
    for step in 0..p % 10 {
        let w = format!("{}{}", step, if step == 0 { wild(p / 10 % 10) } else { String::new() });
        let kind = pick(12);
        let line = match kind {
            0 => Echo::new(w.as_str()).to_string(),
            1 => Info::new(InfoParams { client: w.clone(), session: format!("s{}", w), cwd: "/".into() }).to_string(),
            2 => notifications::Menu::new(MenuParams { command: w.clone(), title: "t".into(), search: "".into(), entries: vec![] }).to_string(),
            3 => Status::new(vec![StatusParamsItem { index: step as isize, text: w.as_str().into() }]).to_string(),
            4 => View::new(vec![ViewParamsItem { buffer: w.clone(), start: 1, end: 1, lenses: vec![] }]).to_string(),
            5 => Hint::new(HintParams { text: vec![w.as_str().into()] }).to_string(),
            6 => Note::new("other", w.clone()).unwrap().to_string(),
            7 => Response::new(Id::Number(1), Ok(w.clone())).unwrap().to_string(),
            8 => Note::new(["echo", "hint", "info", "menu", "status", "view"][pick(6)], 5).unwrap().to_string(),
            9 => Note::new::<(), _, _>(["echo", "hint", "info", "menu", "status", "view"][pick(6)], None).unwrap().to_string(),
            10 => Status::new(vec![]).to_string(),
            _ => View::new(vec![]).to_string(),
        };
        let Ok(ev) = line.parse::<ClientEvent>() else { return check(false, "what the server sends can be read") };
        let got = c.verif_event(&ev);
        match (kind, &got) {
            (0, ConnectionEvent::Echo(t)) => {
                echo = Some(w.clone());
                check(texts(&Some(t.clone())) == echo, "an event has what was sent");
            }
            (1, ConnectionEvent::Info(a, b)) => {
                client = w.clone();
                session = format!("s{}", w);
                check(*a == client && *b == session, "an event has what was sent");
            }
            (2, ConnectionEvent::Menu(m)) => {
                menu = Some(w.clone());
                echo = None;
                check(m.command == w && m.selected == 0 && m.entries.is_empty(), "an event has what was sent");
            }
            (3, ConnectionEvent::Status(s)) => {
                status = vec![step as isize];
                check(s.len() == 1 && s[0].index == step as isize, "an event has what was sent");
            }
            (4, ConnectionEvent::View(v)) => {
                view = vec![w.clone()];
                check(view_names(v) == view, "an event has what was sent");
            }
            (5, ConnectionEvent::Hint(h)) => check(h.text.len() == 1 && texts(&Some(h.text[0].clone())).as_ref() == Some(&w), "an event has what was sent"),
            (10, ConnectionEvent::Status(s)) => {
                status = vec![];
                check(s.is_empty(), "an event has what was sent");
            }
            (11, ConnectionEvent::View(v)) => {
                view = vec![];
                check(v.is_empty(), "an event has what was sent");
            }
            (6..=9, ConnectionEvent::Noop) => cover("ignored"),
            _ => check(false, "what the server sends is the event it says"),
        }
        let s: ConnectionState = c.state();
        check(s.client == client && s.session == session, "a client knows who it is as it was last told");
        check(texts(&s.echo) == echo, "a client has the last message");
        check(s.menu.map(|m| m.command) == menu, "a client has the last menu");
        check(s.status.iter().map(|i| i.index).collect::<Vec<_>>() == status, "a client has the last status line");
        check(view_names(&s.view) == view, "a client has the last view");
        cover("event");
    }
}

fn sent(c: &Connection, id: i32) -> Option<(String, Value)> {
    let r = c.verif_sent()?;
    check(r.id == Id::Number(id), "requests are numbered in order");
    let line = r.to_string();
    framed(&line);
    let v = r.params::<Value>();
    check(v.is_ok(), "a request has its parameters");
    Some((r.method, v.unwrap().unwrap_or(Value::Null)))
}

fn menu(p: usize) {
    let mut c = connection();
    let mut ids = 0;
    let n = pick(p / 10 % 10);
    let prompt = n == 1 && flag();
    let search = if flag() { wild(1) } else { String::new() };
    let entries: Vec<MenuParamsEntry> = (0..n)
        .map(|i| MenuParamsEntry { value: if prompt { String::new() } else { format!("v{}", i) }, text: "t".into(), description: None })
        .collect();
    let params = || MenuParams { command: "cmd".into(), title: "t".into(), search: search.clone(), entries: entries.clone() };
    let show = |c: &Connection| {
        let ev: ClientEvent = notifications::Menu::new(params()).to_string().parse().unwrap();
        c.verif_event(&ev);
    };
    let mut sel: Option<usize> = None;
    if flag() {
        show(&c);
        sel = Some(0);
    }
    for _ in 0..p % 10 {
        match pick(5) {
            0 => {
                c.action_menu_select_next();
                sel = sel.map(|s| if s + 1 < n { s + 1 } else { s });
            }
            1 => {
                c.action_menu_select_previous();
                sel = sel.map(|s| s.saturating_sub(1));
            }
            2 => {
                c.action_menu_cancel();
                sel = None;
            }
            3 => {
                show(&c);
                sel = Some(0);
            }
            _ => {
                c.menu_select();
                let r = sent(&c, ids);
                match sel {
                    Some(s) if s < n => {
                        ids += 1;
                        let want = if prompt { search.clone() } else { format!("v{}", s) };
                        check(r.is_some(), "what is selected is chosen");
                        let (m, v) = r.unwrap();
                        check(m == "menu-select" && v["command"] == "cmd" && v["choice"] == want.as_str(), "what is selected is chosen");
                        cover("chosen");
                    }
                    _ => {
                        check(r.is_none(), "nothing is chosen when nothing is selected");
                        cover("nothing");
                    }
                }
                sel = None;
            }
        }
        let m = c.state().menu;
        check(m.is_some() == sel.is_some(), "a menu is open until it is left");
        if let Some(m) = m {
            check(Some(m.selected) == sel, "the selection moves within the entries");
            check(m.entries.len() == n, "a menu keeps its entries");
        }
    }
    check(c.verif_sent().is_none(), "only what is chosen is sent");
}

/// Every command sends its request.
fn sends(p: usize) {
    let mut c = connection();
    let earlier = p / 100 * 100;
    for i in 0..earlier {
        c.quit();
        check(sent(&c, i as i32) == Some(("quit".to_owned(), Value::Null)), "a command sends its request");
    }
    for i in earlier..earlier + p % 10 {
        let w = wild(p / 10 % 10);
        let (method, want): (&str, Value) = match pick(5) {
            0 => {
                c.quit();
                ("quit", Value::Null)
            }
            1 => {
                let b = flag();
                c.edit(w.clone(), b);
                ("edit", serde_json::json!({"name": w, "scratch": b}))
            }
            2 => {
                c.menu(&w, "se");
                ("menu", serde_json::json!({"command": w, "search": "se"}))
            }
            3 => {
                c.keys(KeyEvent::from('A'));
                ("keys", serde_json::json!([{"ctrl": false, "alt": false, "shift": true, "key": {"Char": "a"}}]))
            }
            _ => {
                c.exec(&w);
                ("exec", Value::String(w.clone()))
            }
        };
        match sent(&c, i as i32) {
            Some((m, v)) => check(m == method && v == want, "a command sends its request"),
            None => check(false, "a command sends its request"),
        }
        check(c.verif_sent().is_none(), "a command sends one request");
        cover(method);
    }
}
