//! Requests of clients, messages, keys.
use crate::editor::*;
use crate::model::*;
use crate::sym::*;
use ced_remote::jsonrpc::{Id, Response};
use ced_remote::protocol::notifications::*;
use ced_remote::protocol::{Face, Text};
use serde_json::Value;

#[allow(unused_mut)]
pub fn run(idx: usize, p: usize) {
    match idx {
        1100 => any_line(p),
        1101 => requests(p),
        1102 => mutated(p),
        1110 => messages(p),
        1111 => broadcast(p),
        1120 => isolated(p),
        1130 => keys(p),
        1131 => status_lines(p),
        _ => panic!("no such scenario"),
    }
}

/// The code of the error of a response.
pub fn code(r: &Response) -> Option<i64> {
    let v: Value = serde_json::from_str(&r.to_string()).unwrap();
    check(v.get("jsonrpc").and_then(|x| x.as_str()) == Some("2.0"), "a response is of the protocol");
    let e = v.get("error");
    check(e.is_some() != v.get("result").is_some(), "a response has a result or an error");
    e.map(|e| e.get("code").and_then(|c| c.as_i64()).unwrap())
}

pub const INVALID_REQUEST: Option<i64> = Some(-32600);
pub const NO_METHOD: Option<i64> = Some(-32601);
pub const INVALID_PARAMS: Option<i64> = Some(-32602);
pub const INTERNAL: Option<i64> = Some(-32603);
pub const SCRIPT: Option<i64> = Some(1);

/// The server still answers, to another client.
fn alive(ed: &mut Ed, id: usize) {
    let r = ed.request(id, r#"{"jsonrpc":"2.0","id":77,"method":"menu","params":{"command":"view_select","search":""}}"#);
    check(r.id == Id::Number(77) && code(&r).is_none(), "the other clients are still served");
}

/// Lines which are no request.
fn any_line(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    let n = range(0, p % 10);
    let mut line = vec![];
    for _ in 0..n {
        match pick(4) {
            0 => line.push(byte(0, 0x1f)),
            1 => line.push(byte(0x20, 0x7f)),
            2 => one(Class::Two, &mut line),
            _ => one(Class::Four, &mut line),
        }
    }
    ed.drain();
    let r = ed.request(1, &string(&line));
    check(r.id == Id::Null, "what is no request has no id");
    check(code(&r) == INVALID_REQUEST, "what is no request is invalid");
    for s in ed.drain() {
        check(s.to == [1], "only who sent a line is told about its error");
    }
    ed.sound();
    alive(&mut ed, 2);
    cover("refused");
}

fn quoted(s: &[u8]) -> Vec<u8> {
    let mut v = vec![b'"'];
    v.extend(s);
    v.push(b'"');
    v
}

/// An identifier: what it is written as, and what it is, if anything.
fn any_id() -> (Vec<u8>, Option<Id>) {
    match pick(8) {
        0 => {
            let d = byte(b'0', b'9');
            (vec![d], Some(Id::Number((d - b'0') as i32)))
        }
        1 => {
            let d = byte(b'1', b'9');
            (vec![b'-', d], Some(Id::Number(-((d - b'0') as i32))))
        }
        2 => {
            let c = byte(0x23, 0x5b);
            (quoted(&[c]), Some(Id::String(string(&[c]))))
        }
        3 => (b"null".to_vec(), Some(Id::Null)),
        4 => (b"true".to_vec(), None),
        5 => (b"[1]".to_vec(), None),
        6 => (b"2147483648".to_vec(), None),
        _ => (b"\"\"".to_vec(), Some(Id::String(String::new()))),
    }
}

const METHODS: [&str; 11] =
    ["edit", "quit", "view", "view-delete", "view-add", "view-remove", "menu", "menu-select", "keys", "exec", "other"];

/// Parameters of any kind for any method, from clients which may be gone.
fn requests(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    file("f", b"x\n");
    let mut here = true;
    for step in 0..p % 10 {
        let m = METHODS[pick(METHODS.len())];
        let client = if step == 0 && flag() { 7 } else { 1 };
        let there = here && client == 1;
        let (raw_id, id) = if p < 10 || step > 0 { (b"5".to_vec(), Some(Id::Number(5))) } else { any_id() };
        // what the parameters are, and what is expected of good ones
        let name = [byte(0x23, 0x5b)];
        let mut good = None;
        let exists = |ed: &mut Ed, n: &[u8]| ed.buffers().iter().any(|b| b.0.as_bytes() == n);
        let viewed = |ed: &mut Ed, n: &[u8]| ed.e.verif_core().verif_views().iter().any(|b| b.0.as_bytes() == n);
        let kind = pick(7);
        let params: Option<Vec<u8>> = match kind {
            0 => None,
            1 => Some(b"null".to_vec()),
            2 => Some(vec![byte(b'0', b'9')]),
            3 => Some(b"{}".to_vec()),
            4 => {
                // a text
                let n = if flag() { name.to_vec() } else { b"*scratch*".to_vec() };
                good = match m {
                    "view" => Some(if there && (viewed(&mut ed, &n) || exists(&mut ed, &n)) { None } else { INVALID_REQUEST }),
                    "view-add" | "view-remove" => Some(if there && exists(&mut ed, &n) { None } else { INVALID_REQUEST }),
                    // letters and signs in any order are no script, nor a lone one
                    "exec" => Some(SCRIPT),
                    _ => None,
                };
                if m == "exec" && n.len() == 1 && (n[0] == b';' || n[0] == b'#') {
                    return;
                }
                Some(quoted(&n))
            }
            5 => Some(match m {
                "edit" => {
                    let scratch = flag();
                    let found = flag();
                    let n = if found { format!("{}/f", DIR).into_bytes() } else { name.to_vec() };
                    let known = exists(&mut ed, &n);
                    good = Some(if there && (scratch || found || known) { None } else { INVALID_REQUEST });
                    let mut v = b"{\"name\":".to_vec();
                    v.extend(quoted(&n));
                    v.extend(format!(",\"scratch\":{}}}", scratch).into_bytes());
                    v
                }
                "menu" => {
                    let mut v = b"{\"search\":\"\",\"command\":".to_vec();
                    if flag() {
                        v.extend(quoted(&name));
                        good = Some(INVALID_PARAMS);
                    } else {
                        v.extend(quoted([&b""[..], b"scratch", b"view_add", b"exec"][pick(4)]));
                        good = Some(None);
                    }
                    v.push(b'}');
                    v
                }
                "menu-select" => {
                    let mut v = b"{\"choice\":".to_vec();
                    v.extend(quoted(&name));
                    v.extend(b",\"command\":");
                    v.extend(quoted([&b""[..], b"view_add", b"nothing"][pick(3)]));
                    v.push(b'}');
                    good = Some(INVALID_PARAMS);
                    v
                }
                "keys" => {
                    let key = [&b"{\"Char\":\"l\"}"[..], b"\"Escape\"", b"{\"Char\":\"x\"}"][pick(3)];
                    let mut v = b"[{\"ctrl\":false,\"alt\":false,\"shift\":false,\"key\":".to_vec();
                    v.extend(key);
                    v.extend(b"}]");
                    good = Some(if there { None } else { INTERNAL });
                    v
                }
                "exec" => {
                    let (s, c) = [("x = 1", None), ("error(1)", SCRIPT), ("editor:edit(9, 'z')", SCRIPT), ("x = ", SCRIPT)][pick(4)];
                    good = Some(c);
                    quoted(s.as_bytes())
                }
                _ => b"{\"command\":1}".to_vec(),
            }),
            _ => {
                if m == "keys" {
                    good = Some(None);
                }
                Some(b"[]".to_vec())
            }
        };
        let mut line = b"{\"jsonrpc\":\"2.0\",\"id\":".to_vec();
        line.extend(raw_id);
        line.extend(b",\"method\":");
        line.extend(quoted(m.as_bytes()));
        if let Some(v) = params {
            line.extend(b",\"params\":");
            line.extend(v);
        }
        line.push(b'}');
        let want = if id.is_none() {
            INVALID_REQUEST
        } else {
            match m {
                "other" => NO_METHOD,
                "quit" => None,
                "view-delete" => {
                    if there {
                        None
                    } else {
                        INVALID_REQUEST
                    }
                }
                _ if kind < 2 => INVALID_REQUEST,
                _ => good.unwrap_or(INVALID_PARAMS),
            }
        };
        ed.drain();
        let r = ed.request(client, &string(&line));
        check(r.id == id.clone().unwrap_or(Id::Null), "a response has the id of its request");
        check(code(&r) == want, "a request succeeds, or fails with the error that says why");
        if m == "quit" && id.is_some() {
            let mut gone = ed.e.removed_clients();
            gone.sort();
            check(gone == [client], "who quits is gone");
            if client == 1 {
                here = false;
            }
            cover("quit");
        }
        check(ed.client(1).is_some() == here, "only who quits is gone");
        check(ed.client(2).is_some(), "only who quits is gone");
        ed.sound();
        alive(&mut ed, 2);
        cover(m);
        if !there {
            cover("absent");
        }
    }
}

/// A request with one character replaced by another.
fn mutated(p: usize) {
    let lines = [
        r#"{"jsonrpc":"2.0","id":5,"method":"edit","params":{"name":"n","scratch":true}}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"l"}}]}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"menu","params":{"command":"view_add","search":"d"}}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"view-remove","params":"*scratch*"}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"exec","params":"x=1"}"#,
    ];
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    let mut line = lines[p % 10].as_bytes().to_vec();
    let at = pick(line.len());
    line[at] = byte(0x20, 0x7e);
    ed.drain();
    let r = ed.request(1, &string(&line));
    let c = code(&r);
    let known = [None, INVALID_REQUEST, NO_METHOD, INVALID_PARAMS, INTERNAL, SCRIPT].contains(&c);
    check(known, "an error is one of the protocol");
    match r.id {
        // another id was asked for, or another field
        Id::Number(n) => check((-9..100).contains(&n), "a response has the id of its request"),
        Id::Null => check(c == INVALID_REQUEST, "what is no request is invalid"),
        Id::String(_) => check(false, "a response has the id of its request"),
    }
    if c.is_none() {
        cover("done");
    } else {
        cover("refused");
    }
    ed.sound();
    alive(&mut ed, 2);
}

fn echo(s: &Sent) -> (String, Face) {
    let t: Text = s.params();
    check(t.iter().count() == 1, "a message is one text");
    let f = t.iter().next().unwrap();
    (f.text.clone(), f.face.clone())
}

/// Messages and errors are logged, and shown to whom they are for.
fn messages(p: usize) {
    let mut ed = Ed::new();
    for i in 1..4 {
        ed.join(i);
    }
    let mut log: [Option<Vec<u8>>; 2] = [None, None];
    for _ in 0..(p / 10 % 10).max(1) {
        let mut t = vec![];
        for _ in 0..range(0, p % 10) {
            match pick(6) {
                0 => t.push(b'\n'),
                1 => t.push(b'\t'),
                2 => t.push(b' '),
                3 => one(Class::Two, &mut t),
                4 => one(Class::Four, &mut t),
                _ => t.push(byte(0x21, 0x7e)),
            }
        }
        let err = flag();
        let client = [None, Some(1), Some(2), Some(0)][pick(4)];
        let text = string(&t);
        ed.drain();
        let core = ed.e.verif_core();
        if err {
            core.error(client, "t", &text);
            cover("error");
        } else {
            core.message(client, &text);
            cover("message");
        }
        let who = client.map_or("*".to_string(), |c| c.to_string());
        let mut entry = format!("{}|{}", who, if err { "t: " } else { "" }).into_bytes();
        entry.extend(&t);
        entry.push(b'\n');
        log[err as usize].get_or_insert_with(Vec::new).extend(entry);
        for (l, n) in log.iter().zip(["*messages*", "*errors*"]) {
            check(ed.text(n) == *l, "messages and errors are logged in order");
        }
        let sent = ed.drain();
        check(sent.len() == 1 && sent[0].method == "echo", "a message is shown once");
        let (shown, face) = echo(&sent[0]);
        check(sent[0].to == IDS.filter(|i| client.map_or(true, |c| c == *i)).collect::<Vec<_>>(), "a message is shown to whom it is for");
        if !err {
            check(face == Face::Default && shown == text, "a message is shown as it is");
        } else {
            // on one line, without repeated spaces
            let mut want = b"t: ".to_vec();
            for b in &t {
                match b {
                    b'\n' => want.extend(b"\\n"),
                    b'\t' | b' ' => {
                        if want[want.len() - 1] != b' ' {
                            want.push(b' ');
                        }
                    }
                    b => want.push(*b),
                }
            }
            check(face == Face::Error && shown.as_bytes() == &want[..], "an error is shown on one line");
        }
        observe(shown.as_bytes());
    }
    ed.sound();
}

/// Changes of a buffer are told to every client which shows it, and to no other.
fn broadcast(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    file("f", b"one\n");
    let f = format!("{}/f", DIR);
    let shown: Vec<usize> = (0..3).map(|_| pick(3)).collect();
    let names = ["a", "b", f.as_str()];
    for n in 0..2 {
        ed.show(1, names[n]);
    }
    check(ed.e.verif_core().edit(1, &f, false).is_ok(), "a file is opened");
    let both = p / 10 % 10 > 0 && flag();
    for (i, s) in shown.iter().enumerate() {
        if i > 0 {
            ed.join(i + 1);
        }
        check(ed.e.verif_core().view(i + 1, names[*s]).is_ok(), "a buffer is shown");
    }
    let mut sees: Vec<Vec<usize>> = shown.iter().map(|s| vec![*s]).collect();
    if both {
        // the first client, and who shows the same, show the second buffer too
        let here = shown[0];
        let more = (here + 1) % 3;
        check(ed.e.verif_core().add_to_current_view(1, names[more]).is_ok(), "a buffer is added to a view");
        for (i, s) in shown.iter().enumerate() {
            if *s == here {
                sees[i].push(more);
            }
        }
        cover("two buffers");
    }
    let of = |n: usize| -> Vec<usize> { (0..3).filter(|i| sees[*i].contains(&n)).map(|i| i + 1).collect() };
    for c in 1..4 {
        let s = ed.client(c).unwrap();
        check(s.buffers.len() == sees[c - 1].len(), "who shows a view which changes shows the new one");
    }
    ed.drain();
    match pick(5) {
        0 => {
            let n = pick(2);
            let t = string([&b"\n"[..], b"x", b"\xc3\xa9", b"y\n"][pick(4)]);
            let ok = ed.e.exec_lua("x", 1, |l| {
                let e: Result<(), _> = l
                    .load("return function(n, t) editor:append_to(n, t) end")
                    .eval::<rlua::Function>()
                    .and_then(|f| f.call((names[n], t.as_str())));
                e
            });
            check(ok.is_ok(), "a script appends to a buffer");
            let mut want = b"\n".to_vec();
            want.extend(t.as_bytes());
            check(ed.text(names[n]).unwrap() == want, "a script appends to a buffer");
            check_notified(&mut ed, &of(n));
            cover("append");
        }
        1 => {
            // new content of a scratch buffer, which who makes it is shown
            let n = pick(2);
            let who = 1 + pick(3);
            let t = [&b"\n"[..], b"x", b"\xc3\xa9", b"y\n"][pick(4)].to_vec();
            let s = string(&t);
            let ok = ed.e.exec_lua("x", who, |l| {
                let e: Result<(), _> = l
                    .load("return function(who, n, t) editor:scratch(who, n, t) end")
                    .eval::<rlua::Function>()
                    .and_then(|f| f.call((who, names[n], s.as_str())));
                e
            });
            check(ok.is_ok(), "a script makes a scratch buffer");
            check(ed.text(names[n]).unwrap() == t, "a script makes a scratch buffer");
            let mut w = of(n);
            w.push(who);
            w.sort();
            w.dedup();
            check_notified(&mut ed, &w);
            cover("scratch");
        }
        2 => {
            let now = flag();
            let who = 1 + pick(3);
            if now {
                file("f", b"one\ntwo\n");
            }
            check(ed.e.verif_core().edit(who, &f, false).is_ok(), "a file is opened again");
            let mut w = if now { of(2) } else { vec![] };
            w.push(who);
            w.sort();
            w.dedup();
            check(ed.text(&f).unwrap() == if now { &b"one\ntwo\n"[..] } else { b"one\n" }, "a file which changed is loaded again");
            check_notified(&mut ed, &w);
            if now {
                cover("reloaded");
            }
        }
        3 => {
            check(ed.e.verif_core().delete_selection(1).is_ok(), "a selection is deleted");
            let mut w: Vec<usize> = sees[0].iter().flat_map(|n| of(*n)).collect();
            w.sort();
            w.dedup();
            check_notified(&mut ed, &w);
            cover("deleted");
        }
        _ => {
            check(ed.e.verif_core().move_cursor(1, target(Move::Right), false).is_ok(), "a client moves");
            let far = sees[0].contains(&2);
            check_notified(&mut ed, if far { &[1] } else { &[] });
            cover("moved");
        }
    }
    ed.sound();
}

/// Whatever a client does on its side, the others notice nothing.
fn isolated(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.show(1, "a");
    ed.show(2, "b");
    let t = b"xy\nz\n";
    ed.fill("a", t);
    ed.fill("b", t);
    let d = Doc::new(t);
    let s = any_selection(&d);
    ed.select(2, "b", s.0, s.1);
    let state = |ed: &mut Ed| {
        let c = ed.client(2).unwrap();
        (c.view_key, c.selections, ed.text("b").unwrap())
    };
    let before = state(&mut ed);
    ed.drain();
    for _ in 0..p % 10 {
        let op = pick(12);
        let shared = ed.client(1).map_or(false, |c| c.view_key == before.0);
        if shared && (op == 2 || op == 3) {
            // they show the very same view: changing it is not on one side
            return;
        }
        let line = match op {
            0 => r#"{"jsonrpc":"2.0","id":1,"method":"edit","params":{"name":"b","scratch":true}}"#,
            1 => r#"{"jsonrpc":"2.0","id":1,"method":"edit","params":{"name":"c","scratch":true}}"#,
            2 => r#"{"jsonrpc":"2.0","id":1,"method":"view-add","params":"b"}"#,
            3 => r#"{"jsonrpc":"2.0","id":1,"method":"view-remove","params":"a"}"#,
            4 => r#"{"jsonrpc":"2.0","id":1,"method":"view","params":"a"}"#,
            5 => r#"{"jsonrpc":"2.0","id":1,"method":"menu","params":{"command":"","search":""}}"#,
            6 => r#"{"jsonrpc":"2.0","id":1,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"j"}}]}"#,
            7 => r#"{"jsonrpc":"2.0","id":1,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":true,"key":{"Char":"l"}}]}"#,
            8 => r#"{"jsonrpc":"2.0","id":1,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"g"}}]}"#,
            9 => r#"{"jsonrpc":"2.0","id":1,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"m"}}]}"#,
            10 => r#"{"jsonrpc":"2.0","id":1,"method":"quit"}"#,
            _ => r#"{"jsonrpc":"2.0","id":1,"method":"nothing"}"#,
        };
        ed.request(1, line);
        check(state(&mut ed) == before, "what a client does on its side changes nothing for the others");
        for s in ed.drain() {
            check(!s.to.contains(&2), "what a client does on its side is not told to the others");
        }
        cover("done");
    }
    // their modes are their own
    ed.request(2, r#"{"jsonrpc":"2.0","id":1,"method":"keys","params":[{"ctrl":false,"alt":false,"shift":false,"key":{"Char":"l"}}]}"#);
    let mut cur = d.coord(s.1).map(|(l, c)| Cur::at(l, c)).unwrap();
    cur.go(&d, Move::Right);
    let o = d.offset(cur.l, cur.c).unwrap();
    check(ed.selection(2, "b") == (o, o), "what a client does on its side does not change the mode of the others");
    ed.sound();
}

/// The keys, as (what they are written as, the request).
const KEYS: [(&str, &str, bool); 16] = [
    ("h", "h", false),
    ("l", "l", false),
    ("j", "j", false),
    ("k", "k", false),
    ("s-h", "h", true),
    ("s-l", "l", true),
    ("s-j", "j", true),
    ("s-k", "k", true),
    ("g", "g", false),
    ("s-g", "g", true),
    ("i", "i", false),
    ("esc", "", false),
    ("d", "d", false),
    ("m", "m", false),
    ("x", "x", false),
    ("e", "e", false),
];

/// Keys do what the mode says, and the status line follows.
fn keys(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.show(1, "a");
    let t0: Vec<u8> = if p / 100 % 10 > 0 { "ab\n\nc\n".into() } else { chars(2, PLAIN) };
    ed.fill("a", &t0);
    let clients = if p / 1000 % 10 > 0 { 2 } else { 1 };
    if clients == 2 {
        ed.join(2);
    }
    let mut t = t0.clone();
    let mut d = Doc::new(&t);
    let mut states: Vec<(Cur, usize, Vec<&str>)> = (0..clients).map(|_| (Cur::at(1, 1), 0, vec!["N"])).collect();
    let n = if p / 10 % 10 > 0 { p / 10 % 10 } else { KEYS.len() };
    for _ in 0..p % 10 {
        let (name, c, shift) = if n == KEYS.len() {
            KEYS[pick(n)]
        } else {
            // fewer keys, longer words
            KEYS[[1, 5, 2, 8, 9, 12, 10, 11, 14][pick(n)]]
        };
        let who = pick(clients);
        let id = who + 1;
        let (mut cur, mut anchor, mut modes) = states[who].clone();
        let key = if c.is_empty() { "\"Escape\"".to_string() } else { format!("{{\"Char\":\"{}\"}}", c) };
        let line = format!(
            "{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"keys\",\"params\":[{{\"ctrl\":false,\"alt\":false,\"shift\":{},\"key\":{}}}]}}",
            shift, key
        );
        ed.drain();
        let r = ed.request(id, &line);
        check(code(&r).is_none(), "a key is handled");
        let mode = modes[modes.len() - 1];
        let mut handled = true;
        let mut hint = None;
        let mut said = false;
        let mut go = |m: Move, extend: bool, cur: &mut Cur, anchor: &mut usize| {
            if t.len() > 1 {
                cur.go(&d, m);
                if !extend {
                    *anchor = d.offset(cur.l, cur.c).unwrap();
                }
            } 
        };
        let mut deleted = false;
        match (mode, name) {
            ("N", "h") | ("N", "s-h") => go(Move::Left, shift, &mut cur, &mut anchor),
            ("N", "l") | ("N", "s-l") => go(Move::Right, shift, &mut cur, &mut anchor),
            ("N", "j") | ("N", "s-j") => go(Move::Down, shift, &mut cur, &mut anchor),
            ("N", "k") | ("N", "s-k") => go(Move::Up, shift, &mut cur, &mut anchor),
            ("N", "g") => {
                modes.push("g");
                hint = Some("move to");
            }
            ("N", "s-g") => {
                modes.push("G");
                hint = Some("extend to");
            }
            ("N", "i") => modes.push("I"),
            ("N", "m") | ("N", "e") => said = true,
            ("N", "d") => deleted = true,
            ("I", "esc") => {
                modes.pop();
                cover("left");
            }
            ("g", _) | ("G", _) => {
                modes.pop();
                match name {
                    "h" => go(Move::LineBegin, mode == "G", &mut cur, &mut anchor),
                    "l" => go(Move::LineEnd, mode == "G", &mut cur, &mut anchor),
                    _ => cover("cancelled"),
                }
                cover("goto");
            }
            _ => handled = false,
        }
        if deleted {
            let s = (anchor, d.offset(cur.l, cur.c).unwrap_or(0));
            let (lo, hi) = covered(&d, s);
            t.drain(lo..hi);
            if t.is_empty() {
                t.push(b'\n');
            }
            d = Doc::new(&t);
            states[who].0 = cur;
            for (i, s) in states.iter_mut().enumerate() {
                let (a, c) = ed.selection(i + 1, "a");
                check(on_char(&d, a) && on_char(&d, c), "the selection stays in the text");
                // where exactly is free; the column to return to is kept if it leads there
                s.0 = refit(&d, c, s.0.target);
                s.1 = a;
            }
            cur = states[who].0.clone();
            anchor = states[who].1;
            cover("deleted");
        }
        check(ed.text("a").unwrap() == t, "only deleting changes the text");
        let o = d.offset(cur.l, cur.c).unwrap_or(0);
        check(ed.selection(id, "a") == (anchor, o), "a key moves as its mode says");
        let (mut status, mut hints, mut echoes) = (vec![], vec![], vec![]);
        for s in ed.drain() {
            check(s.to == [id] || deleted && s.method == "view", "who typed is told");
            match s.method.as_str() {
                "status" => status.push(s.params::<StatusParams>()),
                "hint" => hints.push(s.params::<HintParams>()),
                "echo" => echoes.push(s),
                _ => check(s.method == "view", "a key is answered with a status, a hint, a message or a view"),
            }
        }
        check(status.len() == handled as usize, "the status line follows the keys which are handled");
        for st in status {
            let texts: Vec<(isize, String)> = st.iter().map(|i| (i.index, i.text.iter().map(|f| f.text.clone()).collect())).collect();
            let want = vec![(80, name.to_string()), (90, modes[modes.len() - 1].to_string()), (100, format!("[{}@s]", id))];
            check(texts == want, "the status line shows the last key, the mode and the client");
        }
        check(hints.len() == hint.is_some() as usize, "a mode which has a hint shows it");
        for h in hints {
            let lines: Vec<String> = h.text.iter().map(|l| l.iter().map(|f| f.text.clone()).collect()).collect();
            check(lines.len() == 4 && lines[0].contains(hint.unwrap()), "a hint names its mode");
            let body = lines.join("\n");
            check(body.contains("h: line begin") && body.contains("l: line end"), "a hint lists the keys");
            let w = lines[0].chars().count();
            check(lines.iter().all(|l| l.chars().count() == w), "the frame of a hint is straight");
            cover("hint");
        }
        check(echoes.len() == said as usize, "a key says what it is for");
        observe_num(o);
        states[who] = (cur, anchor, modes);
    }
    ed.sound();
}

/// The status line of any client, of any session.
fn status_lines(p: usize) {
    let (tx, rx) = async_channel::unbounded();
    let mut name = vec![];
    for i in 0..p % 10 {
        // characters which mean something in scripts, and others
        if i > 0 || p >= 10 {
            name.extend([&b"\""[..], b"\\", b"]", b"n", b"'", b"\n", b"%", b"\xc3\xa9", b" "][pick(9)]);
        } else {
            name.push(byte(0x20, 0x7e));
        }
    }
    let name = string(&name);
    let mut ed = Ed { e: ced::editor::Editor::new(&name, tx), rx };
    ed.e.verif_core().debug_mode = false;
    ed.drain();
    for id in [3, 5] {
        ed.join(id);
        let mut seen = 0;
        for s in ed.drain() {
            if s.method == "status" {
                let st: StatusParams = s.params();
                let text: String = st.iter().flat_map(|i| i.text.iter()).map(|f| f.text.clone()).collect();
                check(s.to == [id], "the status line of a client is its own");
                check(text == format!("[{}@{}]", id, name), "the status line names the client and the session");
                observe(text.as_bytes());
                seen += 1;
            }
            if s.method == "info" {
                let i: InfoParams = s.params();
                check(s.to == [id], "a client is told who it is");
                check(i.client == id.to_string() && i.session == name, "a client is told who it is");
                cover("info");
            }
        }
        check(seen == 1, "who joins gets a status line");
    }
}
