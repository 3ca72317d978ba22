//! The server and its clients: connections, requests, faults, in any order of events.
use crate::sym::*;
use ced::clients::StdioClient;
use ced::server::Server;
use ced_remote::jsonrpc::{ClientEvent, Id};
use ced_remote::protocol::{Key, KeyEvent};
use ced_remote::verif::{accept_fails, accepts, connects, refuse, taken, MemoryStream};
use ced_remote::{Connection, ConnectionEvent, Session};
use futures_lite::{future, StreamExt};
use serde_json::Value;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub fn run(idx: usize, p: usize) {
    match idx {
        4000 => history(p),
        4010 => together(p),
        4020 => broken(p),
        4030 => json(p),
        4040 => sessions(p),
        4050 => started(p),
        _ => panic!("no such scenario"),
    }
}

/// Whether a task was woken since it was polled.
pub struct Woken(AtomicBool);

impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Task<T> {
    future: Option<Pin<Box<dyn Future<Output = T>>>>,
    woken: Arc<Woken>,
}

impl<T> Task<T> {
    pub fn new(future: Pin<Box<dyn Future<Output = T>>>) -> Task<T> {
        Task { future: Some(future), woken: Arc::new(Woken(AtomicBool::new(true))) }
    }
    /// Whether there was something to do.
    pub fn poll(&mut self) -> bool {
        if !self.woken.0.swap(false, Ordering::SeqCst) {
            return false;
        }
        let Some(f) = self.future.as_mut() else { return false };
        let waker = Waker::from(self.woken.clone());
        if let Poll::Ready(_) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            self.future = None;
        }
        true
    }
    pub fn ended(&self) -> bool {
        self.future.is_none()
    }
}

/// A server, with its tasks run as the harness decides.
pub struct Host {
    tick: Option<Box<dyn Fn() -> bool>>,
    serve: Option<Task<std::io::Result<()>>>,
    events: Option<Task<()>>,
    pub ended: bool,
}

impl Host {
    pub fn new() -> Host {
        let (ex, serve, events) = Server::verif_tasks(Session::from_name("s"));
        Host {
            tick: Some(Box::new(move || ex.try_tick())),
            serve: Some(Task::new(serve)),
            events: Some(Task::new(events)),
            ended: false,
        }
    }
    /// One of the tasks of the server goes on; whether it had something to do.
    pub fn step(&mut self, which: usize) -> bool {
        if self.ended {
            return false;
        }
        let did = match which {
            0 => self.serve.as_mut().unwrap().poll(),
            1 => self.events.as_mut().unwrap().poll(),
            _ => (self.tick.as_ref().unwrap())(),
        };
        if self.events.as_ref().unwrap().ended() {
            // the process of the server exits
            self.ended = true;
            self.events = None;
            self.serve = None;
            self.tick = None;
            refuse();
        }
        did
    }
    /// The server runs until it has nothing to do.
    pub fn settle(&mut self, order: usize) -> bool {
        let order = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [0, 2, 1]][order];
        for i in 0..200 {
            let mut did = false;
            for w in order {
                did |= self.step(w);
            }
            if !did {
                return i > 0;
            }
        }
        check(false, "a server comes to rest");
        false
    }
}

/// The end of a client, and what was heard there.
pub struct Peer {
    pub stream: MemoryStream,
    heard: Vec<u8>,
    pub answers: Vec<Id>,
    pub notes: Vec<String>,
}

impl Peer {
    pub fn connect(limit: usize) -> Peer {
        let (ours, theirs) = MemoryStream::pair(limit);
        accepts(theirs);
        Peer { stream: ours, heard: vec![], answers: vec![], notes: vec![] }
    }
    pub fn hear(&mut self) {
        self.heard.extend(self.stream.drain());
        while let Some(n) = self.heard.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = self.heard.drain(..=n).collect();
            let Ok(line) = String::from_utf8(line[..n].to_vec()) else {
                return check(false, "a server writes text");
            };
            match line.parse::<ClientEvent>() {
                Ok(ClientEvent::Response(r)) => self.answers.push(r.id),
                Ok(ClientEvent::Notification(n)) => self.notes.push(n.method.clone()),
                Err(_) => check(false, "a server writes events, one a line"),
            }
        }
    }
    pub fn whole(&self) -> bool {
        self.heard.is_empty()
    }
}

struct Client {
    peer: Peer,
    /// ids of the requests in the order they were sent, up to the one to quit
    asked: Vec<Id>,
    /// asked when the server last came to rest
    due: usize,
    quit: bool,
    joined: bool,
    left: bool,
    deaf: bool,
}

fn history(p: usize) {
    let (steps, most) = (p % 10, p / 10 % 10);
    let limit = [usize::MAX, 1, 50][p / 100 % 10];
    let mut host = Host::new();
    host.settle(0);
    let mut clients: Vec<Client> = vec![];
    let join = |clients: &mut Vec<Client>| {
        clients.push(Client {
            peer: Peer::connect(limit),
            asked: vec![],
            due: 0,
            quit: false,
            joined: false,
            left: false,
            deaf: false,
        })
    };
    join(&mut clients);
    let mut next = 0;
    for _ in 0..steps {
        let who = pick(clients.len());
        let more = clients.len() < most;
        let c = &mut clients[who];
        match pick(7) {
            0 if more => join(&mut clients),
            0 => return,
            _ if c.left => return,
            1 => {
                // a request, maybe in two parts
                let quits = flag();
                let line = format!(
                    "{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":{}}}\n",
                    next,
                    if quits { "\"quit\"" } else { "\"keys\",\"params\":[\"i\"]" }
                );
                if !c.quit {
                    c.asked.push(Id::Number(next));
                    cover("request");
                } else {
                    cover("request after quit");
                }
                c.quit |= quits;
                next += 1;
                let mut line = line.as_bytes();
                if p < 1000 && flag() {
                    c.peer.stream.feed(&line[..20]);
                    line = &line[20..];
                    host.settle(0);
                }
                c.peer.stream.feed(line);
            }
            2 => {
                // anything but a request
                let b = if p < 1000 { byte(0x20, 0x7e) } else { b' ' };
                c.peer.stream.feed(&[b, b' ', b'\n']);
                if !c.quit {
                    c.asked.push(Id::Null);
                }
                cover("no request");
            }
            3 => {
                // a request cut short
                c.peer.stream.feed(b"{\"jsonrpc\":\"2.0\",");
                if !c.quit {
                    c.asked.push(Id::Null);
                }
                c.peer.stream.close();
                c.left = true;
                cover("cut");
            }
            4 => {
                // no text
                let b = if p < 1000 { byte(0x80, 0xff) } else { 0xff };
                c.peer.stream.feed(&[b, b'\n']);
                c.left = true;
                cover("no text");
            }
            5 => {
                let how = pick(3);
                if how > 0 {
                    c.peer.stream.hang_up();
                    c.deaf = true;
                }
                if how < 2 {
                    c.peer.stream.close();
                } else {
                    c.peer.stream.reset();
                }
                c.left = true;
                cover("left");
            }
            _ => {
                c.peer.stream.hang_up();
                c.deaf = true;
                cover("deaf");
                if p < 1000 && flag() {
                    accept_fails();
                    cover("no client");
                }
            }
        }
        if p >= 2000 && flag() {
            // the server does not get to run
            continue;
        }
        if p < 2000 && flag() {
            // only a part of the server goes on
            host.step(pick(3));
        } else {
            host.settle(if p < 2000 { pick(2) } else { 0 });
            // who connects while the server exits is refused
            for c in clients.iter_mut().filter(|_| !host.ended) {
                c.joined = true;
                c.due = c.asked.len();
            }
        }
        let here = clients.iter().any(|c| c.joined && !c.left && !c.quit);
        if here {
            check(!host.ended, "a server goes on while a client is there");
        }
        if host.ended {
            break;
        }
    }
    host.settle(0);
    for c in &mut clients {
        c.peer.hear();
        check(c.deaf || c.peer.whole(), "a server writes whole lines");
        check(c.peer.answers.len() <= c.asked.len(), "a server answers requests only, up to the one to quit");
        check(c.peer.answers[..] == c.asked[..c.peer.answers.len()], "a server answers requests in order");
        let due = if host.ended || c.left { c.due } else { c.asked.len() };
        check(c.deaf || c.peer.answers.len() >= due, "a server answers each request");
        observe_num(c.peer.answers.len());
        for n in &c.peer.notes {
            observe(n.as_bytes());
        }
    }
    if !host.ended {
        for c in &mut clients {
            c.peer.stream.close();
        }
        host.settle(0);
        check(host.ended, "a server ends when its clients have left");
    }
    cover("end");
}

/// A front end, with its tasks run as the harness decides.
pub struct Front {
    pub connection: Connection,
    pub requests: Task<()>,
    pub events: Task<()>,
}

impl Front {
    pub fn connect(limit: usize) -> Front {
        let (ours, theirs) = MemoryStream::pair(limit);
        connects(ours);
        accepts(theirs);
        let connection = Connection::new(Session::from_name("s"));
        let (mut events, requests) = future::block_on(connection.connect());
        Front {
            connection,
            requests: Task::new(Box::pin(requests)),
            events: Task::new(Box::pin(async move { while events.next().await.is_some() {} })),
        }
    }
    /// The lines of a buffer as the front end knows them.
    pub fn lines(&self, buffer: &str) -> Option<Vec<String>> {
        let state = self.connection.state();
        let item = state.view.iter().find(|i| i.buffer == buffer)?;
        let mut v = vec![];
        for lens in &item.lenses {
            for l in &lens.lines {
                let mut text: String = l.iter().map(|f| f.text.as_str()).collect();
                check(text.pop() == Some(' '), "a line is shown with room for a cursor at its end");
                v.push(text);
            }
        }
        Some(v)
    }
}

fn key(c: char) -> KeyEvent {
    KeyEvent { ctrl: false, alt: false, shift: false, key: Key::Char(c) }
}

/// Clients which change the same buffers.
fn together(p: usize) {
    let (steps, most) = (p % 10, p / 10 % 10);
    let limit = [usize::MAX, 3][p / 100 % 10];
    let orders = [1, 2, 4][p / 1000 % 10];
    const NAMES: [&str; 2] = ["n", "m"];
    struct One {
        front: Option<Front>,
        quit: bool,
        shows: usize,
        letters: u32,
        // the letters of each stay at a buffer
        stays: Vec<(usize, Vec<char>)>,
        // what may not have been sent when the client left
        unsure: Vec<char>,
        fresh: Vec<char>,
    }
    let mut host = Host::new();
    host.settle(0);
    let settle = |host: &mut Host, ones: &mut Vec<One>, order: usize| {
        for _ in 0..100 {
            let mut did = false;
            let n = ones.len();
            for i in 0..n {
                let i = if order / 2 == 0 { i } else { n - 1 - i };
                if let Some(f) = ones[i].front.as_mut() {
                    did |= f.requests.poll();
                    did |= f.events.poll();
                }
                if order % 2 == 1 {
                    // each client is served before the next one goes on
                    did |= host.settle(0);
                }
            }
            for w in 0..3 {
                did |= host.step(w);
            }
            if !did {
                for o in ones.iter_mut() {
                    o.fresh.clear();
                }
                return;
            }
        }
        check(false, "a server and its clients come to rest");
    };
    let mut ones: Vec<One> = vec![];
    let join = |ones: &mut Vec<One>| {
        let mut front = Front::connect(limit);
        front.connection.edit(NAMES[0].into(), true);
        ones.push(One {
            front: Some(front),
            quit: false,
            shows: 0,
            letters: 0,
            stays: vec![(0, vec![])],
            unsure: vec![],
            fresh: vec![],
        });
    };
    let mut deaf = None;
    let place = if p >= 10000 { pick(3) } else { 0 };
    if place == 2 {
        join(&mut ones);
        settle(&mut host, &mut ones, 0);
    }
    if place > 0 {
        // a client the server cannot write to, which does not leave, and shows a buffer of the others
        let c = Peer::connect(limit);
        c.stream.hang_up();
        c.stream.feed(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"edit\",\"params\":{\"name\":\"n\",\"scratch\":true}}\n");
        deaf = Some(c);
        cover("deaf");
        settle(&mut host, &mut ones, 0);
    }
    if place < 2 {
        join(&mut ones);
    }
    if ones.len() < most && flag() {
        join(&mut ones);
    }
    settle(&mut host, &mut ones, 0);
    let mut deleted = [0, 0];
    for _ in 0..steps {
        let more = ones.len() < most;
        let n = ones.len();
        let who = pick(n);
        let o = &mut ones[who];
        let act = pick(6);
        if act != 0 && o.front.is_none() {
            return;
        }
        match act {
            0 if more && !host.ended => join(&mut ones),
            0 => return,
            1 => {
                let c = char::from_u32(0xe0 + 8 * who as u32 + o.letters).unwrap();
                o.letters += 1;
                let source = format!("editor:append_to('{}', '{}')", NAMES[o.shows], c);
                o.front.as_mut().unwrap().connection.exec(&source);
                if !o.quit {
                    o.stays.last_mut().unwrap().1.push(c);
                    o.fresh.push(c);
                    cover("letter");
                }
            }
            2 => {
                let to = 1 - o.shows;
                let f = o.front.as_mut().unwrap();
                f.connection.edit(NAMES[to].into(), true);
                if !o.quit {
                    o.shows = to;
                    o.stays.push((to, vec![]));
                    cover("other buffer");
                }
            }
            3 => {
                let f = o.front.as_mut().unwrap();
                for c in ['j', 'l', 'd'] {
                    f.connection.keys(vec![key(c)]);
                }
                if !o.quit {
                    deleted[o.shows] += 1;
                    cover("delete");
                }
            }
            4 => {
                o.front.as_mut().unwrap().connection.quit();
                o.quit = true;
                cover("quit");
            }
            _ => {
                o.front = None;
                o.unsure.append(&mut o.fresh);
                cover("left");
            }
        }
        match pick(3) {
            // nobody does anything
            0 => {}
            // a client sends what it has
            1 => {
                if let Some(f) = ones[who].front.as_mut() {
                    f.requests.poll();
                } else {
                    return;
                }
            }
            _ => {
                let order = pick(orders);
                settle(&mut host, &mut ones, order);
            }
        }
    }
    let order = pick(orders);
    settle(&mut host, &mut ones, order);
    let here = ones.iter().any(|o| o.front.is_some() && !o.quit);
    if here {
        let left = ones.iter().any(|o| o.front.is_none());
        check(!host.ended || left, "a server goes on while a client is there");
    }
    if host.ended {
        for o in &ones {
            if let Some(f) = &o.front {
                check(f.events.ended(), "a client is told that its server ended");
                cover("told");
            }
        }
        return cover("server ended");
    }
    drop(deaf);
    for (b, name) in NAMES.iter().enumerate() {
        let mut first: Option<Vec<String>> = None;
        for o in ones.iter().filter(|o| !o.quit && o.shows == b) {
            let Some(f) = &o.front else { continue };
            check(!f.events.ended(), "a client stays connected");
            let Some(lines) = f.lines(name) else { return check(false, "a client is shown what it asked for") };
            match &first {
                Some(x) => check(*x == lines, "clients are shown the same buffer the same"),
                None => first = Some(lines),
            }
        }
        let Some(lines) = first else { continue };
        let text: Vec<char> = lines.concat().chars().collect();
        observe(lines[0].as_bytes());
        let (mut n, mut lost) = (0, 0);
        for o in &ones {
            for (at, stay) in &o.stays {
                if *at != b {
                    check(stay.iter().all(|c| !text.contains(c)), "what is added goes where it is added");
                    continue;
                }
                let there: Vec<char> = text.iter().filter(|c| stay.contains(c)).cloned().collect();
                lost += stay.iter().filter(|c| !there.contains(c) && !o.unsure.contains(c)).count();
                let want: Vec<char> = stay.iter().filter(|c| there.contains(c)).cloned().collect();
                check(there == want, "what is added stays in order, once");
                n += there.len();
            }
        }
        check(lost <= deleted[b], "what is added is not lost");
        check(n == text.len(), "a buffer is what was added");
        cover("shown");
    }
}

/// A client whose server writes anything and goes away.
fn broken(p: usize) {
    let steps = p % 10;
    let (ours, server) = MemoryStream::pair(usize::MAX);
    connects(ours);
    let mut connection = Connection::new(Session::from_name("s"));
    let (mut events, requests) = future::block_on(connection.connect());
    let seen = Arc::new(std::sync::Mutex::new(vec![]));
    let sink = seen.clone();
    let mut requests = Task::new(Box::pin(requests));
    let mut events = Task::new(Box::pin(async move {
        while let Some(e) = events.next().await {
            sink.lock().unwrap().push(match e {
                ConnectionEvent::ConnErr(_) => None,
                ConnectionEvent::Echo(t) => Some(t.plain()),
                _ => Some("?".to_string()),
            });
        }
    }));
    let mut want: Vec<Option<String>> = vec![];
    let mut ended = false;
    for i in 0..range(1, steps) {
        let b = byte(0, 0xff);
        match pick(7) {
            0 => {
                // a message, maybe in two parts
                let m = format!("e{}", i);
                let line = format!("{{\"jsonrpc\":\"2.0\",\"method\":\"echo\",\"params\":[{{\"face\":\"Default\",\"text\":\"{}\"}}]}}\n", m);
                let cut = [0, 1, 30, line.len() - 1][pick(4)];
                server.feed(&line.as_bytes()[..cut]);
                while events.poll() {}
                server.feed(&line.as_bytes()[cut..]);
                want.push(Some(m));
                cover("message");
            }
            1 => {
                // no event
                assume(b != b'\n' && b != b'\r' && b < 0x80);
                server.feed(&[b, b'\n']);
                want.push(None);
                cover("no event");
            }
            2 => {
                server.feed(b"{\"jsonrpc\":\"2.0\",\"method\"\n");
                want.push(None);
                cover("cut line");
            }
            3 => {
                // no text
                assume(b >= 0x80);
                server.feed(&[b, b'\n']);
                want.push(None);
                cover("no text");
            }
            4 => {
                server.hang_up();
                connection.keys(vec![key('x')]);
                cover("deaf");
            }
            5 => {
                server.feed(b"{\"jsonrpc");
                server.close();
                want.push(None);
                ended = true;
                cover("cut off");
            }
            _ => {
                while events.poll() {}
                if flag() {
                    server.close();
                } else {
                    server.reset();
                    want.push(None);
                }
                ended = true;
                cover("left");
            }
        }
        if flag() {
            while events.poll() | requests.poll() {}
        }
        if ended {
            break;
        }
    }
    // a front end which did not notice goes on
    connection.keys(vec![key('x')]);
    while events.poll() | requests.poll() {}
    check(events.ended() == ended, "a client notices when its server has left, and not before");
    let seen = seen.lock().unwrap();
    check(seen.len() == want.len(), "each line of the server is an event or an error");
    check(*seen == want, "what a server says is heard in order, whatever else it writes");
    observe_num(seen.len());
    cover("end");
}

/// What a JSON client relays, in the order it is expected.
#[derive(Default)]
struct Relay {
    /// lines typed which are requests
    typed: Vec<Value>,
    /// messages of the server
    said: Vec<Value>,
    sent: Vec<u8>,
    shown: Vec<u8>,
    next: usize,
}

fn whole_lines(b: &[u8]) -> Vec<Value> {
    check(b.is_empty() || b[b.len() - 1] == b'\n', "what is relayed is whole lines");
    let mut v = vec![];
    for l in b.split(|x| *x == b'\n').filter(|l| !l.is_empty()) {
        match std::str::from_utf8(l).ok().and_then(|l| serde_json::from_str(l).ok()) {
            Some(x) => v.push(x),
            None => check(false, "each line which is relayed is one message"),
        }
    }
    v
}

impl Relay {
    fn settled(&mut self, server: &MemoryStream, user: &MemoryStream) {
        self.sent.extend(server.drain());
        self.shown.extend(user.drain());
        check(whole_lines(&self.sent) == self.typed, "each request which is typed is sent at once, as it is, in order");
        check(whole_lines(&self.shown) == self.said, "each message of the server is written at once, on a line, in order");
    }
}

/// A client which relays requests and messages.
fn json(p: usize) {
    let steps = p % 10;
    let limit = [usize::MAX, 7][p / 10 % 10];
    if p < 10 && flag() {
        // there is no server
        let (user, console) = MemoryStream::pair(limit);
        ced::clients::verif::console(console, Box::new(|| check(false, "a client without a server does not wait")));
        user.feed(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"quit\"}\n");
        let r = StdioClient::new(Session::from_name("s")).run();
        check(r.is_err(), "a client without a server says so");
        cover("no server");
        return;
    }
    let (ours, server) = MemoryStream::pair(limit);
    connects(ours);
    let (user, console) = MemoryStream::pair(limit);
    let relay = Arc::new(std::sync::Mutex::new(Relay::default()));
    let ended = Arc::new(AtomicBool::new(false));
    let (r2, e2, s2, u2) = (relay.clone(), ended.clone(), server.clone(), user.clone());
    let mut left = range(1, steps);
    let mut open = true;
    ced::clients::verif::console(
        console,
        Box::new(move || {
            let mut r = r2.lock().unwrap();
            r.settled(&s2, &u2);
            check(!e2.load(Ordering::SeqCst), "a client ends with its server");
            let mut first = true;
            loop {
                if left == 0 {
                    // the server leaves
                    if first && flag() {
                        s2.reset();
                        cover("reset");
                    } else {
                        s2.close();
                    }
                    e2.store(true, Ordering::SeqCst);
                    return;
                }
                left -= 1;
                let n = r.next;
                r.next += 1;
                let b = byte(0x20, 0x7e);
                match pick(6) {
                    0 if open => {
                        assume(b != b'"' && b != b'\\');
                        let line = format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"m{}\",\"params\":[1, \"\u{e9}\"]}}", n, b as char);
                        r.typed.push(serde_json::from_str(&line).unwrap());
                        u2.feed(line.as_bytes());
                        u2.feed(b"\n");
                        cover("request");
                    }
                    1 if open => {
                        u2.feed(&[b'z', b, b'\n']);
                        cover("no request");
                    }
                    2 if open => {
                        u2.feed(b"\xff\n");
                        cover("no text");
                    }
                    3 if open => {
                        if flag() {
                            u2.fail();
                            cover("input failed");
                        } else {
                            u2.close();
                            cover("input ended");
                        }
                        open = false;
                    }
                    4 => {
                        assume(b != b'"' && b != b'\\');
                        let line = if flag() {
                            format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":{{\"k\": [null, \"{}\"]}}}}", n, b as char)
                        } else {
                            format!("{{\"jsonrpc\":\"2.0\",\"method\":\"n{}\",\"params\":{{\"k\": [null, \"\u{e9}\"]}}}}", b as char)
                        };
                        r.said.push(serde_json::from_str(&line).unwrap());
                        s2.feed(line.as_bytes());
                        s2.feed(b"\n");
                        cover("message");
                    }
                    5 => {
                        s2.feed(&[b'z', b, b'\n']);
                        cover("no message");
                    }
                    _ => {}
                }
                first = false;
                if flag() {
                    return;
                }
            }
        }),
    );
    let r = StdioClient::new(Session::from_name("s")).run();
    check(r.is_ok(), "a client whose server leaves ends well");
    check(ended.load(Ordering::SeqCst), "a client goes on while its server is there");
    relay.lock().unwrap().shown.extend(user.drain());
    let r = relay.lock().unwrap();
    check(whole_lines(&r.shown) == r.said, "each message of the server is written, until it leaves");
    observe(&r.shown);
    observe(&r.sent);
    cover("end");
}

/// What is left of a session when its server has ended.
fn sessions(p: usize) {
    let tcp = flag();
    let name = if tcp { "@:4242" } else { ["s", "\u{e9} x"][pick(2)] };
    let mut there: Vec<String> = vec![];
    for other in ["o", "s2", "7"].iter().take(p % 10) {
        if flag() {
            there.push(other.to_string());
        }
    }
    there.sort();
    let others = there.clone();
    if !tcp {
        there.push(name.to_string());
    }
    for n in &there {
        file(&format!("t/ced-u/{}", n), b"");
    }
    let list = || {
        let mut v = Session::list();
        v.sort();
        v
    };
    there.sort();
    check(list() == there, "the sessions are listed");
    if flag() {
        // of another server
        taken();
        let r = Server::new(Session::from_name(name)).run();
        check(r.is_err(), "a server says so when its address is taken");
        check(list() == there, "a server leaves the sessions of others alone");
        return cover("taken");
    }
    let mut peers = vec![];
    for i in 0..1 + pick(2) {
        if p >= 10 && flag() {
            accept_fails();
            cover("no client");
        }
        let c = Peer::connect(usize::MAX);
        if flag() {
            c.stream.feed(b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"quit\"}\n");
        }
        match pick(3) {
            0 => c.stream.close(),
            1 => c.stream.reset(),
            _ if i > 0 || p < 10 => {
                c.stream.feed(b"nothing");
                c.stream.close();
            }
            _ => {
                c.stream.hang_up();
                c.stream.close();
            }
        }
        peers.push(c);
    }
    let r = Server::new(Session::from_name(name)).run();
    check(r.is_ok(), "a server ends well");
    check(list() == others, "a session is gone when its server has ended, and no other one is");
    let dir = std::path::Path::new(DIR).join("t/ced-u");
    check(dir.exists() != others.is_empty() || tcp, "the directory of the sessions goes with the last one");
    observe_num(others.len());
    cover(if tcp { "address" } else { "socket" });
    cover(if others.is_empty() { "last" } else { "others" });
}

/// What a server which is started prints, and what was read of it.
struct Prints {
    parts: Vec<Vec<u8>>,
    fails: bool,
    read: Arc<std::sync::Mutex<Vec<u8>>>,
    ready: bool,
}

impl std::io::Read for Prints {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.parts.is_empty() {
            check(!self.ready, "a server which is ready is not waited for");
            return if self.fails { Err(std::io::ErrorKind::Other.into()) } else { Ok(0) };
        }
        let n = buf.len().min(self.parts[0].len());
        buf[..n].copy_from_slice(&self.parts[0][..n]);
        self.read.lock().unwrap().extend(&self.parts[0][..n]);
        self.parts[0].drain(..n);
        if self.parts[0].is_empty() {
            self.parts.remove(0);
        }
        Ok(n)
    }
}

/// Sessions are started when they are needed.
fn started(p: usize) {
    use ced_remote::process::{starts, Child, Command, Stdio};
    let most = p % 10;
    // names, and addresses
    let mut any = String::from("s");
    any.push(if p >= 10 { byte(0x21, 0x7e) as char } else { ['\u{e9}', '@', ' ', '1', ':'][pick(5)] });
    assume(any != "s/");
    let name = match pick(5) {
        0 => any.as_str(),
        1 => "@:4242",
        2 => "@1.2.3.4:1",
        3 => "@localhost:4242",
        _ => "--mode",
    };
    let session = Session::from_name(name);
    let address = name.starts_with("@:") || name.starts_with("@1");
    let there = flag();
    if there {
        file(&format!("t/ced-u/{}", if address { "other" } else { name }), b"");
    }
    let bin = flag();
    if bin {
        std::env::set_var("CED_BIN", "b\u{e9}");
        cover("program");
    } else {
        std::env::remove_var("CED_BIN");
    }
    // what it prints, in parts
    let mut parts = vec![];
    let mut printed = vec![];
    for _ in 0..range(0, most) {
        let part = [&b"\n"[..], b"x\n", b"x", b"\xc3\xa9\n", b"\r\n", b"x\n\n"][pick(6)].to_vec();
        printed.extend(&part);
        parts.push(part);
    }
    let ready = printed.starts_with(b"\n") || printed.starts_with(b"\r\n") || {
        printed.windows(2).any(|w| w == b"\n\n") || printed.windows(3).any(|w| w == b"\n\r\n")
    };
    let (missing, fails) = (flag(), flag());
    let read = Arc::new(std::sync::Mutex::new(vec![]));
    let calls: Arc<std::sync::Mutex<Vec<Command>>> = Default::default();
    let (c2, r2) = (calls.clone(), read.clone());
    starts(Box::new(move |c| {
        c2.lock().unwrap().push(c.clone());
        if missing {
            return Err(std::io::ErrorKind::NotFound.into());
        }
        let stdout = Prints { parts: std::mem::take(&mut parts), fails, read: r2.clone(), ready };
        Ok(Child { id: 77, stdout: Some(Box::new(stdout)) })
    }));
    let ensured = flag();
    let r = if ensured {
        ced_remote::ensure_session(&session).map(|_| 77)
    } else {
        ced_remote::start_daemon(&session)
    };
    let calls = calls.lock().unwrap();
    if ensured && (address || there) {
        check(calls.is_empty(), "a session which is there, or at an address, is not started");
        check(r.is_ok(), "a session which is there is fine");
        return cover("there");
    }
    check(calls.len() == 1, "a session is started once");
    let Some(c) = calls.first() else { return };
    if bin {
        check(c.program == "b\u{e9}", "the program is the one which is asked for");
    }
    check(c.args.iter().filter(|a| *a == "--mode=server").count() == 1, "a server is started");
    let names: Vec<&str> = c.args.iter().filter_map(|a| a.strip_prefix("--session=")).collect();
    check(c.args.len() == 2 && names.len() == 1, "a server is started for one session");
    if let Some(n) = names.first() {
        check(Session::from_name(n).mode == session.mode, "a server is started for the session which is asked for");
        observe(n.as_bytes());
    }
    check(c.stdin == Some(Stdio::Null), "a server does not read the terminal");
    check(c.stderr == Some(Stdio::Null), "a server does not write to the terminal");
    if missing {
        check(r.is_err(), "a program which can not be started is an error");
        return cover("no program");
    }
    let read = read.lock().unwrap();
    check(read.len() <= printed.len() && *read == printed[..read.len()], "what is printed is read");
    if ready {
        check(r.as_ref().ok() == Some(&77), "a server which is ready is started");
        let text: Vec<u8> = read.iter().filter(|b| **b != b'\r').cloned().collect();
        check(text[0] == b'\n' || text.windows(2).any(|w| w == b"\n\n"), "a server is waited for until it is ready");
        cover("ready");
    } else {
        check(r.is_err(), "a server which ends before it is ready is an error");
        cover("not ready");
    }
}
