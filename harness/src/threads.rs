//! Parts of several threads, of which any may run whenever one waits or may be overtaken.
use crate::sym::*;
use async_channel::unbounded;
use ced::clients::start_standalone;
use ced::clients::verif::standalone::{console, Console};
use ced::editor::Editor;
use ced_ffi::ced_last_error_length;
use ced_ffi::verif::*;
use ced_remote::process;
use ced_remote::protocol::requests::EditParams;
use ced_remote::threads::{scheduled_by, thread, Ready, Scheduler};
use ced_remote::verif::{connects, MemoryStream};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, CString};
use std::io;
use std::rc::Rc;

pub fn run(idx: usize, p: usize) {
    match idx {
        4300 => standalone(p),
        4310 => foreign(p),
        _ => panic!("no such scenario"),
    }
}

struct Thread {
    context: u64,
    main: Option<Box<dyn FnOnce()>>,
    ready: Ready,
    timed: bool,
    late: bool,
    ended: bool,
}

/// The threads there are. The scenario is none of them.
#[derive(Default)]
struct Threads {
    list: RefCell<Vec<Thread>>,
    current: Cell<usize>,
    /// How many more waits may end because their time is up.
    timeouts: Cell<usize>,
    panicked: RefCell<Option<Box<dyn std::any::Any + Send>>>,
}

thread_local! {
    static THREADS: RefCell<Option<Rc<Threads>>> = RefCell::new(None);
}

extern "C" fn start(k: u64) {
    let threads = THREADS.with(|t| t.borrow().clone()).unwrap();
    let main = threads.list.borrow_mut()[k as usize].main.take().unwrap();
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main)) {
        *threads.panicked.borrow_mut() = Some(e);
    }
    threads.list.borrow_mut()[k as usize].ended = true;
    loop {
        switch(0);
    }
}

impl Scheduler for Threads {
    fn spawn(&self, main: Box<dyn FnOnce()>) {
        let mut list = self.list.borrow_mut();
        let context = context(start, list.len() as u64);
        list.push(Thread { context, main: Some(main), ready: Rc::new(|| true), timed: false, late: false, ended: false });
    }
    fn wait(&self, ready: Ready, timed: bool) -> bool {
        let k = self.current.get();
        {
            let mut list = self.list.borrow_mut();
            let t = &mut list[k];
            t.ready = ready;
            t.timed = timed;
        }
        switch(0);
        !self.list.borrow()[k].late
    }
}

impl Threads {
    fn new(main: impl FnOnce() + 'static, timeouts: usize) -> Rc<Threads> {
        let threads = Rc::new(Threads::default());
        threads.timeouts.set(timeouts);
        THREADS.with(|t| *t.borrow_mut() = Some(threads.clone()));
        scheduled_by(threads.clone());
        threads.spawn(Box::new(main));
        threads
    }
    /// The threads which can go on, and those whose time may be up.
    fn next(&self) -> Vec<(usize, bool)> {
        let mut next = vec![];
        let n = self.list.borrow().len();
        for k in 0..n {
            let (ended, ready, timed) = {
                let t = &self.list.borrow()[k];
                (t.ended, t.ready.clone(), t.timed)
            };
            if ended {
                continue;
            }
            if ready() {
                next.push((k, false));
            } else if timed && self.timeouts.get() > 0 {
                next.push((k, true));
            }
        }
        next
    }
    fn go(&self, (k, late): (usize, bool)) {
        let context = {
            let mut list = self.list.borrow_mut();
            list[k].late = late;
            list[k].context
        };
        if late {
            self.timeouts.set(self.timeouts.get() - 1);
        }
        self.current.set(k);
        switch(context);
        if let Some(e) = self.panicked.borrow_mut().take() {
            std::panic::resume_unwind(e);
        }
    }
    fn ended(&self, k: usize) -> bool {
        self.list.borrow()[k].ended
    }
    /// Whether all threads but this one wait for something.
    fn idle_but(&self, k: usize) -> bool {
        self.next().iter().all(|n| n.0 == k || n.1)
    }
}

#[derive(Clone, Copy)]
enum Typed {
    Line(&'static [u8]),
    Failure,
}

/// What is typed, and what an editor has to show for it.
struct Desk {
    lines: Vec<Typed>,
    at: Cell<usize>,
    shown: RefCell<Vec<String>>,
    /// The notifications until each of the lines, and the answers.
    want: RefCell<Vec<(usize, usize)>>,
}

const LINES: &[&[u8]] = &[
    b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"edit\",\"params\":{\"name\":\"s\",\"scratch\":true}}\n",
    b"{\"jsonrpc\":\"2.0\",\"id\":2,\"method\":\"exec\",\"params\":\"editor:message(1, 'm') editor:message(2, 'n')\"}\n",
    b"{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"nothing\"}\n",
    b"nothing\n",
    b"\xff\n",
    b"\n",
];

fn is_answer(line: &str) -> bool {
    serde_json::from_str::<Value>(line).unwrap().get("method").is_none()
}

impl Desk {
    fn check_shown(&self, line: usize) {
        let (n, a) = self.want.borrow()[line];
        let shown = self.shown.borrow();
        let answers = shown.iter().filter(|l| is_answer(l)).count();
        check(answers == a, "each line which is a request is answered at once");
        check(shown.len() - answers == n, "what the editor says is shown at once");
    }
}

thread_local! {
    static CHECK: RefCell<Option<Rc<Threads>>> = RefCell::new(None);
}

impl Console for Desk {
    fn typed(&self) -> io::Result<Vec<u8>> {
        thread::yield_now();
        let i = self.at.get();
        if CHECK.with(|c| c.borrow().as_ref().unwrap().idle_but(0)) {
            self.check_shown(i.min(self.lines.len()));
        }
        self.at.set(i + 1);
        match self.lines.get(i) {
            Some(Typed::Line(l)) => Ok(l.to_vec()),
            Some(Typed::Failure) => {
                // it fails again whenever it is tried
                check(i <= self.lines.len(), "an input which fails is not read for ever");
                self.at.set(i);
                let n = self.want.borrow().len();
                self.want.borrow_mut().resize(n + 1, (0, 0));
                check(n < self.lines.len() + 4, "an input which fails is not read for ever");
                Err(io::ErrorKind::Other.into())
            }
            None => Ok(vec![]),
        }
    }
    fn shown(&self, line: String) {
        thread::yield_now();
        self.shown.borrow_mut().push(line);
    }
}

/// An editor whose console is the one which started it.
fn standalone(p: usize) {
    file("f", b"one\n");
    let f = format!("{}/f", DIR);
    let alone = p / 10 % 10 == 1;
    let files: Vec<String> = [vec![], vec![f.clone()], vec![format!("{}/none/g", DIR), f]][pick(if alone { 1 } else { 3 })].clone();
    let few = p % 10 > 2;
    let mut lines = vec![];
    let mut n = range(0, p % 10);
    while n > 0 {
        n -= 1;
        let k = if few { [0, 3][pick(2)] } else { pick(LINES.len() + 1) };
        if k == LINES.len() {
            lines.push(Typed::Failure);
            cover("no input any more");
            break;
        }
        lines.push(Typed::Line(LINES[k]));
        cover(["edit", "exec", "unknown", "no request", "no text", "empty"][k]);
    }
    // an editor asked the same
    let (tx, rx) = unbounded();
    let mut editor = Editor::new("", tx);
    let (mut answers, mut notifications) = (vec![], vec![]);
    let mut want = vec![];
    let told = |to: &mut Vec<String>| {
        while let Ok(m) = rx.try_recv() {
            if m.should_notify(1) {
                to.push(m.message.to_string());
            }
        }
    };
    editor.add_client(1);
    for f in &files {
        let _ = editor.command_edit(1, &EditParams { name: f.clone(), scratch: false });
    }
    told(&mut notifications);
    want.push((notifications.len(), answers.len()));
    for l in &lines {
        if let Typed::Line(l) = l {
            if let Ok(l) = std::str::from_utf8(l) {
                if let Ok(r) = editor.handle(1, &l[..l.len() - 1]) {
                    answers.push(r.to_string());
                }
            }
            told(&mut notifications);
        }
        want.push((notifications.len(), answers.len()));
    }
    editor.remove_client(1);
    told(&mut notifications);
    drop(editor);

    let desk = Rc::new(Desk { lines, at: Cell::new(0), shown: RefCell::default(), want: RefCell::new(want) });
    console(desk.clone());
    let threads = Threads::new(
        move || {
            let names: Vec<&str> = files.iter().map(|f| f.as_str()).collect();
            start_standalone(&names);
        },
        0,
    );
    CHECK.with(|c| *c.borrow_mut() = Some(threads.clone()));
    let mut steps = 0;
    while !threads.ended(0) {
        let next = threads.next();
        check(!next.is_empty(), "a standalone editor goes on until its input ends");
        steps += 1;
        check(steps < 1000, "a standalone editor ends with its input");
        threads.go(next[pick(next.len())]);
    }
    // nothing runs when the program has ended
    let shown = desk.shown.borrow();
    let (mut a, mut n) = (answers.iter(), notifications.iter());
    for line in shown.iter() {
        if is_answer(line) {
            check(a.next() == Some(line), "each line which is a request is answered, in order");
        } else {
            check(n.next() == Some(line), "what the editor says is shown whole, once and in order");
        }
    }
    check(a.next().is_none(), "each line which is a request is answered, in order");
    check(n.next().is_none(), "what the editor says is shown whole, once and in order");
    observe_num(shown.len());
    cover("end");
}

/// A foreign front end.
fn foreign(p: usize) {
    let (ours, server) = MemoryStream::pair(usize::MAX);
    connects(ours);
    let local = flag();
    let fails = local && flag();
    // a name which is no text is none
    let unnamed = local && flag();
    if local {
        process::starts(Box::new(move |c| {
            let name = if unnamed { std::process::id().to_string() } else { "s".to_string() };
            check(c.args.iter().any(|a| a.rsplit(['=', '/']).next() == Some(&name)), "a session has the name it is given, or a name of its own");
            if fails {
                return Err(io::ErrorKind::NotFound.into());
            }
            Ok(process::Child { id: 3, stdout: Some(Box::new(io::Cursor::new(b"\n".to_vec()))) })
        }));
    }
    let timeouts = p / 10 % 10;
    let most = range(0, p % 10);
    let got: Rc<RefCell<Vec<Option<String>>>> = Rc::default();
    let created: Rc<Cell<Option<bool>>> = Rc::default();
    let (sink, made) = (got.clone(), created.clone());
    let threads = Threads::new(
        move || {
            let name = CString::new(if unnamed { b"\xff" } else if local { &b"s"[..] } else { b"@127.0.0.1:1" }).unwrap();
            let c = unsafe { ced_connection_create(name.as_ptr()) };
            made.set(Some(!c.is_null()));
            if c.is_null() {
                return;
            }
            for _ in 0..most + timeouts + 3 {
                let ev = unsafe { ced_connection_next_event(c) };
                sink.borrow_mut().push(if ev.is_null() {
                    None
                } else {
                    Some(match unsafe { &*ev } {
                        CedEvent::Echo { message } => {
                            let i = unsafe { ced_text_next_item(*message) };
                            unsafe { CStr::from_ptr((*i).text) }.to_str().unwrap().to_owned()
                        }
                        CedEvent::Info { client, .. } => unsafe { CStr::from_ptr(*client) }.to_str().unwrap().to_owned(),
                        CedEvent::ConnErr { .. } => "error".to_string(),
                        _ => "?".to_string(),
                    })
                });
                if ev.is_null() {
                    cover("nothing yet");
                }
            }
        },
        timeouts,
    );
    let mut want: Vec<String> = vec![];
    let mut said = 0;
    let mut ended = false;
    let mut steps = 0;
    loop {
        let next = threads.next();
        let more = said < most && !ended;
        let n = next.len() + more as usize;
        if n == 0 {
            break;
        }
        steps += 1;
        check(steps < 1000, "a front end which hears nothing waits");
        let k = pick(n);
        if k < next.len() {
            threads.go(next[k]);
            if threads.ended(0) {
                break;
            }
            continue;
        }
        said += 1;
        match pick(5) {
            0 => {
                let m = format!("e{}", said);
                server.feed(format!("{{\"jsonrpc\":\"2.0\",\"method\":\"echo\",\"params\":[{{\"face\":\"Default\",\"text\":\"{}\"}}]}}\n", m).as_bytes());
                want.push(m);
                cover("message");
            }
            1 => {
                server.feed(b"nothing\n");
                want.push("error".to_string());
                cover("no event");
            }
            2 => {
                let two: Vec<String> = (0..2).map(|i| format!("e{}{}", said, i)).collect();
                for m in &two {
                    server.feed(format!("{{\"jsonrpc\":\"2.0\",\"method\":\"echo\",\"params\":[{{\"face\":\"Default\",\"text\":\"{}\"}}]}}\n", m).as_bytes());
                }
                want.extend(two);
                cover("two messages");
            }
            3 => {
                let m = format!("i{}", said);
                server.feed(format!("{{\"jsonrpc\":\"2.0\",\"method\":\"info\",\"params\":{{\"client\":\"{}\",\"session\":\"s\",\"cwd\":\"/\"}}}}\n", m).as_bytes());
                want.push(m);
                cover("another message");
            }
            _ => {
                server.close();
                ended = true;
                cover("left");
            }
        }
    }
    if fails {
        check(created.get() == Some(false), "a connection which cannot be made is null");
        check(unsafe { ced_last_error_length() } > 0, "a connection which cannot be made leaves an error");
        cover("no session");
        return;
    }
    check(created.get() == Some(true), "a connection is made");
    let got = got.borrow();
    let heard: Vec<&String> = got.iter().flatten().collect();
    for (g, w) in heard.iter().zip(want.iter()) {
        check(*g == w, "each event is handed over once and in order");
    }
    check(heard.len() <= want.len(), "each event is handed over once and in order");
    // without an event, it waited as long as it may, or heard all there will be
    let nothing = got.iter().filter(|g| g.is_none()).count();
    let late = timeouts - threads.timeouts.get();
    if nothing > late {
        check(ended && heard.len() == want.len(), "what is said is waited for");
    }
    // either it heard all, or it did not ask for more
    check(heard.len() == want.len() || got.len() == most + timeouts + 3, "no event is lost");
    if threads.ended(0) && ended && heard.len() == want.len() {
        cover("heard all");
    }
    observe_num(got.len());
}
