//! Explores the behaviours of a program that reads events: at each point where it asks for one, the process
//! forks once per possible action, so every sequence of actions up to the depth is executed by the real program
//! from the real state. What it wrote since the previous action is appended to the log.
//!
//! VP_EXPLORE   file with one action per line: keys separated by spaces (`c:x`, `Enter`, `Up`, `idle`, `ctrlc`, ...)
//! VP_DEPTH     length of the sequences
//! VP_PART      `i/n`: explore only the sequences whose first two actions are of the part i
//! VP_LOG       log file: `path status stdout stderr` (hexadecimal), status `-` waits for an event
use crate::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use std::collections::VecDeque;
use std::io::Write;
use std::sync::Mutex;

#[derive(Clone)]
enum Input {
    Event(Event),
    Idle,
    CtrlC,
}

struct State {
    actions: Vec<Vec<Input>>,
    depth: usize,
    part: (usize, usize),
    log: i32,
    out: [i32; 2],
    mark: [i64; 2],
    path: Vec<usize>,
    pending: VecDeque<Input>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

const DONE: i32 = 77;
const HANG_S: u32 = 20;

pub fn on() -> bool {
    *ON.get_or_init(|| std::env::var_os("VP_EXPLORE").is_some())
}

fn parse(s: &str) -> Input {
    let key = |code| Input::Event(Event::Key(KeyEvent::new(code, KeyModifiers::NONE)));
    match s {
        "Enter" => key(KeyCode::Enter),
        "Up" => key(KeyCode::Up),
        "Down" => key(KeyCode::Down),
        "Left" => key(KeyCode::Left),
        "Right" => key(KeyCode::Right),
        "Home" => key(KeyCode::Home),
        "Delete" => key(KeyCode::Delete),
        "Backspace" => key(KeyCode::Backspace),
        "Esc" => key(KeyCode::Esc),
        "Tab" => key(KeyCode::Tab),
        "F1" => key(KeyCode::F(1)),
        "resize" => Input::Event(Event::Resize(80, 24)),
        "idle" => Input::Idle,
        "ctrlc" => Input::CtrlC,
        _ => key(KeyCode::Char(s.strip_prefix("c:").unwrap().chars().next().unwrap())),
    }
}

fn keys(line: &str) -> Vec<Input> {
    let mut v = Vec::new();
    for w in line.split('\t') {
        match w.strip_prefix("s:") {
            Some(text) => v.extend(text.chars().map(|c| parse(&format!("c:{}", c)))),
            None => v.push(parse(w)),
        }
    }
    v
}

unsafe fn memfd() -> i32 {
    let fd = libc::memfd_create(c"out".as_ptr(), 0);
    assert!(fd >= 0);
    fd
}

fn init() -> State {
    let var = |n: &str| std::env::var(n).unwrap();
    let text = std::fs::read_to_string(var("VP_EXPLORE")).unwrap();
    let part = var("VP_PART");
    let (i, n) = part.split_once('/').unwrap();
    let path = std::ffi::CString::new(var("VP_LOG")).unwrap();
    // SAFETY: plain system calls.
    unsafe {
        let log = libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND, 0o644);
        assert!(log >= 0);
        let out = [memfd(), memfd()];
        // What was already written (and is still in the buffers) belongs to the start.
        libc::dup2(out[0], 1);
        libc::dup2(out[1], 2);
        State {
            actions: text.lines().map(keys).collect(),
            depth: var("VP_DEPTH").parse().unwrap(),
            part: (i.parse().unwrap(), n.parse().unwrap()),
            log,
            out,
            mark: [0, 0],
            path: vec![],
            pending: VecDeque::new(),
        }
    }
}

impl State {
    /// What was written since the mark, which is removed.
    fn take(&mut self, fd: usize) -> Vec<u8> {
        unsafe {
            let end = libc::lseek(self.out[fd], 0, libc::SEEK_END);
            let mut buf = vec![0u8; (end - self.mark[fd]).max(0) as usize];
            let n = libc::pread(self.out[fd], buf.as_mut_ptr().cast(), buf.len(), self.mark[fd]);
            buf.truncate(n.max(0) as usize);
            libc::ftruncate(self.out[fd], self.mark[fd]);
            libc::lseek(self.out[fd], self.mark[fd], libc::SEEK_SET);
            buf
        }
    }

    fn record(&mut self, status: &str) {
        let mut s: String = self.path.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(",");
        if s.is_empty() {
            s.push('.');
        }
        s.push(' ');
        s.push_str(status);
        for fd in 0..2 {
            s.push_str(" x");
            for b in self.take(fd) {
                s.push_str(&format!("{:02x}", b));
            }
        }
        s.push('\n');
        unsafe {
            libc::write(self.log, s.as_ptr().cast(), s.len());
        }
    }

    /// The program waits for an event: explores every continuation, returns in the children only.
    fn decide(&mut self) {
        unsafe {
            libc::alarm(0);
        }
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        self.record("-");
        if self.path.len() < self.depth {
            for a in 0..self.actions.len() {
                if self.path.len() == 1 && (self.path[0] * self.actions.len() + a) % self.part.1 != self.part.0 {
                    continue;
                }
                unsafe {
                    match libc::fork() {
                        -1 => libc::_exit(78),
                        0 => {
                            libc::alarm(HANG_S);
                            self.path.push(a);
                            self.pending = self.actions[a].iter().cloned().collect();
                            return;
                        }
                        child => {
                            let mut st = 0;
                            libc::waitpid(child, &mut st, 0);
                            if libc::WIFEXITED(st) {
                                match libc::WEXITSTATUS(st) {
                                    DONE => {}
                                    78 => libc::_exit(78),
                                    code => {
                                        self.path.push(a);
                                        self.record(&format!("exit:{}", code));
                                        self.path.pop();
                                    }
                                }
                            } else {
                                self.path.push(a);
                                self.record(&format!("signal:{}", libc::WTERMSIG(st)));
                                self.path.pop();
                            }
                        }
                    }
                }
            }
        }
        unsafe { libc::_exit(DONE) }
    }
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let _ = std::io::stdout().flush();
        *g = Some(init());
    }
    f(g.as_mut().unwrap())
}

/// Is there an event?
pub fn poll() -> bool {
    let next = with(|s| {
        if s.pending.is_empty() {
            s.decide();
        }
        match s.pending.front() {
            Some(Input::Event(_)) => return None,
            _ => s.pending.pop_front(),
        }
    });
    match next {
        None => true,
        Some(Input::CtrlC) => {
            ctrlc::vp_ctrlc();
            false
        }
        Some(_) => false,
    }
}

/// Waits for an event.
pub fn read() -> Event {
    while !poll() {}
    with(|s| match s.pending.pop_front() {
        Some(Input::Event(e)) => e,
        _ => unreachable!(),
    })
}
