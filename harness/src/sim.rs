//! Simulated operating system underneath the real server.
//!
//! The executable defines the libc symbols the server's runtime uses for networking, readiness,
//! time and randomness, so the *unmodified* octane + tokio + mio + socket2 stack runs on top of a
//! network whose every answer (what is readable, how much a send accepts, when a connection
//! arrives, which errno an accept returns) is decided by the explorer.  A thread without an
//! installed simulation gets the real system calls.
use std::cell::Cell;
use std::collections::VecDeque;
use crate::app::Ev;
use std::os::raw::{c_int, c_long, c_void};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Listening {
    pub port: u16,
    pub any: bool,
    pub reuse: bool,
    pub nonblocking: bool,
    pub backlog: i32,
}

pub const FD_BASE: c_int = 1_000_000;

/// One step of what the client does on a connection.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum In {
    /// Bytes that arrive as a separate readiness event (the server has gone idle before).
    Data(Vec<u8>),
    /// Bytes that are already there when the previous ones are read (a short read, no wait).
    More(Vec<u8>),
    /// The client closes its sending side.
    Eof,
    /// The client goes away: reads fail with this errno from now on.
    Fail(i32),
    /// From now on writes fail with this errno as well (peer reset).
    Reset(i32),
}

/// The answer to one send call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    All,
    /// Accept at most this many bytes.
    N(usize),
    /// EAGAIN; writable again when the environment says so.
    Block,
    /// EAGAIN, and never writable again
    Stuck,
    Err(i32),
    /// one write fails; the socket works again afterwards
    Fail(i32),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Conn {
    pub port: u16,
    pub input: Vec<In>,
    pub output: Vec<Out>,
    /// a TLS client instead of the input above
    pub tls: Option<Box<crate::tls::Plan>>,
}

impl Conn {
    pub fn new(bytes: &[u8]) -> Conn {
        Conn { input: vec![In::More(bytes.to_vec())], ..Default::default() }
    }
    pub fn eof(mut self) -> Conn {
        self.input.push(In::Eof);
        self
    }
}

/// What another process can do to a file.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FileEv {
    Append(usize),
    /// another file takes its name
    Replace(usize),
    Delete,
}
pub fn file_bytes(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 31 + i / 251 + salt * 7) % 256) as u8).collect()
}
impl FileEv {
    /// the content of the file (none: not there) afterwards
    pub fn apply(&self, c: Option<Vec<u8>>) -> Option<Vec<u8>> {
        match (self, c) {
            (FileEv::Append(n), Some(mut c)) => {
                c.extend(file_bytes(*n, 3));
                Some(c)
            }
            (FileEv::Append(_), None) => None,
            (FileEv::Replace(n), _) => Some(file_bytes(*n, 5)),
            (FileEv::Delete, _) => None,
        }
    }
}

/// One execution: connections, the order of environment actions, the answers of accept and of the
/// socket set-up calls.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Exec {
    pub conns: Vec<Conn>,
    /// Choice at every idle point (index into the enabled actions); 0 after the end.
    pub schedule: Vec<usize>,
    /// errno for the k-th accept that would otherwise return a connection (0 = succeed)
    pub accept_faults: Vec<i32>,
    /// Answers of file reads: the most bytes the k-th read of a regular file returns (0 = no limit)
    pub file_reads: Vec<usize>,
    /// What another process does to the live file before the k-th call that concerns it
    pub file_events: Vec<(usize, FileEv)>,
    /// the wall clock during the execution
    pub now: Option<i64>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ConnResult {
    pub out: Vec<u8>,
    /// the server closed the connection by itself (not in reaction to the final reset)
    pub closed: bool,
    pub accepted: bool,
    /// bytes of input the server took
    pub read: usize,
    /// bytes of output the client had when the server had taken k bytes of input, for every change
    pub sends: usize,
    pub early: Option<usize>,
    pub tls: Option<crate::tls::Seen>,
}

#[derive(Clone, Debug, Default)]
pub struct ExecResult {
    pub conns: Vec<ConnResult>,
    /// number of enabled environment actions at every idle point
    pub enabled: Vec<usize>,
    /// what was chosen there
    pub chosen: Vec<usize>,
    pub panics: Vec<String>,
    pub log: Vec<Ev>,
    /// listen() came back (rendered result)
    pub returned: Option<Result<(), String>>,
    /// most heap in use during the execution, above what was in use before it
    pub mem_peak: usize,
    /// heap still in use afterwards, above what was in use before it
    pub mem_left: isize,
    /// heap in use whenever no connection was open
    pub rest: Vec<isize>,
    /// (port, address reuse on when bound, non-blocking, all interfaces) of every socket listening
    pub sockets: Vec<Listening>,
    pub actions: usize,
    pub calls: usize,
    /// the schedule did not fit (a replay that diverged)
    pub diverged: bool,
    pub started: usize,
}

struct C {
    script: Conn,
    next_in: usize,
    avail: VecDeque<Vec<u8>>,
    eof: bool,
    rfail: Option<i32>,
    reset: Option<i32>,
    next_out: usize,
    blocked: bool,
    connected: bool,
    fd: c_int,
    token: Option<(u64, u32)>,
    res: ConnResult,
    dead: bool,
    peer: Option<Box<dyn crate::tls::Peer>>,
}
impl C {
    /// The client received these bytes.
    fn deliver(&mut self, b: &[u8]) {
        self.res.out.extend_from_slice(b);
        if let Some(p) = &mut self.peer {
            self.script.input.extend(p.feed(b));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Free,
    Epoll,
    Event(u64),
    Sock { port: u16, any: bool, listening: bool, token: u64, registered: bool, reuse: bool, bound_reuse: bool, nonblocking: bool },
    Conn(usize),
}

pub type Next<'a> = dyn FnMut(Option<&ExecResult>) -> Option<Exec> + 'a;

pub struct Sim {
    fds: Vec<K>,
    free: Vec<c_int>,
    conns: Vec<C>,
    backlog: VecDeque<usize>,
    ready: VecDeque<(u64, u32)>,
    exec: Exec,
    running: bool,
    cleaning: bool,
    accept_no: usize,
    low: std::cell::Cell<usize>,
    file_read_no: usize,
    /// (directory, size at first) of the file `live.css` the events are about
    pub live: Option<(String, usize)>,
    file_op: usize,
    pub res: ExecResult,
    pub done: bool,
    next: Option<*mut Next<'static>>,
    pub calls: usize,
    /// the number of calls after which an execution counts as a livelock
    pub horizon: usize,
    /// ports for which bind answers EADDRINUSE
    pub busy_ports: Vec<u16>,
    /// ports in TIME_WAIT: bind succeeds only with address reuse
    pub timewait_ports: Vec<u16>,
    backlogs: Vec<(c_int, c_int)>,
    /// (call name, errno): the set-up call that fails
    pub setup_fault: Option<(&'static str, i32)>,
    pending: Option<ExecResult>,
    /// how often the start callback ran for this server
    pub started: usize,
    pub file_fds: bool,
    /// several threads: the clients act all at once
    pub mt: bool,
    event: Option<(c_int, u64)>,
}

/// What a new thread takes over from the one that creates it.
#[cfg(feature = "mt")]
pub struct Local(*mut Sim, i64);
#[cfg(feature = "mt")]
impl Local {
    pub fn get() -> Local {
        Local(SIM.with(|s| s.get()), NOW.with(|n| n.get()))
    }
    pub fn set(&self, id: usize) {
        SIM.with(|s| s.set(self.0));
        NOW.with(|n| n.set(self.1));
        set_seed(0x9E3779B97F4A7C15u64.wrapping_mul(id as u64 + 1) | 1);
    }
}
#[cfg(feature = "mt")]
/// Says whether schedules matter from here on.
pub fn mt_idle() -> bool {
    let mut s = sim().expect("simulation");
    s.idle();
    if !s.ready.is_empty() {
        crate::sched::network()
    }
    s.running && !s.cleaning
}

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
    static NOW: Cell<i64> = const { Cell::new(i64::MIN) };
    static MONO: Cell<i64> = const { Cell::new(0) };
    static SEED: Cell<u64> = const { Cell::new(0) };
}

/// The simulation at work: what it allocates meanwhile is not the server's.
struct At(&'static mut Sim, #[allow(dead_code)] crate::mem::Mine);
impl std::ops::Deref for At {
    type Target = Sim;
    fn deref(&self) -> &Sim {
        self.0
    }
}
impl std::ops::DerefMut for At {
    fn deref_mut(&mut self) -> &mut Sim {
        self.0
    }
}
fn sim() -> Option<At> {
    SIM.with(|s| {
        let p = s.get();
        if p.is_null() {
            None
        } else {
            Some(At(unsafe { &mut *p }, crate::mem::Mine::new()))
        }
    })
}

/// The simulated wall clock of this thread, in seconds since 1970 (None: the real one).
pub fn set_now(t: Option<i64>) {
    NOW.with(|n| n.set(t.unwrap_or(i64::MIN)))
}

/// Hash-map seeds on this thread come from here (0: the real random source). Only the first use on
/// a thread matters, std keeps the keys.
pub fn set_seed(s: u64) {
    SEED.with(|x| x.set(s))
}

pub fn log(s: impl FnOnce() -> Ev) {
    let _mine = crate::mem::Mine::new();
    let s = s();
    if let Some(mut s2) = sim() {
        s2.res.log.push(s)
    }
}

pub fn note_started() {
    if let Some(mut s2) = sim() {
        s2.started += 1
    }
}

pub fn note_panic(s: String) {
    if let Some(mut s2) = sim() {
        s2.res.panics.push(s)
    }
}

impl Drop for Sim {
    fn drop(&mut self) {
        // the thread's runtime may be dropped later than its world
        let _ = SIM.try_with(|s| {
            if s.get() == self as *mut Sim {
                s.set(std::ptr::null_mut())
            }
        });
    }
}

impl Sim {
    pub fn new() -> Box<Sim> {
        Box::new(Sim {
            fds: vec![],
            free: vec![],
            conns: vec![],
            backlog: VecDeque::new(),
            ready: VecDeque::new(),
            exec: Exec::default(),
            running: false,
            cleaning: false,
            accept_no: 0,
            low: Default::default(),
            file_read_no: 0,
            live: None,
            file_op: 0,
            res: ExecResult::default(),
            done: false,
            next: None,
            calls: 0,
            horizon: 200_000,
            busy_ports: vec![],
            timewait_ports: vec![],
            backlogs: vec![],
            setup_fault: None,
            pending: None,
            started: 0,
            file_fds: false,
            mt: false,
            event: None,
        })
    }
    /// Back to the default environment (before a new application).
    pub fn reset_env(&mut self) {
        self.busy_ports.clear();
        self.timewait_ports.clear();
        self.setup_fault = None;
        self.file_fds = false;
        self.live = None;
        self.horizon = 200_000;
    }
    pub fn install(&mut self) {
        SIM.with(|s| s.set(self as *mut Sim))
    }
    pub fn uninstall() {
        SIM.with(|s| s.set(std::ptr::null_mut()))
    }
    /// Safety: `next` must outlive the block_on that drives the executions.
    pub unsafe fn drive(&mut self, next: &mut Next<'_>) {
        self.next = Some(std::mem::transmute::<*mut Next<'_>, *mut Next<'static>>(next));
        self.done = false;
        self.running = false;
        self.cleaning = false;
        self.conns.clear();
        self.backlog.clear();
        self.res = ExecResult::default();
        self.backlogs.clear();
        self.pending = None;
        self.started = 0;
    }
    fn alloc(&mut self, k: K) -> c_int {
        if let Some(fd) = self.free.pop() {
            self.fds[(fd - FD_BASE) as usize] = k;
            return fd;
        }
        self.fds.push(k);
        FD_BASE + self.fds.len() as c_int - 1
    }
    fn kind(&mut self, fd: c_int) -> Option<&mut K> {
        if fd < FD_BASE {
            return None;
        }
        self.fds.get_mut((fd - FD_BASE) as usize)
    }
    /// environment actions that can happen now: (connection, what)
    fn enabled(&self) -> Vec<usize> {
        // very long histories run in the default order only, and their finished part is skipped
        let long = self.conns.len() > 400;
        let mut v = vec![];
        for (i, c) in self.conns.iter().enumerate().skip(if long { self.low.get() } else { 0 }) {
            let live = !c.dead && (!c.connected || c.blocked || c.next_in < c.script.input.len());
            if live {
                v.push(i);
                if long {
                    break;
                }
            } else if long && i == self.low.get() && (c.dead || c.fd < 0 && c.connected && c.res.accepted) {
                self.low.set(i + 1);
            }
        }
        v
    }
    fn act(&mut self, i: usize) {
        self.res.actions += 1;
        let c = &mut self.conns[i];
        if !c.connected {
            c.connected = true;
            Self::pull_more(c);
            self.backlog.push_back(i);
            let port = c.script.port;
            for k in self.fds.iter() {
                if let K::Sock { port: p, listening: true, token, registered: true, .. } = k {
                    if *p == port {
                        self.ready.push_back((*token, libc::EPOLLIN as u32));
                    }
                }
            }
            return;
        }
        if c.blocked {
            c.blocked = false;
            if let Some((t, _)) = c.token {
                self.ready.push_back((t, libc::EPOLLOUT as u32));
            }
            return;
        }
        let step = c.script.input[c.next_in].clone();
        c.next_in += 1;
        let mut ev = (libc::EPOLLIN) as u32;
        match step {
            In::Data(d) | In::More(d) => {
                if !d.is_empty() {
                    c.avail.push_back(d)
                }
            }
            In::Eof => {
                c.eof = true;
                ev |= libc::EPOLLRDHUP as u32
            }
            In::Fail(e) => {
                c.rfail = Some(e);
                ev |= libc::EPOLLERR as u32
            }
            In::Reset(e) => {
                c.rfail = Some(e);
                c.reset = Some(e);
                c.blocked = false;
                ev |= (libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLOUT) as u32
            }
        }
        Self::pull_more(c);
        if let Some((t, _)) = c.token {
            self.ready.push_back((t, ev));
        }
    }
    fn pull_more(c: &mut C) {
        while let Some(In::More(d)) = c.script.input.get(c.next_in) {
            if !d.is_empty() {
                c.avail.push_back(d.clone());
            }
            c.next_in += 1;
        }
    }
    /// The server has nothing to do: let the environment act, or end the execution.
    fn idle(&mut self) {
        loop {
            if self.running {
                let en = self.enabled();
                if self.conns.iter().all(|c| !c.connected || c.dead) && !self.cleaning {
                    self.res.rest.push(crate::mem::since_mark().1)
                }
                if !en.is_empty() && !self.cleaning {
                    let k = self.res.enabled.len();
                    let ch = self.exec.schedule.get(k).copied().unwrap_or(0);
                    if ch >= en.len() {
                        // a recorded schedule must replay exactly
                        self.res.diverged = true;
                    }
                    if self.mt {
                        en.into_iter().for_each(|i| self.act(i));
                        return;
                    }
                    let ch = ch.min(en.len() - 1);
                    self.res.enabled.push(en.len());
                    self.res.chosen.push(ch);
                    self.act(en[ch]);
                    return;
                }
                if !self.cleaning {
                    // quiescent: whatever is still open is waiting for the client
                    self.cleaning = true;
                    let mut any = false;
                    for c in self.conns.iter_mut() {
                        if !c.dead && c.fd >= 0 {
                            c.rfail = Some(libc::ECONNRESET);
                            c.reset = Some(libc::ECONNRESET);
                            c.blocked = false;
                            any = true;
                            if let Some((t, _)) = c.token {
                                self.ready.push_back((
                                    t,
                                    (libc::EPOLLIN | libc::EPOLLOUT | libc::EPOLLERR | libc::EPOLLHUP) as u32,
                                ));
                            }
                        }
                    }
                    if any {
                        return;
                    }
                }
                let res = self.finish();
                self.fetch(Some(&res));
            } else {
                self.fetch(None);
            }
            if self.done {
                return;
            }
        }
    }
    fn finish(&mut self) -> ExecResult {
        self.running = false;
        let (peak, live) = crate::mem::since_mark();
        self.res.mem_peak = peak;
        self.res.mem_left = live;
        for c in self.conns.iter_mut() {
            c.res.tls = c.peer.as_mut().map(|p| p.seen());
        }
        self.res.conns = self.conns.iter_mut().map(|c| std::mem::take(&mut c.res)).collect();
        self.res.calls = self.calls;
        self.res.started = self.started;
        self.res.sockets = self
            .fds
            .iter()
            .enumerate()
            .filter_map(|(i, k)| match k {
                K::Sock { port, any, listening: true, bound_reuse, nonblocking, .. } => Some(Listening {
                    port: *port,
                    any: *any,
                    reuse: *bound_reuse,
                    nonblocking: *nonblocking,
                    backlog: self
                        .backlogs
                        .iter()
                        .rev()
                        .find(|b| b.0 == FD_BASE + i as c_int)
                        .map(|b| b.1)
                        .unwrap_or(0),
                }),
                _ => None,
            })
            .collect();
        std::mem::take(&mut self.res)
    }
    /// The next execution from the explorer.
    fn fetch(&mut self, res: Option<&ExecResult>) {
        let np = self.next.expect("driver");
        let nx = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*np)(res) }));
        let nx = match nx {
            Ok(x) => x,
            Err(_) => {
                // never on what the server does today
                let p = self.res.panics.last().cloned().unwrap_or_default();
                crate::supervise::fatal(format!("the oracle could not make sense of what the server did ({})", p))
            }
        };
        match nx {
            None => {
                self.done = true;
                self.conns.clear();
                self.exec = Exec::default();
            }
            Some(e) => {
                self.conns = e
                    .conns
                    .iter()
                    .map(|s| C {
                        script: s.clone(),
                        next_in: 0,
                        avail: VecDeque::new(),
                        eof: false,
                        rfail: None,
                        reset: None,
                        next_out: 0,
                        blocked: false,
                        connected: false,
                        fd: -1,
                        token: None,
                        res: ConnResult::default(),
                        dead: false,
                        peer: s.tls.as_ref().map(|p| crate::tls::peer(p)),
                    })
                    .collect();
                for c in self.conns.iter_mut() {
                    if let Some(p) = &mut c.peer {
                        c.script.input = p.start();
                    }
                }
                if e.now.is_some() {
                    set_now(e.now)
                }
                // far above anything a finite script can need
                self.horizon = 200_000 + e.conns.len() * 200;
                self.exec = e;
                self.backlog.clear();
                self.accept_no = 0;
                self.low.set(0);
                self.file_read_no = 0;
                self.file_op = 0;
                if let (Some(p), Some((_, n))) = (self.live_path(), &self.live) {
                    let _ = std::fs::remove_file(&p);
                    std::fs::write(&p, file_bytes(*n, 1)).expect("scratch");
                }
                self.calls = 0;
                self.running = true;
                self.cleaning = false;
                self.res = ExecResult::default();
                crate::mem::mark();
            }
        }
    }
    /// listen() came back although the driver is not done.
    pub fn ended(&mut self, r: Result<(), String>) {
        if !self.running {
            self.fetch(None);
            if self.done {
                return;
            }
        }
        self.res.returned = Some(r);
        self.cleaning = true;
        let res = self.finish();
        // the next execution starts on a fresh server
        self.pending = Some(res);
    }
    /// Call after the fresh runtime is there.
    pub fn clean(&mut self) {
        self.cleaning = true;
    }
    pub fn restart(&mut self) {
        self.conns.clear();
        self.backlog.clear();
        self.ready.clear();
        self.fds.clear();
        self.free.clear();
        self.started = 0;
        self.backlogs.clear();
        if let Some(res) = self.pending.take() {
            self.fetch(Some(&res));
        }
    }
    /// this thread's own copy of the live file
    fn live_path(&self) -> Option<String> {
        let (d, _) = self.live.as_ref()?;
        Some(format!("{}/live.{}.css", d, unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) }))
    }
    /// Another process gets its turn.
    fn file_step(&mut self) {
        let k = self.file_op;
        self.file_op += 1;
        let evs: Vec<FileEv> = self.exec.file_events.iter().filter(|e| e.0 == k).map(|e| e.1).collect();
        if evs.is_empty() {
            return;
        }
        let p = self.live_path().unwrap();
        self.running = false;
        for e in evs {
            let old = std::fs::read(&p).ok();
            match e {
                FileEv::Append(_) if old.is_none() => {}
                FileEv::Append(n) => {
                    use std::io::Write;
                    let mut f = std::fs::OpenOptions::new().append(true).open(&p).expect("scratch");
                    f.write_all(&file_bytes(n, 3)).expect("scratch");
                }
                FileEv::Replace(n) => {
                    let q = format!("{}.new", p);
                    std::fs::write(&q, file_bytes(n, 5)).expect("scratch");
                    std::fs::rename(&q, &p).expect("scratch");
                }
                FileEv::Delete => {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
        self.running = true;
    }
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.horizon {
            crate::supervise::fatal(format!("livelock: {} system calls without an end in one execution: {}", self.calls, crate::explore::show_exec(&self.exec)));
        }
    }
    pub fn exec(&self) -> &Exec {
        &self.exec
    }
}

// ---------------------------------------------------------------------------------------------
// raw system calls
// ---------------------------------------------------------------------------------------------

#[inline]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn err(e: i32) -> isize {
    set_errno(e);
    -1
}
macro_rules! rawcall {
    ($n:expr $(, $a:expr)*) => {{
        let args = [$($a as usize),*];
        let g = |i: usize| -> usize { if i < args.len() { args[i] } else { 0 } };
        ret(raw($n, g(0), g(1), g(2), g(3), g(4), g(5)))
    }};
}

macro_rules! setup_fault {
    ($s:expr, $name:expr) => {
        if let Some((n, e)) = $s.setup_fault {
            if n == $name {
                return err(e) as c_int;
            }
        }
    };
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if let Some(mut s) = sim() {
        setup_fault!(s, "socket");
        return s.alloc(K::Sock {
            port: 0,
            any: false,
            listening: false,
            token: 0,
            registered: false,
            reuse: false,
            bound_reuse: false,
            nonblocking: t & libc::SOCK_NONBLOCK != 0,
        });
    }
    rawcall!(libc::SYS_socket, d, t, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const libc::sockaddr, l: u32) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        setup_fault!(s, "bind");
        let sin = &*(a as *const libc::sockaddr_in);
        let p = u16::from_be(sin.sin_port);
        let is_any = sin.sin_addr.s_addr == 0;
        let (busy, wait) = (s.busy_ports.contains(&p), s.timewait_ports.contains(&p));
        if let Some(K::Sock { port, reuse, bound_reuse, any, .. }) = s.kind(fd) {
            if busy || wait && !*reuse {
                return err(libc::EADDRINUSE) as c_int;
            }
            *port = p;
            *any = is_any;
            *bound_reuse = *reuse;
        }
        return 0;
    }
    rawcall!(libc::SYS_bind, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        setup_fault!(s, "listen");
        if let Some(K::Sock { listening, .. }) = s.kind(fd) {
            *listening = true;
        }
        s.backlogs.push((fd, n));
        return 0;
    }
    rawcall!(libc::SYS_listen, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: u32) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        setup_fault!(s, "setsockopt");
        if l == libc::SOL_SOCKET && o == libc::SO_REUSEADDR {
            if let Some(K::Sock { reuse, .. }) = s.kind(fd) {
                *reuse = *(v as *const c_int) != 0;
            }
        }
        return 0;
    }
    rawcall!(libc::SYS_setsockopt, fd, l, o, v, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut u32) -> c_int {
    if fd >= FD_BASE {
        std::ptr::write_bytes(v as *mut u8, 0, *n as usize);
        return 0;
    }
    rawcall!(libc::SYS_getsockopt, fd, l, o, v, n) as c_int
}
unsafe fn fill_addr(a: *mut libc::sockaddr, l: *mut u32, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let sin = libc::sockaddr_in {
        sin_family: libc::AF_INET as u16,
        sin_port: port.to_be(),
        sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
        sin_zero: [0; 8],
    };
    std::ptr::copy_nonoverlapping(
        &sin as *const _ as *const u8,
        a as *mut u8,
        (*l as usize).min(std::mem::size_of::<libc::sockaddr_in>()),
    );
    *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if fd >= FD_BASE {
        fill_addr(a, l, 1);
        return 0;
    }
    rawcall!(libc::SYS_getsockname, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if fd >= FD_BASE {
        fill_addr(a, l, 2);
        return 0;
    }
    rawcall!(libc::SYS_getpeername, fd, a, l) as c_int
}
unsafe fn do_accept(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
    crate::sched::point("accept");
    s.tick();
    let port = match s.kind(fd) {
        Some(K::Sock { port, .. }) => *port,
        _ => return err(libc::EBADF) as c_int,
    };
    let Some(pos) = s.backlog.iter().position(|&i| s.conns[i].script.port == port) else {
        return err(libc::EAGAIN) as c_int;
    };
    let n = s.accept_no;
    s.accept_no += 1;
    if let Some(&e) = s.exec.accept_faults.get(n) {
        if e != 0 {
            if e == libc::ECONNABORTED || e == libc::EPROTO {
                let i = s.backlog.remove(pos).unwrap();
                s.conns[i].dead = true;
            }
            return err(e) as c_int;
        }
    }
    let i = s.backlog.remove(pos).unwrap();
    let nfd = s.alloc(K::Conn(i));
    s.conns[i].fd = nfd;
    s.conns[i].res.accepted = true;
    fill_addr(a, l, 1024 + (i % 60000) as u16);
    nfd
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut libc::sockaddr, l: *mut u32, f: c_int) -> c_int {
    if fd >= FD_BASE {
        return do_accept(fd, a, l);
    }
    rawcall!(libc::SYS_accept4, fd, a, l, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if fd >= FD_BASE {
        return do_accept(fd, a, l);
    }
    rawcall!(libc::SYS_accept, fd, a, l) as c_int
}
unsafe fn do_recv(fd: c_int, b: *mut u8, n: usize, peek: bool) -> isize {
    let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
    crate::sched::point("recv");
    s.tick();
    let i = match s.kind(fd) {
        Some(K::Conn(i)) => *i,
        Some(K::Event(v)) => {
            if *v == 0 {
                return err(libc::EAGAIN);
            }
            let x = *v;
            *v = 0;
            std::ptr::copy_nonoverlapping(&x as *const u64 as *const u8, b, 8.min(n));
            return 8;
        }
        _ => return err(libc::EBADF),
    };
    let c = &mut s.conns[i];
    if n == 0 {
        return 0;
    }
    if let Some(e) = c.reset {
        return err(e);
    }
    if let Some(front) = c.avail.front_mut() {
        let k = front.len().min(n);
        std::ptr::copy_nonoverlapping(front.as_ptr(), b, k);
        if !peek {
            if k == front.len() {
                c.avail.pop_front();
            } else {
                front.drain(..k);
            }
            c.res.read += k;
        }
        return k as isize;
    }
    if let Some(e) = c.rfail {
        return err(e);
    }
    if c.eof {
        return 0;
    }
    err(libc::EAGAIN)
}
unsafe fn do_send(fd: c_int, b: *const u8, n: usize) -> isize {
    let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
    crate::sched::point("send");
    s.tick();
    let cleaning = s.cleaning;
    let i = match s.kind(fd) {
        Some(K::Conn(i)) => *i,
        Some(K::Event(v)) => {
            *v += 1;
            #[cfg(feature = "mt")]
            if let Some((e, t)) = s.event {
                if e == fd {
                    s.ready.push_back((t, libc::EPOLLIN as u32));
                    crate::sched::network();
                }
            }
            return n as isize;
        }
        _ => return err(libc::EBADF),
    };
    let c = &mut s.conns[i];
    if let Some(e) = c.reset {
        return err(if e == libc::ECONNRESET && c.res.sends > 0 { libc::EPIPE } else { e });
    }
    let _ = cleaning;
    let ans = c.script.output.get(c.next_out).cloned().unwrap_or(Out::All);
    c.next_out += 1;
    c.res.sends += 1;
    if c.res.early.is_none() {
        c.res.early = Some(c.res.read);
    }
    match ans {
        Out::All => {
            c.deliver(std::slice::from_raw_parts(b, n));
            n as isize
        }
        Out::N(k) => {
            let k = k.min(n);
            c.deliver(std::slice::from_raw_parts(b, k));
            if k == 0 && n > 0 {
                c.blocked = true;
                return err(libc::EAGAIN);
            }
            k as isize
        }
        Out::Stuck => err(libc::EAGAIN),
        Out::Block => {
            c.blocked = true;
            err(libc::EAGAIN)
        }
        Out::Err(e) => {
            c.reset = Some(e);
            err(e)
        }
        Out::Fail(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, f: c_int) -> isize {
    if fd >= FD_BASE {
        return do_recv(fd, b as *mut u8, n, f & libc::MSG_PEEK != 0);
    }
    rawcall!(libc::SYS_recvfrom, fd, b, n, f, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, f: c_int, a: *mut libc::sockaddr, l: *mut u32) -> isize {
    if fd >= FD_BASE {
        return do_recv(fd, b as *mut u8, n, f & libc::MSG_PEEK != 0);
    }
    rawcall!(libc::SYS_recvfrom, fd, b, n, f, a, l)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, f: c_int) -> isize {
    if fd >= FD_BASE {
        return do_send(fd, b as *const u8, n);
    }
    rawcall!(libc::SYS_sendto, fd, b, n, f, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: usize, f: c_int, a: *const libc::sockaddr, l: u32) -> isize {
    if fd >= FD_BASE {
        return do_send(fd, b as *const u8, n);
    }
    rawcall!(libc::SYS_sendto, fd, b, n, f, a, l)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        return do_recv(fd, b as *mut u8, n, false);
    }
    let mut n2 = n;
    if fd > 2 {
        if let Some(mut s) = sim() {
            if s.running && s.live.is_some() {
                s.file_step();
            }
            if s.running && s.file_fds {
                let k = s.file_read_no;
                s.file_read_no += 1;
                if let Some(&m) = s.exec.file_reads.get(k) {
                    if m > 0 {
                        n2 = n2.min(m);
                    }
                }
            }
        }
    }
    rawcall!(libc::SYS_read, fd, b, n2)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        return do_send(fd, b as *const u8, n);
    }
    rawcall!(libc::SYS_write, fd, b, n)
}
unsafe fn iov(v: *const libc::iovec, n: c_int) -> Vec<(*mut u8, usize)> {
    (0..n as usize).map(|i| ((*v.add(i)).iov_base as *mut u8, (*v.add(i)).iov_len)).collect()
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE {
        for (p, l) in iov(v, n) {
            if l > 0 {
                return do_recv(fd, p, l, false);
            }
        }
        return 0;
    }
    rawcall!(libc::SYS_readv, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE {
        let mut all = vec![];
        for (p, l) in iov(v, n) {
            all.extend_from_slice(std::slice::from_raw_parts(p, l));
        }
        return do_send(fd, all.as_ptr(), all.len());
    }
    rawcall!(libc::SYS_writev, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, f: c_int) -> isize {
    if fd >= FD_BASE {
        return writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int);
    }
    rawcall!(libc::SYS_sendmsg, fd, m, f)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if fd >= FD_BASE {
        return 0;
    }
    rawcall!(libc::SYS_shutdown, fd, how) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return 0 };
        let cleaning = s.cleaning;
        let k = s.kind(fd).copied();
        if let Some(K::Conn(i)) = k {
            if let Some(c) = s.conns.get_mut(i) {
                if c.fd == fd {
                    c.dead = true;
                    c.res.closed = !cleaning;
                    c.token = None;
                }
            }
        }
        if let Some(K::Free) | None = k {
            return err(libc::EBADF) as c_int;
        }
        *s.kind(fd).unwrap() = K::Free;
        s.free.push(fd);
        return 0;
    }
    rawcall!(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return 0 };
        return match cmd {
            libc::F_GETFL => {
                libc::O_RDWR
                    | match s.kind(fd) {
                        Some(K::Sock { nonblocking: false, .. }) => 0,
                        _ => libc::O_NONBLOCK,
                    }
            }
            libc::F_SETFL => {
                setup_fault!(s, "fcntl");
                if let Some(K::Sock { nonblocking, .. }) = s.kind(fd) {
                    *nonblocking = arg as c_int & libc::O_NONBLOCK != 0;
                }
                0
            }
            libc::F_GETFD => 1,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let k = *s.kind(fd).unwrap();
                s.alloc(k)
            }
            _ => 0,
        };
    }
    rawcall!(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, cmd: u64, arg: usize) -> c_int {
    if fd >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        if cmd == libc::FIONBIO as u64 {
            setup_fault!(s, "fcntl");
            if let Some(K::Sock { nonblocking, .. }) = s.kind(fd) {
                *nonblocking = *(arg as *const c_int) != 0;
            }
        }
        return 0;
    }
    rawcall!(libc::SYS_ioctl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int {
    if let Some(mut s) = sim() {
        return s.alloc(K::Epoll);
    }
    rawcall!(libc::SYS_epoll_create1, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(i: u32, f: c_int) -> c_int {
    if let Some(mut s) = sim() {
        return s.alloc(K::Event(0));
    }
    rawcall!(libc::SYS_eventfd2, i, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if ep >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        if op == libc::EPOLL_CTL_DEL {
            match s.kind(fd) {
                Some(K::Sock { registered, .. }) => *registered = false,
                Some(K::Conn(i)) => {
                    let i = *i;
                    if let Some(c) = s.conns.get_mut(i) {
                        if c.fd == fd {
                            c.token = None
                        }
                    }
                }
                _ => {}
            }
            return 0;
        }
        let (events, tok) = ((*ev).events, (*ev).u64);
        if let Some(K::Sock { .. }) = s.kind(fd) {
            setup_fault!(s, "epoll_ctl");
        }
        match s.kind(fd) {
            Some(K::Event(_)) => s.event = Some((fd, tok)),
            Some(K::Sock { token, registered, port, .. }) => {
                *token = tok;
                *registered = true;
                let p = *port;
                if s.backlog.iter().any(|&i| s.conns[i].script.port == p) {
                    s.ready.push_back((tok, libc::EPOLLIN as u32));
                }
            }
            Some(K::Conn(i)) => {
                let i = *i;
                let c = &mut s.conns[i];
                c.token = Some((tok, events));
                let mut e = libc::EPOLLOUT as u32;
                if !c.avail.is_empty() || c.eof || c.rfail.is_some() {
                    e |= libc::EPOLLIN as u32;
                }
                s.ready.push_back((tok, e));
            }
            _ => {}
        }
        #[cfg(feature = "mt")]
        if !s.ready.is_empty() && crate::sched::active() {
            crate::sched::network()
        }
        return 0;
    }
    rawcall!(libc::SYS_epoll_ctl, ep, op, fd, ev) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if ep >= FD_BASE {
        let Some(mut s) = sim() else { return err(libc::EBADF) as _ };
        crate::sched::point("epoll_wait");
        s.tick();
        #[cfg(feature = "mt")]
        while s.ready.is_empty() && timeout != 0 && crate::sched::active() {
            crate::sched::on_epoll()
        }
        if s.ready.is_empty() && timeout != 0 {
            if timeout > 0 && (s.cleaning || s.enabled().is_empty()) {
                // only a timer is left: let it expire
                MONO.with(|m| m.set(m.get() + timeout as i64 * 1_000_000));
                return 0;
            }
            s.idle();
        }
        let mut n = 0;
        while n < max as usize {
            let Some((t, e)) = s.ready.pop_front() else { break };
            let slot = &mut *evs.add(n);
            slot.events = e;
            slot.u64 = t;
            n += 1;
        }
        return n as c_int;
    }
    rawcall!(libc::SYS_epoll_wait, ep, evs, max, timeout) as c_int
}
/// If this is the live file, the path of this thread's own.
unsafe fn live_file(path: *const libc::c_char) -> Option<std::ffi::CString> {
    if path.is_null() {
        return None;
    }
    let mut s = sim()?;
    if !s.running || s.live.is_none() || !std::ffi::CStr::from_ptr(path).to_bytes().ends_with(b"/live.css") {
        return None;
    }
    s.file_step();
    let p = s.live_path()?;
    Some(std::ffi::CString::new(p).unwrap())
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let own = live_file(path);
    let p = own.as_ref().map_or(path, |p| p.as_ptr());
    rawcall!(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const libc::c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let own = live_file(path);
    if own.is_none() && dir > 2 && dir < FD_BASE && flags & libc::AT_EMPTY_PATH != 0 {
        if let Some(mut s) = sim() {
            if s.running && s.live.is_some() {
                s.file_step();
            }
        }
    }
    let p = own.as_ref().map_or(path, |p| p.as_ptr());
    rawcall!(libc::SYS_statx, dir, p, flags, mask, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME {
        let v = NOW.with(|n| n.get());
        if v != i64::MIN {
            (*ts).tv_sec = v;
            (*ts).tv_nsec = 0;
            return 0;
        }
    }
    let r = rawcall!(libc::SYS_clock_gettime, id, ts) as c_int;
    if r == 0 && id == libc::CLOCK_MONOTONIC {
        let skip = MONO.with(|m| m.get());
        if skip != 0 {
            let n = (*ts).tv_nsec + skip % 1_000_000_000;
            (*ts).tv_sec += skip / 1_000_000_000 + n / 1_000_000_000;
            (*ts).tv_nsec = n % 1_000_000_000;
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
    let s = SEED.with(|s| s.get());
    if s != 0 {
        let mut x = s;
        for i in 0..n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *(b as *mut u8).add(i) = (x >> 24) as u8;
        }
        return n as isize;
    }
    rawcall!(libc::SYS_getrandom, b, n, f)
}
pub fn stopped() -> bool {
    sim().map(|s| s.done).unwrap_or(false)
}
