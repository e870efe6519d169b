//! Controlled scheduling of the server's threads (variant "mt").
//!
//! Every thread of the process is registered when it is created and only one of them runs at a
//! time.  The running thread can lose the processor at every scheduling point: every basic block
//! and every access to a global of the server's own crates (they are compiled with callbacks),
//! every system call on the simulated network, every wait and wake-up of a lock, condition or park
//! operation (the futex system call is simulated).  Which thread goes on at a point is decided by a
//! plan: a list of (point, thread); everywhere else the running thread goes on until it blocks.
#[cfg(not(feature = "mt"))]
pub fn point(_: &str) {}
#[cfg(feature = "mt")]
pub use mt::*;

#[cfg(feature = "mt")]
mod mt {
    use crate::sim;
    use std::cell::Cell;
    use std::os::raw::{c_int, c_long, c_void};
    use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum T {
        Free,
        Run,
        Epoll,
        Futex(usize),
        Done,
    }
    pub const MAX: usize = 8;
    /// points recorded at most
    pub const POINTS: usize = 1 << 20;
    /// a thread that goes on for this many points has to let the others run
    const FAIR: usize = 100_000;

    pub const GUARDS: usize = 1 << 15;

    pub struct S {
        th: [T; MAX],
        n: usize,
        cur: usize,
        pub step: usize,
        alone: usize,
        all: usize,
        plan: Vec<(usize, usize)>,
        pi: usize,
        /// per point: the threads that could run (low byte), the one that ran before it (high)
        rec: *mut u16,
        pub diverged: bool,
        /// how often a basic block is a point between two system calls of its thread
        fine: usize,
        /// the same for blocks and words of globals that change
        marked: usize,
        interval: [u32; MAX],
        /// per thread and block: the interval it ran in last, and how often
        count: *mut (u32, u32),
        /// blocks that are points in any case: those that change globals
        marks: *mut u8,
        /// the steps at which they were first and last found
        when: *mut (u32, u32),
        /// a copy of the globals while these blocks are searched for
        copy: *mut u8,
        last: usize,
        /// the clients have begun
        live: bool,
    }
    static mut STATE: S = S {
        th: [T::Free; MAX],
        n: 0,
        cur: 0,
        step: 0,
        alone: 0,
        all: 0,
        plan: vec![],
        pi: 0,
        rec: std::ptr::null_mut(),
        diverged: false,
        fine: 0,
        marked: 0,
        interval: [1; MAX],
        count: std::ptr::null_mut(),
        marks: std::ptr::null_mut(),
        when: std::ptr::null_mut(),
        copy: std::ptr::null_mut(),
        last: 0,
        live: false,
    };
    static ON: AtomicBool = AtomicBool::new(false);
    static SEM: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
    thread_local! {
        static ID: Cell<usize> = const { Cell::new(usize::MAX) };
    }
    #[allow(static_mut_refs)]
    fn st() -> &'static mut S {
        unsafe { &mut STATE }
    }
    fn managed() -> bool {
        ON.load(Relaxed) && ID.with(|i| i.get()) != usize::MAX
    }
    fn wait(t: usize) {
        while SEM[t].swap(0, Acquire) == 0 {
            unsafe { sim::raw(libc::SYS_futex, SEM[t].as_ptr() as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0) };
        }
    }
    fn wake(t: usize) {
        SEM[t].store(1, Release);
        unsafe { sim::raw(libc::SYS_futex, SEM[t].as_ptr() as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0) };
    }
    /// From now on this thread and the ones it creates are under control.
    pub fn start(plan: Vec<(usize, usize)>, rec: *mut u16, (fine, marked): (usize, usize), marks: *mut u8, when: Option<*mut (u32, u32)>) {
        let s = st();
        // outside the globals
        let map = |n: usize| unsafe { libc::mmap(std::ptr::null_mut(), n, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) };
        s.count = map(GUARDS * MAX * 8) as *mut (u32, u32);
        s.marks = marks;
        if let Some(when) = when {
            s.when = when;
            let (a, n) = globals();
            s.copy = map(n) as *mut u8;
            unsafe { std::ptr::copy_nonoverlapping(a, s.copy, n) };
        }
        s.th = [T::Free; MAX];
        s.th[0] = T::Run;
        s.n = 1;
        s.cur = 0;
        s.step = 0;
        s.plan = plan;
        s.pi = 0;
        s.rec = rec;
        s.fine = fine;
        s.marked = marked;
        ID.with(|i| i.set(0));
        ON.store(true, Release);
    }
    pub fn stop() {
        ON.store(false, Release);
    }
    pub fn steps() -> (usize, bool) {
        (st().step, st().diverged || st().pi < st().plan.len())
    }
    fn mask(s: &S) -> u16 {
        (0..s.n).filter(|t| s.th[*t] == T::Run).map(|t| 1 << t).sum()
    }
    /// The running thread is at a point (or has just blocked).
    fn go(yielding: bool) {
        let s = st();
        let me = s.cur;
        let mut m = mask(s);
        while m == 0 {
            // nothing can run: the environment acts (or the execution ends here)
            s.live = sim::mt_idle();
            m = mask(s);
        }
        let next = |m: u16| (1..=s.n).map(|k| (me + k) % s.n).find(|t| m & 1 << t != 0).unwrap();
        let mut to = if m & 1 << me != 0 && !yielding { me } else { next(m) };
        s.alone += 1;
        if s.alone > FAIR {
            to = next(m)
        }
        if let Some(p) = s.plan.get(s.pi) {
            if s.live && p.0 == s.step {
                s.pi += 1;
                if m & 1 << p.1 != 0 {
                    to = p.1
                } else {
                    s.diverged = true
                }
            }
        }
        s.all += 1;
        if s.all > 20 * POINTS {
            crate::supervise::fatal("the threads go on for ever".into())
        }
        if s.live && s.step < POINTS {
            unsafe { *s.rec.add(s.step) = m | (to as u16) << 8 };
            s.step += 1;
        }
        if to != me {
            s.alone = 0;
            s.cur = to;
            wake(to);
            wait(me);
        }
    }
    pub fn point(_: &str) {
        if managed() {
            go(false);
            let s = st();
            s.interval[s.cur] += 1;
        }
    }
    pub fn on_epoll() {
        let s = st();
        let me = s.cur;
        s.th[me] = T::Epoll;
        go(false)
    }
    pub fn active() -> bool {
        managed()
    }
    /// Something is ready on the simulated network.
    pub fn network() {
        let s = st();
        for t in 0..s.n {
            if s.th[t] == T::Epoll {
                s.th[t] = T::Run
            }
        }
    }
    fn futex_wake(addr: usize, n: usize) -> usize {
        let s = st();
        let mut k = 0;
        for t in 0..s.n {
            if k < n && s.th[t] == T::Futex(addr) {
                s.th[t] = T::Run;
                k += 1;
            }
        }
        k
    }

    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
        if n == libc::SYS_futex && managed() {
            match b as c_int & 0x7f {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    go(false);
                    if *(a as *const u32) != c as u32 {
                        *libc::__errno_location() = libc::EAGAIN;
                        return -1;
                    }
                    let s = st();
                    let me = s.cur;
                    s.th[me] = T::Futex(a);
                    go(false);
                    return 0;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let k = futex_wake(a, c);
                    go(false);
                    return k as c_long;
                }
                _ => {}
            }
        }
        let r = sim::raw(n, a, b, c, d, e, f);
        if (-4095..0).contains(&r) {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        r as c_long
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> c_int {
        if managed() {
            go(true)
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(_: c_int, _: c_int, _: *const c_void, _: *mut c_void) -> c_int {
        if managed() {
            go(true)
        }
        0
    }

    struct Start {
        id: usize,
        f: extern "C" fn(*mut c_void) -> *mut c_void,
        arg: *mut c_void,
        local: sim::Local,
    }
    extern "C" fn begin(p: *mut c_void) -> *mut c_void {
        let s = unsafe { Box::from_raw(p as *mut Start) };
        ID.with(|i| i.set(s.id));
        wait(s.id);
        s.local.set(s.id);
        let r = (s.f)(s.arg);
        // its turn ends here; what is left of it touches nothing of the server's
        let x = st();
        x.th[s.id] = T::Done;
        ID.with(|i| i.set(usize::MAX));
        let mut m = mask(x);
        while m == 0 {
            x.live = sim::mt_idle();
            m = mask(x);
        }
        let to = (0..x.n).find(|t| m & 1 << t != 0).unwrap();
        x.cur = to;
        wake(to);
        r
    }
    type Create = unsafe extern "C" fn(*mut c_void, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    #[no_mangle]
    pub unsafe extern "C" fn pthread_create(
        t: *mut c_void,
        attr: *const c_void,
        f: extern "C" fn(*mut c_void) -> *mut c_void,
        arg: *mut c_void,
    ) -> c_int {
        let real = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let real: Create = std::mem::transmute(real);
        if !managed() {
            return real(t, attr, f, arg);
        }
        let s = st();
        if s.n == MAX {
            return libc::EAGAIN;
        }
        let id = s.n;
        s.n += 1;
        s.th[id] = T::Run;
        let p = Box::into_raw(Box::new(Start { id, f, arg, local: sim::Local::get() }));
        let r = real(t, attr, begin, p as *mut c_void);
        assert!(r == 0, "pthread_create failed");
        go(false);
        r
    }

    // the callbacks of the instrumented crates
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    fn globals() -> (*const u8, usize) {
        let a = &raw const __data_start;
        (a, &raw const _end as usize - a as usize)
    }
    /// For trying things out: the words of the globals that change.
    pub fn show(marks: &[u8]) {
        for k in (0..GUARDS).filter(|k| marks[GUARDS + k] != 0) {
            eprintln!("changes ({}): {:x} (+ n * {:x})", marks[GUARDS + k], globals().0 as usize + 8 * k - sim_base(), 8 * GUARDS);
        }
        eprintln!("blocks: {}", marks[..GUARDS].iter().filter(|m| **m != 0).count());
    }
    fn sim_base() -> usize {
        extern "C" {
            static __executable_start: u8;
        }
        &raw const __executable_start as usize
    }
    unsafe fn note(s: &mut S, k: usize) {
        let w = &mut *s.when.add(k);
        if w.0 == 0 {
            w.0 = s.step as u32 + 1
        }
        w.1 = s.step as u32 + 1;
    }
    /// Of the blocks and words that changed or were next to a change: 1 if that was once (something
    /// is initialised), 2 if it happens again and again.
    pub fn judge_marks(when: &[(u32, u32)], marks: &mut [u8], steps: usize) {
        for (w, m) in when.iter().zip(marks) {
            *m = if w.0 == 0 {
                0
            } else if (w.1 - w.0) as usize > steps / 4 {
                2
            } else {
                1
            }
        }
    }
    /// Marks the blocks around a change of a global.
    unsafe fn probe(g: usize) {
        let s = st();
        let (a, n) = globals();
        let own = [
            (&raw const STATE as usize, std::mem::size_of::<S>()),
            (SEM.as_ptr() as usize, std::mem::size_of_val(&SEM)),
        ];
        let mut changed = false;
        for k in (0..n & !7).step_by(8) {
            let (x, y) = ((a.add(k) as *const u64).read_unaligned(), s.copy.add(k) as *mut u64);
            if x != y.read_unaligned() {
                y.write_unaligned(x);
                let at = a as usize + k;
                if s.live && !own.iter().any(|o| at + 8 > o.0 && at < o.0 + o.1) {
                    changed = true;
                    note(s, GUARDS + k / 8 % GUARDS);
                }
            }
        }
        if changed {
            note(s, s.last);
            note(s, g);
        }
        s.last = g;
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        if !managed() {
            return;
        }
        let g = *g as usize % (GUARDS / 2);
        if !st().copy.is_null() {
            probe(g)
        }
        let k = often_of(*st().marks.add(g));
        if k > 0 {
            often(g, k)
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
        static mut N: u32 = 0;
        while a < b {
            N += 1;
            *a = N;
            a = a.add(1)
        }
    }
    fn often_of(mark: u8) -> usize {
        let s = st();
        match mark {
            0 => s.fine,
            1 => s.marked.max(s.fine),
            _ => s.marked.max(s.fine).max(4),
        }
    }
    /// A point at the first `max` occurrences of k between two system calls of the thread.
    unsafe fn often(k: usize, max: usize) {
        let s = st();
        let seen = &mut *s.count.add(s.cur * GUARDS + k % GUARDS);
        if seen.0 != s.interval[s.cur] {
            *seen = (s.interval[s.cur], 0);
        }
        if (seen.1 as usize) < max {
            seen.1 += 1;
            go(false)
        }
    }
    /// An access to a global that changes is a point.
    unsafe fn access(a: usize) {
        let d = &raw const __data_start as usize;
        if a >= d && a < &raw const _end as usize && managed() {
            let m = *st().marks.add(GUARDS + (a - d) / 8 % GUARDS);
            if m != 0 {
                often(GUARDS / 2 + (a - d) / 8 % (GUARDS / 2), often_of(m))
            }
        }
    }
    macro_rules! accesses {
        ($($n:ident)*) => {$(
            #[no_mangle]
            pub unsafe extern "C" fn $n(a: usize) {
                access(a)
            }
        )*};
    }
    accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
}
