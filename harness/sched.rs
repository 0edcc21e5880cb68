// A controlled scheduler for the threads of --patch-back, with stand-ins of std::sync, std::thread and std::process.
//
// Threads of the code under test are real threads, of which exactly one runs at a time. Before every visible operation
// (locking a mutex, waiting on and notifying a condition variable, reading, writing and closing a pipe, joining and
// ending a thread) a thread announces the operation and parks; the next thread is chosen among those whose operation
// is enabled. The command is one more thread that interprets a few shell commands on in-memory pipes.
//
// `explore` enumerates all schedules of a deterministic program up to the commutation of independent operations:
// depth-first search by re-execution with dynamic partial-order reduction (source sets, after Abdulla et al.) and sleep sets.
// Unlocking isn't a visible operation as nothing between a lock and its unlock can be observed by others.

use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::{Arc, Condvar as SCondvar, Mutex as SMutex, MutexGuard as SGuard};

pub type Tid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Start,
    Lock,
    Wait,   // obj: the condition variable, obj2: the mutex
    Relock, // obj: the mutex, obj2: the condition variable
    Notify,
    Read,
    Write,
    Close,
    Join,
    Exit,
    Yield,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    kind: Kind,
    obj: usize,
    obj2: usize,
}

const NONE: usize = usize::MAX;

fn dependent(a: &Op, b: &Op) -> bool {
    [a.obj, a.obj2].iter().any(|x| *x != NONE && (*x == b.obj || *x == b.obj2))
}

/// dependent, and both can be enabled in the same state
fn racing(a: &Op, b: &Op, spurious: bool) -> bool {
    use Kind::*;
    match (a.kind, b.kind) {
        (Lock | Relock, Lock | Relock) => a.obj == b.obj,
        (Wait, Notify) | (Notify, Wait) => a.obj == b.obj,
        (Relock, Notify) => spurious && a.obj2 == b.obj,
        (Notify, Relock) => spurious && a.obj == b.obj2,
        (Read | Write | Close, Read | Write | Close) => a.obj == b.obj,
        _ => false,
    }
}

pub enum Obj {
    Mutex { held: bool },
    Cond { waiters: Vec<Tid> },
    Pipe { data: VecDeque<u8>, readers: usize, writers: usize },
    Thread { finished: bool },
}

struct Thread {
    pending: Option<Op>,
    notified: bool,
    obj: usize,
    clock: Vec<u32>,
    wake: Arc<SCondvar>,
}

struct Node {
    enabled: Vec<(Tid, Op)>,
    chosen: Tid,
    done: Vec<Tid>,
    backtrack: Vec<Tid>,
    sleep: Vec<(Tid, Op)>,
    cost: usize, // delays spent up to here
}

struct Event {
    tid: Tid,
    op: Op,
    seq: u32,
    clock: Vec<u32>, // what happened before, itself included
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Stop {
    Done,
    Redundant, // everything that can run is in the sleep set
    Deadlock,
    Livelock,
}

struct State {
    running: Tid,
    threads: Vec<Thread>,
    objs: Vec<Obj>,
    objclock: Vec<Vec<u32>>,
    events: Vec<Event>,
    stack: Vec<Node>,
    abort: Option<Stop>,
    spurious: usize,
    spurious_ever: bool,
    capacity: usize,
    handles: Vec<std::thread::JoinHandle<()>>,
    delays: Option<usize>, // delay bounding: the threads take turns, and may be passed over so many times altogether
    reduce: bool, // otherwise every enabled thread is tried in every state, and only sleep sets cut
    error: Option<String>,
    script: (String, usize),
    max_depth: usize,
    ticks: u64,
}

static G: SMutex<Option<State>> = SMutex::new(None);

thread_local! {
    static ME: Cell<Tid> = const { Cell::new(NONE) };
}

pub struct Abort;

fn g() -> SGuard<'static, Option<State>> {
    G.lock().unwrap_or_else(|e| e.into_inner())
}

fn me() -> Tid {
    let t = ME.with(|x| x.get());
    if t == NONE {
        eprintln!("uncontrolled: a thread that the scheduler does not know");
        std::process::exit(4);
    }
    t
}

const STEPS: usize = 5000;

impl State {
    fn enabled(&self, t: Tid, op: &Op) -> bool {
        let free = |m: usize| matches!(self.objs[m], Obj::Mutex { held: false });
        match op.kind {
            Kind::Lock => free(op.obj),
            Kind::Relock => free(op.obj) && (self.threads[t].notified || self.spurious > 0),
            Kind::Read => matches!(&self.objs[op.obj], Obj::Pipe { data, writers, .. } if !data.is_empty() || *writers == 0),
            Kind::Write => matches!(&self.objs[op.obj], Obj::Pipe { data, readers, .. } if data.len() < self.capacity || *readers == 0),
            Kind::Join => matches!(self.objs[op.obj], Obj::Thread { finished: true }),
            _ => true,
        }
    }

    fn new_obj(&mut self, o: Obj) -> usize {
        self.objs.push(o);
        self.objclock.push(Vec::new());
        self.objs.len() - 1
    }

    fn new_thread(&mut self, parent: Option<Tid>) -> Tid {
        let obj = self.new_obj(Obj::Thread { finished: false });
        let clock = parent.map_or(Vec::new(), |p| self.threads[p].clock.clone());
        let pending = parent.map(|_| Op { kind: Kind::Start, obj, obj2: NONE });
        self.threads.push(Thread { pending, notified: false, obj, clock, wake: Arc::new(SCondvar::new()) });
        self.threads.len() - 1
    }

    fn knows(&self, t: Tid, e: &Event) -> bool {
        self.threads[t].clock.get(e.tid).map_or(false, |x| *x >= e.seq)
    }

    /// Event i and what p is going to do might happen in the other order: makes sure that the state before event i tries
    /// a thread that can begin such a run, i.e. one of the initials of the events that don't depend on event i, then p's
    fn backtrack(&mut self, i: usize, p: Tid) {
        let e = &self.events[i];
        let after = |x: &Event, of: &Event| x.clock.get(of.tid).map_or(false, |c| *c >= of.seq);
        let v: Vec<&Event> = self.events[i + 1..].iter().filter(|k| !after(k, e)).collect();
        let mut initials = Vec::new();
        for (k, x) in v.iter().enumerate() {
            if !v[..k].iter().any(|y| y.tid == x.tid || after(x, y)) {
                initials.push(x.tid);
            }
        }
        let op = self.threads[p].pending.unwrap();
        if !v.iter().any(|y| y.tid == p || self.knows(p, y) || dependent(&y.op, &op)) {
            initials.push(p);
        }
        let node = &mut self.stack[i];
        initials.retain(|q| node.enabled.iter().any(|x| x.0 == *q));
        if initials.is_empty() {
            for (q, _) in &node.enabled {
                if !node.backtrack.contains(q) {
                    node.backtrack.push(*q);
                }
            }
        } else if !initials.iter().any(|q| node.backtrack.contains(q)) {
            let q = initials.iter().copied().find(|q| !node.sleep.iter().any(|x| x.0 == *q)).unwrap_or(initials[0]);
            node.backtrack.push(q);
        }
    }

    fn announced(&mut self, p: Tid) {
        if !self.reduce {
            return;
        }
        let op = self.threads[p].pending.unwrap();
        for i in (0..self.events.len()).rev() {
            let e = &self.events[i];
            if e.tid != p && racing(&e.op, &op, self.spurious_ever) && !self.knows(p, e) {
                self.backtrack(i, p);
                break;
            }
        }
    }

    /// chooses the thread that takes the next step
    fn pick(&mut self, from: Tid) {
        if self.abort.is_some() {
            return;
        }
        self.ticks += 1;
        let enabled: Vec<(Tid, Op)> = (0..self.threads.len()).filter_map(|t| self.threads[t].pending.filter(|o| self.enabled(t, o)).map(|o| (t, o))).collect();
        let real = enabled.iter().any(|(t, o)| o.kind != Kind::Relock || self.threads[*t].notified);
        if enabled.is_empty() || !real {
            return self.stop(Stop::Deadlock);
        }
        if self.events.len() >= STEPS {
            return self.stop(Stop::Livelock);
        }
        let d = self.events.len();
        if d >= self.stack.len() {
            let mut sleep = Vec::new();
            if let Some(bound) = self.delays {
                let cost = self.stack.last().map_or(0, |n| n.cost + n.backtrack.iter().position(|x| *x == n.chosen).unwrap());
                let n = self.threads.len();
                let mut order: Vec<Tid> = enabled.iter().filter(|x| x.1.kind != Kind::Relock || self.threads[x.0].notified || cost < bound).map(|x| x.0).collect();
                order.sort_by_key(|t| (*t + n - from % n) % n);
                order.truncate(bound - cost + 1);
                let chosen = order[0];
                self.stack.push(Node { enabled: enabled.clone(), chosen, done: Vec::new(), backtrack: order, sleep: Vec::new(), cost });
                self.max_depth = self.max_depth.max(d + 1);
                return self.step(d);
            }
            if d > 0 {
                let parent = &self.stack[d - 1];
                let by = parent.enabled.iter().find(|x| x.0 == parent.chosen).unwrap().1;
                let explored = parent.enabled.iter().filter(|x| parent.done.contains(&x.0));
                for (q, o) in parent.sleep.iter().chain(explored) {
                    if *q != parent.chosen && !dependent(o, &by) && !sleep.iter().any(|x: &(Tid, Op)| x.0 == *q) {
                        sleep.push((*q, *o));
                    }
                }
            }
            let awake = |t: Tid| !sleep.iter().any(|x| x.0 == t);
            let really = |x: &&(Tid, Op)| x.1.kind != Kind::Relock || self.threads[x.0].notified;
            let choice = enabled
                .iter()
                .find(|x| x.0 == from && awake(x.0) && really(x))
                .or_else(|| enabled.iter().find(|x| awake(x.0) && really(x)))
                .or_else(|| enabled.iter().find(|x| awake(x.0)));
            let Some(&(chosen, _)) = choice else {
                return self.stop(Stop::Redundant);
            };
            let backtrack = if self.reduce { vec![chosen] } else { enabled.iter().map(|x| x.0).collect() };
            self.stack.push(Node { enabled: enabled.clone(), chosen, done: Vec::new(), backtrack, sleep, cost: 0 });
            self.max_depth = self.max_depth.max(d + 1);
        } else if self.stack[d].enabled != enabled {
            self.error = Some(format!("the program is not deterministic: at step {d} {:?} instead of {:?}", enabled, self.stack[d].enabled));
            return self.stop(Stop::Done);
        }
        self.step(d);
    }

    /// the chosen thread takes its step
    fn step(&mut self, d: usize) {
        let t = self.stack[d].chosen;
        let op = self.threads[t].pending.take().unwrap();
        self.events.push(Event { tid: t, op, seq: 0, clock: Vec::new() });
        // clocks
        let n = self.threads.len();
        let mut c = std::mem::take(&mut self.threads[t].clock);
        c.resize(n.max(c.len()), 0);
        c[t] += 1;
        self.events[d].seq = c[t];
        let join = |c: &mut Vec<u32>, o: &[u32]| {
            for (i, x) in o.iter().enumerate() {
                if i >= c.len() {
                    c.resize(i + 1, 0);
                }
                c[i] = c[i].max(*x);
            }
        };
        for o in [op.obj, op.obj2] {
            if o != NONE {
                join(&mut c, &self.objclock[o]);
            }
        }
        for o in [op.obj, op.obj2] {
            if o != NONE {
                self.objclock[o] = c.clone();
            }
        }
        self.events[d].clock = c.clone();
        self.threads[t].clock = c;
        if op.kind == Kind::Relock && !self.threads[t].notified {
            self.spurious -= 1;
        }
        // those that are about to do something racing with this step
        if self.reduce {
            for p in 0..n {
                if p != t && self.threads[p].pending.map_or(false, |o| racing(&op, &o, self.spurious_ever)) && !self.knows(p, &self.events[d]) {
                    self.backtrack(d, p);
                }
            }
        }
        self.running = t;
        self.threads[t].wake.notify_one();
    }

    fn stop(&mut self, s: Stop) {
        self.abort = Some(s);
        for t in &self.threads {
            t.wake.notify_all();
        }
    }
}

/// announces the operation, waits until it's this thread's turn, and has `f` take effect. None if the run is over
fn visible<T>(kind: Kind, obj: usize, obj2: usize, f: impl FnOnce(&mut State, Tid) -> T) -> Option<T> {
    let t = me();
    let mut s = g();
    {
        let st = s.as_mut().unwrap();
        if st.abort.is_none() {
            st.threads[t].pending = Some(Op { kind, obj, obj2 });
            st.announced(t);
            st.pick(t);
        }
    }
    s = turn(s, t)?;
    Some(f(s.as_mut().unwrap(), t))
}

fn turn(mut s: SGuard<'static, Option<State>>, t: Tid) -> Option<SGuard<'static, Option<State>>> {
    let wake = Arc::clone(&s.as_ref().unwrap().threads[t].wake);
    loop {
        let st = s.as_ref().unwrap();
        if st.abort.is_some() {
            drop(s);
            if std::thread::panicking() {
                return None;
            }
            std::panic::resume_unwind(Box::new(Abort));
        }
        if st.running == t && st.threads[t].pending.is_none() {
            return Some(s);
        }
        s = wake.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    me();
    f(g().as_mut().unwrap())
}

// ---------------------------------------------------------------- std::sync

pub mod sync {
    use super::*;
    pub use std::sync::*;

    pub struct Mutex<T: ?Sized> {
        id: usize,
        inner: SMutex<T>,
    }

    pub struct MutexGuard<'a, T: ?Sized> {
        lock: &'a Mutex<T>,
        inner: Option<SGuard<'a, T>>,
    }

    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex { id: with(|s| s.new_obj(Obj::Mutex { held: false })), inner: SMutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }

    impl<T: ?Sized> Mutex<T> {
        fn take(&self) -> LockResult<MutexGuard<'_, T>> {
            match self.inner.lock() {
                Ok(x) => Ok(MutexGuard { lock: self, inner: Some(x) }),
                Err(e) => Err(PoisonError::new(MutexGuard { lock: self, inner: Some(e.into_inner()) })),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            visible(Kind::Lock, self.id, NONE, |s, _| s.objs[self.id] = Obj::Mutex { held: true });
            self.take()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
    }

    impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().unwrap()
        }
    }

    impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner.as_mut().unwrap()
        }
    }

    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if self.inner.take().is_some() {
                with(|s| s.objs[self.lock.id] = Obj::Mutex { held: false });
            }
        }
    }

    pub struct Condvar {
        id: usize,
    }

    impl Condvar {
        pub fn new() -> Self {
            Condvar { id: with(|s| s.new_obj(Obj::Cond { waiters: Vec::new() })) }
        }

        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let lock = guard.lock;
            visible(Kind::Wait, self.id, lock.id, |s, t| {
                s.threads[t].notified = false;
                if let Obj::Cond { waiters } = &mut s.objs[self.id] {
                    waiters.push(t);
                }
                s.objs[lock.id] = Obj::Mutex { held: false };
            });
            guard.inner.take();
            drop(guard);
            visible(Kind::Relock, lock.id, self.id, |s, t| {
                if let Obj::Cond { waiters } = &mut s.objs[self.id] {
                    waiters.retain(|x| *x != t);
                }
                s.objs[lock.id] = Obj::Mutex { held: true };
            });
            lock.take()
        }

        pub fn wait_while<'a, T>(&self, guard: MutexGuard<'a, T>, mut f: impl FnMut(&mut T) -> bool) -> LockResult<MutexGuard<'a, T>> {
            let mut guard = guard;
            while f(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }

        pub fn notify_all(&self) {
            visible(Kind::Notify, self.id, NONE, |s, _| {
                if let Obj::Cond { waiters } = &mut s.objs[self.id] {
                    for t in std::mem::take(waiters) {
                        s.threads[t].notified = true;
                    }
                }
            });
        }

        pub fn notify_one(&self) {
            visible(Kind::Notify, self.id, NONE, |s, _| {
                if let Obj::Cond { waiters } = &mut s.objs[self.id] {
                    if !waiters.is_empty() {
                        let t = waiters.remove(0);
                        s.threads[t].notified = true;
                    }
                }
            });
        }
    }
}

// ---------------------------------------------------------------- std::thread

fn start<F: FnOnce() + Send + 'static>(f: F) -> (Tid, usize) {
    let parent = me();
    let mut s = g();
    let st = s.as_mut().unwrap();
    let t = st.new_thread(Some(parent));
    let obj = st.threads[t].obj;
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            ME.with(|x| x.set(t));
            let begin = std::panic::catch_unwind(|| drop(turn(g(), t)));
            if begin.is_err() {
                return;
            }
            f();
            let _ = std::panic::catch_unwind(|| {
                visible(Kind::Exit, obj, NONE, |s, t| {
                    s.objs[obj] = Obj::Thread { finished: true };
                    s.pick(t);
                });
            });
        })
        .unwrap();
    st.handles.push(h);
    (t, obj)
}

pub mod thread {
    use super::*;
    pub use std::thread::*;

    pub struct JoinHandle<T> {
        obj: usize,
        result: Arc<SMutex<Option<Result<T>>>>,
    }

    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            visible(Kind::Join, self.obj, NONE, |_, _| ());
            let r = self.result.lock().unwrap().take();
            r.unwrap_or_else(|| Err(Box::new(Abort)))
        }
        pub fn is_finished(&self) -> bool {
            visible(Kind::Yield, self.obj, NONE, |s, _| matches!(s.objs[self.obj], Obj::Thread { finished: true })).unwrap_or(true)
        }
    }

    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        let result = Arc::new(SMutex::new(None));
        let r = Arc::clone(&result);
        let (_, obj) = start(move || {
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            *r.lock().unwrap() = Some(x);
        });
        JoinHandle { obj, result }
    }

    pub fn sleep(_: std::time::Duration) {
        visible(Kind::Yield, NONE, NONE, |_, _| ());
    }

    pub fn yield_now() {
        visible(Kind::Yield, NONE, NONE, |_, _| ());
    }
}

// ---------------------------------------------------------------- std::process

fn pipe_read(id: usize, buf: &mut [u8]) -> usize {
    let r = visible(Kind::Read, id, NONE, |s, _| {
        let Obj::Pipe { data, .. } = &mut s.objs[id] else { unreachable!() };
        let n = buf.len().min(data.len());
        for (x, y) in buf.iter_mut().zip(data.drain(..n)) {
            *x = y;
        }
        n
    });
    r.unwrap_or(0)
}

fn pipe_write(id: usize, buf: &[u8]) -> std::io::Result<usize> {
    let mut done = 0;
    while done < buf.len() {
        let n = visible(Kind::Write, id, NONE, |s, _| {
            let cap = s.capacity;
            let Obj::Pipe { data, readers, .. } = &mut s.objs[id] else { unreachable!() };
            if *readers == 0 {
                return 0;
            }
            let n = (buf.len() - done).min(cap - data.len());
            data.extend(&buf[done..done + n]);
            n
        });
        match n {
            Some(0) | None if done > 0 => break,
            Some(0) | None => return Err(std::io::ErrorKind::BrokenPipe.into()),
            Some(n) => done += n,
        }
    }
    Ok(done)
}

fn pipe_close(id: usize, reader: bool) {
    visible(Kind::Close, id, NONE, |s, _| {
        let Obj::Pipe { readers, writers, .. } = &mut s.objs[id] else { unreachable!() };
        *(if reader { readers } else { writers }) -= 1;
    });
}

pub mod process {
    use super::*;
    pub use std::process::{ExitStatus, Output, Stdio};
    use std::io;

    pub struct ChildStdin(usize);
    pub struct ChildStdout(usize);
    pub struct ChildStderr;

    pub struct Child {
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub stderr: Option<ChildStderr>,
        obj: usize,
    }

    impl io::Write for &ChildStdin {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            pipe_write(self.0, buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    impl io::Write for ChildStdin {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            pipe_write(self.0, buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    impl io::Read for ChildStdout {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            Ok(pipe_read(self.0, buf))
        }
    }

    impl Drop for ChildStdin {
        fn drop(&mut self) {
            pipe_close(self.0, false);
        }
    }

    impl Drop for ChildStdout {
        fn drop(&mut self) {
            pipe_close(self.0, true);
        }
    }

    pub struct Command {
        program: String,
        args: Vec<String>,
    }

    impl Command {
        pub fn new<S: AsRef<std::ffi::OsStr>>(program: S) -> Self {
            Command { program: program.as_ref().to_string_lossy().into(), args: Vec::new() }
        }
        pub fn arg<S: AsRef<std::ffi::OsStr>>(&mut self, a: S) -> &mut Self {
            self.args.push(a.as_ref().to_string_lossy().into());
            self
        }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<std::ffi::OsStr>>(&mut self, a: I) -> &mut Self {
            a.into_iter().for_each(|x| {
                self.arg(x);
            });
            self
        }
        pub fn stdin<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
            self
        }
        pub fn stdout<T: Into<Stdio>>(&mut self, _: T) -> &mut Self {
            self
        }
        pub fn spawn(&mut self) -> io::Result<Child> {
            let text = match self.args.as_slice() {
                [c, text] if c == "-c" && self.program.ends_with("sh") => text.clone(),
                _ => return Err(io::ErrorKind::NotFound.into()),
            };
            let (inp, out) = with(|s| {
                let mut p = || s.new_obj(Obj::Pipe { data: VecDeque::new(), readers: 1, writers: 1 });
                (p(), p())
            });
            let chunk = with(|s| s.script.1);
            let (_, obj) = start(move || {
                let _ = std::panic::catch_unwind(|| shell(&text, inp, out, chunk));
            });
            Ok(Child { stdin: Some(ChildStdin(inp)), stdout: Some(ChildStdout(out)), stderr: None, obj })
        }
    }

    impl Child {
        pub fn wait(&mut self) -> io::Result<ExitStatus> {
            self.stdin.take();
            visible(Kind::Join, self.obj, NONE, |_, _| ());
            Ok(std::os::unix::process::ExitStatusExt::from_raw(0))
        }
        pub fn kill(&mut self) -> io::Result<()> {
            Ok(())
        }
        pub fn id(&self) -> u32 {
            1
        }
    }
}

/// the commands in spec::Cmd that consist of cat, printf and redirections
fn shell(text: &str, inp: usize, out: usize, chunk: usize) {
    let (mut input, mut output) = (true, true);
    let read = |buf: &mut Vec<u8>| {
        buf.resize(chunk, 0);
        let n = pipe_read(inp, buf);
        buf.truncate(n);
        n > 0
    };
    let mut buf = Vec::new();
    let mut all = Vec::new();
    if text.starts_with("x=\"$(cat)\"") {
        while read(&mut buf) {
            all.extend_from_slice(&buf);
        }
        let _ = pipe_write(out, &all);
    } else {
        for c in text.split("; ") {
            if c == "cat" {
                while read(&mut buf) {
                    if pipe_write(out, &buf).is_err() {
                        break;
                    }
                }
            } else if c == "cat > /dev/null" {
                while read(&mut buf) {}
            } else if let Some(f) = c.strip_prefix("cat > ") {
                while read(&mut buf) {
                    all.extend_from_slice(&buf);
                }
                std::fs::write(f, &all).unwrap();
            } else if let Some(s) = c.strip_prefix("printf '") {
                let s = s.strip_suffix('\'').unwrap().replace("\\n", "\n");
                let _ = pipe_write(out, s.as_bytes());
            } else if c == "exec < /dev/null" {
                pipe_close(inp, true);
                input = false;
            } else if c == "exec > /dev/null" {
                pipe_close(out, false);
                output = false;
            } else if c == "head -n 1" {
                // takes one chunk at least, and leaves the rest
                while !all.contains(&b'\n') && read(&mut buf) {
                    all.extend_from_slice(&buf);
                }
                let n = all.iter().position(|x| *x == b'\n').map_or(all.len(), |x| x + 1);
                let _ = pipe_write(out, &all[..n]);
            } else if c != "true" {
                panic!("no such command: {c}");
            }
        }
    }
    if input {
        pipe_close(inp, true);
    }
    if output {
        pipe_close(out, false);
    }
}

// ---------------------------------------------------------------- exploration

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub redundant: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub classes: Option<std::collections::HashSet<u64>>, // of the schedules of one case, equal up to commutation
}

pub struct Setup {
    pub capacity: usize, // of the pipes
    pub chunk: usize,    // how much the command reads at once
    pub spurious: usize, // wakeups out of nothing
    pub delays: Option<usize>,
    pub reduce: bool,
    pub limit: u64, // of schedules
}

pub enum End<T> {
    Value(T),
    Deadlock,
    Livelock,
}

fn watchdog() {
    // the scheduler is bypassed if nothing happens for long while it isn't over
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| {
            let mut last = (0, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = g().as_ref().map_or(0, |s| s.ticks);
                last = if now != 0 && now == last.0 { (now, last.1 + 1) } else { (now, 0) };
                if last.1 > 40 {
                    eprintln!("uncontrolled: a thread blocks out of the scheduler's sight");
                    std::process::exit(4);
                }
            }
        });
    });
}

/// runs `f` under every schedule; `each` gets the outcomes with the schedule, and stops the exploration by returning false.
/// Returns whether the exploration was complete
pub fn explore<T>(setup: &Setup, stats: &mut Stats, f: &mut dyn FnMut() -> T, each: &mut dyn FnMut(End<T>, &dyn Fn() -> String) -> bool) -> bool {
    watchdog();
    static TICKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    let mut stack: Vec<Node> = Vec::new();
    let mut runs = 0;
    loop {
        let mut s = State {
            running: 0,
            threads: Vec::new(),
            objs: Vec::new(),
            objclock: Vec::new(),
            events: Vec::new(),
            stack: std::mem::take(&mut stack),
            abort: None,
            spurious: setup.spurious,
            spurious_ever: setup.spurious > 0,
            capacity: setup.capacity,
            handles: Vec::new(),
            delays: setup.delays,
            reduce: setup.reduce && setup.delays.is_none(),
            error: None,
            script: (String::new(), setup.chunk),
            max_depth: 0,
            ticks: TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) << 20,
        };
        s.new_thread(None);
        *g() = Some(s);
        ME.with(|x| x.set(0));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f));
        let handles = {
            let mut s = g();
            let st = s.as_mut().unwrap();
            if st.abort.is_none() {
                st.stop(Stop::Done);
            }
            std::mem::take(&mut st.handles)
        };
        for h in handles {
            let _ = h.join();
        }
        ME.with(|x| x.set(NONE));
        let mut st = g().take().unwrap();
        if let Some(e) = st.error {
            eprintln!("{e}");
            std::process::exit(3);
        }
        runs += 1;
        stats.steps += st.events.len() as u64;
        stats.max_depth = stats.max_depth.max(st.max_depth);
        let stop = st.abort.clone().unwrap();
        let events = std::mem::take(&mut st.events);
        if let (Some(c), Stop::Done) = (&mut stats.classes, &stop) {
            use std::hash::{Hash, Hasher};
            let mut per: std::collections::BTreeMap<usize, Vec<String>> = Default::default();
            for e in &events {
                for o in [e.op.obj, e.op.obj2] {
                    // (two notifications before a wakeup do as well as one)
                    if o != NONE && (o == e.op.obj || e.op.kind != Kind::Relock || setup.spurious > 0) {
                        per.entry(o).or_default().push(format!("{}{:?}", e.tid, e.op.kind));
                    }
                }
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            per.hash(&mut h);
            if c.insert(h.finish()) && std::env::var_os("NDV_DUMP").is_some() {
                eprintln!("{per:?}");
            }
        }
        let text = || {
            let name = |t: Tid| format!("t{t}");
            events.iter().map(|e| format!("{}:{:?}({})", name(e.tid), e.op.kind, e.op.obj)).collect::<Vec<_>>().join(" ")
        };
        let go_on = match (stop, r) {
            (Stop::Redundant, _) => {
                stats.redundant += 1;
                true
            }
            (Stop::Deadlock, _) => each(End::Deadlock, &text),
            (Stop::Livelock, _) => each(End::Livelock, &text),
            (Stop::Done, Ok(x)) => each(End::Value(x), &text),
            (Stop::Done, Err(e)) => std::panic::resume_unwind(e),
        };
        stats.schedules += 1;
        if !go_on {
            return false;
        }
        // the deepest state where another thread is to be tried
        stack = st.stack;
        stack.truncate(events.len().max(1));
        loop {
            let Some(n) = stack.last_mut() else { return true };
            if !n.done.contains(&n.chosen) {
                n.done.push(n.chosen);
            }
            let next = n.backtrack.iter().copied().find(|t| !n.done.contains(t) && !n.sleep.iter().any(|x| x.0 == *t));
            match next {
                Some(t) => {
                    n.chosen = t;
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
        if runs >= setup.limit {
            return false;
        }
    }
}
