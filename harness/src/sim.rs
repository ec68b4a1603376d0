//! Deterministic world for the client: in-memory transport, single-threaded
//! executor, virtual clock, and an independent websocket peer.
use crate::gen::Pick;
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::{waker, ArcWake, FutureObj, Spawn, SpawnError};
use sha1::{Digest, Sha1};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub use futures_timer::control as clock;

// ---------------------------------------------------------------- transport

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Eof,
    Error,
}

#[derive(Default)]
struct PipeState {
    inbox: VecDeque<u8>,
    end: Option<End>,
    read_plan: Vec<u16>,
    rp: usize,
    read_waker: Option<Waker>,
    outbox: Vec<u8>,
    write_plan: Vec<u16>,
    wp: usize,
    blocked: bool,
    write_error: bool,
    write_waker: Option<Waker>,
    dropped: bool,
    reads: u64,
    /// Messages that are there whenever the client reads on.
    flood: VecDeque<Vec<u8>>,
    flood_used: usize,
    /// Remember what was written when so many were read.
    mark_at: usize,
    mark: Option<usize>,
    /// Reads and writes that moved something, and wake-ups of the plans.
    moves: u64,
    /// Fed, but not there yet.
    later: Vec<u8>,
    /// How much was fed, and where in it each feed ended.
    fed: usize,
    ends: Vec<usize>,
}

/// The two ends share this; the client side owns a `Stream`.
pub struct Pipe(Mutex<PipeState>);

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn usable(plan: &[u16]) -> Vec<u16> {
    if plan.iter().all(|n| *n == 0) {
        vec![]
    } else {
        plan.to_vec()
    }
}

impl Pipe {
    pub fn new(read_plan: &[u16], write_plan: &[u16]) -> Arc<Pipe> {
        Arc::new(Pipe(Mutex::new(PipeState { read_plan: usable(read_plan), write_plan: usable(write_plan), ..Default::default() })))
    }
    pub fn stream(self: &Arc<Self>) -> Stream {
        Stream(self.clone())
    }
    pub fn feed(&self, b: &[u8]) {
        let w = {
            let mut s = lock(&self.0);
            s.inbox.extend(b);
            s.fed += b.len();
            let at = s.fed;
            s.ends.push(at);
            s.read_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// Keeps back a tail of what was fed and not read; `cut` says where: after
    /// one of the feeds, or anywhere.
    pub fn keep_back(&self, cut: u8) -> bool {
        let mut s = lock(&self.0);
        let (unread, gone) = (s.inbox.len(), s.fed - s.inbox.len());
        if unread < 2 {
            return false;
        }
        let ends: Vec<usize> = s.ends.iter().filter(|e| **e > gone && **e < s.fed).map(|e| e - gone).collect();
        let at = if cut % 4 != 0 && !ends.is_empty() { ends[(cut / 4) as usize % ends.len()] } else { 1 + (cut / 4) as usize * 31 % (unread - 1) };
        let tail: Vec<u8> = s.inbox.drain(at..).collect();
        s.later = tail;
        true
    }
    /// What was kept back arrives.
    pub fn catch_up(&self) {
        let w = {
            let mut s = lock(&self.0);
            let tail = std::mem::take(&mut s.later);
            s.inbox.extend(tail);
            s.read_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn end(&self, e: End) {
        let w = {
            let mut s = lock(&self.0);
            s.end = Some(e);
            s.read_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn block(&self, b: bool) {
        let w = {
            let mut s = lock(&self.0);
            s.blocked = b;
            s.write_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn fail_writes(&self) {
        let w = {
            let mut s = lock(&self.0);
            s.write_error = true;
            s.write_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn dropped(&self) -> bool {
        lock(&self.0).dropped
    }
    pub fn moves(&self) -> u64 {
        lock(&self.0).moves
    }
    pub fn unread(&self) -> usize {
        lock(&self.0).inbox.len()
    }
    /// More messages whenever the client asks for some, without a pause.
    pub fn flood(&self, messages: VecDeque<Vec<u8>>, mark_at: usize) {
        let w = {
            let mut s = lock(&self.0);
            s.flood = messages;
            s.flood_used = 0;
            s.mark_at = mark_at;
            s.mark = None;
            s.read_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// (messages read, bytes written when the marked one was)
    pub fn flooded(&self) -> (usize, Option<usize>) {
        let s = lock(&self.0);
        (s.flood_used, s.mark)
    }
    /// Everything the client has written so far.
    pub fn written(&self) -> Vec<u8> {
        lock(&self.0).outbox.clone()
    }
    pub fn written_from(&self, at: usize) -> Vec<u8> {
        lock(&self.0).outbox[at..].to_vec()
    }
}

pub struct Stream(Arc<Pipe>);

impl Drop for Stream {
    fn drop(&mut self) {
        lock(&self.0 .0).dropped = true;
    }
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let _p = crate::mem::pause();
        let mut s = lock(&self.0 .0);
        s.reads += 1;
        if s.inbox.is_empty() {
            if let Some(m) = s.flood.pop_front() {
                s.inbox.extend(m);
                s.flood_used += 1;
                if s.flood_used == s.mark_at {
                    s.mark = Some(s.outbox.len());
                }
            }
        }
        let mut limit = usize::MAX;
        if !s.inbox.is_empty() && !s.read_plan.is_empty() {
            let i = s.rp % s.read_plan.len();
            s.rp += 1;
            limit = s.read_plan[i] as usize;
            if limit == 0 {
                s.moves += 1;
                drop(s);
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if s.inbox.is_empty() {
            return match s.end {
                Some(End::Eof) => Poll::Ready(Ok(0)),
                Some(End::Error) => Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected"))),
                None => {
                    s.read_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            };
        }
        s.moves += 1;
        let n = limit.min(buf.len()).min(s.inbox.len());
        for b in buf[..n].iter_mut() {
            *b = s.inbox.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _p = crate::mem::pause();
        let mut s = lock(&self.0 .0);
        if s.write_error {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")));
        }
        if s.blocked {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut limit = usize::MAX;
        if !s.write_plan.is_empty() && !buf.is_empty() {
            let i = s.wp % s.write_plan.len();
            s.wp += 1;
            limit = s.write_plan[i] as usize;
            if limit == 0 {
                s.moves += 1;
                drop(s);
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        s.moves += 1;
        let n = limit.min(buf.len());
        s.outbox.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _p = crate::mem::pause();
        let mut s = lock(&self.0 .0);
        if s.write_error {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")));
        }
        if s.blocked {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------- executor

pub struct Flag(AtomicBool, OnceLock<Box<dyn Fn() + Send + Sync>>);
impl Flag {
    fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true), OnceLock::new()))
    }
    /// Called after each wake-up.
    pub fn on_wake(&self, f: Box<dyn Fn() + Send + Sync>) {
        let _ = self.1.set(f);
    }
}
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
        if let Some(f) = a.1.get() {
            f()
        }
    }
}

#[derive(Clone, Default)]
pub struct Spawner {
    new: Arc<Mutex<Vec<FutureObj<'static, ()>>>>,
    pub refuse: bool,
    pub spawned: Arc<AtomicU64>,
}

impl Spawn for Spawner {
    fn spawn_obj(&self, future: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.refuse {
            return Err(SpawnError::shutdown());
        }
        self.spawned.fetch_add(1, Ordering::SeqCst);
        lock(&self.new).push(future);
        Ok(())
    }
}

#[derive(Default)]
pub struct Exec {
    pub spawner: Spawner,
    pub tasks: Vec<(Arc<Flag>, Pin<Box<FutureObj<'static, ()>>>)>,
    /// Poll tasks before the user's future.
    pub tasks_first: bool,
    /// Poll everything once more, for no reason, before resting.
    pub spurious: bool,
    /// Polls so far.
    pub polls: u64,
}

/// More polls than this in one go is a livelock. Real sessions need a few
/// polls per transferred byte.
const POLL_BUDGET: u64 = 3_000_000;

pub const LIVELOCK: &str = "the client polls without end";

impl Exec {
    fn step_tasks(&mut self, polls: &mut u64) -> bool {
        let mut progress = false;
        for f in lock(&self.spawner.new).drain(..) {
            self.tasks.push((Flag::new(), Box::pin(f)));
        }
        let mut i = 0;
        while i < self.tasks.len() {
            let flag = self.tasks[i].0.clone();
            if flag.0.swap(false, Ordering::SeqCst) {
                progress = true;
                *polls += 1;
                self.polls += 1;
                let w = waker(flag);
                let mut cx = Context::from_waker(&w);
                if self.tasks[i].1.as_mut().poll(&mut cx).is_ready() {
                    drop(self.tasks.remove(i));
                    continue;
                }
            }
            i += 1;
        }
        progress
    }

    /// Run until nothing is ready to go on.
    pub fn idle(&mut self) -> Result<(), String> {
        let mut polls = 0;
        let mut more = self.spurious;
        loop {
            while self.step_tasks(&mut polls) {
                if polls > POLL_BUDGET {
                    return Err(LIVELOCK.into());
                }
            }
            if !std::mem::take(&mut more) {
                return Ok(());
            }
            self.flag_all();
        }
    }

    /// Run until `f` resolves, or nothing is ready to go on (None).
    pub fn drive<F: Future + ?Sized>(&mut self, f: &mut Driven<F>) -> Result<Option<F::Output>, String> {
        let mut polls = 0;
        let mut more = self.spurious;
        loop {
            let mut progress = false;
            if self.tasks_first {
                progress |= self.step_tasks(&mut polls);
            }
            if f.flag.0.swap(false, Ordering::SeqCst) {
                progress = true;
                polls += 1;
                self.polls += 1;
                let w = waker(f.flag.clone());
                let mut cx = Context::from_waker(&w);
                if let Poll::Ready(v) = f.fut.as_mut().poll(&mut cx) {
                    return Ok(Some(v));
                }
            }
            if !self.tasks_first {
                progress |= self.step_tasks(&mut polls);
            }
            if !progress && std::mem::take(&mut more) {
                self.flag_all();
                f.flag.0.store(true, Ordering::SeqCst);
            } else if !progress {
                return Ok(None);
            }
            if polls > POLL_BUDGET {
                return Err(LIVELOCK.into());
            }
        }
    }
    fn flag_all(&self) {
        self.tasks.iter().for_each(|t| t.0 .0.store(true, Ordering::SeqCst));
    }
    pub fn live_tasks(&self) -> usize {
        self.tasks.len() + lock(&self.spawner.new).len()
    }
}

/// A future the executor drives besides the spawned tasks.
pub struct Driven<'a, F: Future + ?Sized> {
    flag: Arc<Flag>,
    fut: Pin<Box<F>>,
    _l: std::marker::PhantomData<&'a ()>,
}

impl<'a, F: Future + 'a> Driven<'a, F> {
    /// Woken since it was last polled.
    pub fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    pub fn new(f: F) -> Self {
        Driven { flag: Flag::new(), fut: Box::pin(f), _l: Default::default() }
    }
}

/// Let virtual time pass up to `t`, stopping at every timer on the way.
pub fn pass_time<F: Future + ?Sized>(exec: &mut Exec, f: &mut Driven<F>, t: Duration) -> Result<Option<F::Output>, String> {
    loop {
        if let Some(v) = exec.drive(f)? {
            return Ok(Some(v));
        }
        match clock::next_deadline() {
            Some(d) if d <= t => clock::advance_to(d),
            _ => {
                if clock::now() < t {
                    clock::advance_to(t);
                    continue;
                }
                return Ok(None);
            }
        }
    }
}

// ---------------------------------------------------------------- websocket peer

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Frame {
    Text(String),
    Bin(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Vec<u8>),
}

pub const TEXT: u8 = 1;
pub const BINARY: u8 = 2;
pub const CLOSE: u8 = 8;
pub const PING: u8 = 9;
pub const PONG: u8 = 10;

/// One server-to-client frame.
pub fn frame(fin: bool, op: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | op];
    match payload.len() {
        n if n < 126 => v.push(n as u8),
        n if n < 65536 => {
            v.push(126);
            v.extend((n as u16).to_be_bytes());
        }
        n => {
            v.push(127);
            v.extend((n as u64).to_be_bytes());
        }
    }
    v.extend_from_slice(payload);
    v
}

/// A message cut into fragments at random points, with control frames in
/// between, as `how` says (0: one frame).
pub fn message(op: u8, payload: &[u8], how: u64) -> Vec<u8> {
    if how == 0 {
        return frame(true, op, payload);
    }
    let mut pick = Pick::new(how);
    let mut out = vec![];
    let mut rest = payload;
    let mut op = op;
    loop {
        if pick.one_in(3) {
            let n = pick.below(4) as usize;
            out.extend(frame(true, if pick.one_in(2) { PING } else { PONG }, &vec![b'x'; n]));
        }
        let last = rest.is_empty() || pick.one_in(3);
        let n = if last { rest.len() } else { pick.below(rest.len() as u64 + 1) as usize };
        out.extend(frame(last, op, &rest[..n]));
        rest = &rest[n..];
        op = 0;
        if last {
            return out;
        }
    }
}

/// Reads the client's bytes: first the upgrade request, then frames.
#[derive(Default)]
pub struct Reader {
    at: usize,
    pub head: Option<String>,
    partial: Option<(u8, Vec<u8>)>,
    pub frames: Vec<Frame>,
}

impl Reader {
    pub fn read(&mut self, pipe: &Pipe) -> Result<(), String> {
        let b = pipe.written_from(self.at);
        self.bytes(&b)
    }

    /// The next bytes; an unfinished frame at the end is to be given again.
    pub fn bytes(&mut self, b: &[u8]) -> Result<(), String> {
        let mut p = 0;
        if self.head.is_none() {
            match b.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(e) => {
                    self.head = Some(String::from_utf8(b[..e + 2].to_vec()).map_err(|_| "upgrade request is not UTF-8")?);
                    p = e + 4;
                }
                None => return Ok(()),
            }
        }
        loop {
            let f = &b[p..];
            if f.len() < 2 {
                break;
            }
            let (mut n, mut h) = ((f[1] & 0x7f) as usize, 2);
            if n == 126 {
                if f.len() < 4 {
                    break;
                }
                n = u16::from_be_bytes([f[2], f[3]]) as usize;
                h = 4;
            } else if n == 127 {
                if f.len() < 10 {
                    break;
                }
                let mut l = [0u8; 8];
                l.copy_from_slice(&f[2..10]);
                n = u64::from_be_bytes(l) as usize;
                h = 10;
            }
            if f[1] & 0x80 == 0 {
                return Err("client frame is not masked".into());
            }
            if f.len() < h + 4 + n {
                break;
            }
            let mask = [f[h], f[h + 1], f[h + 2], f[h + 3]];
            let body: Vec<u8> = f[h + 4..h + 4 + n].iter().enumerate().map(|(i, b)| b ^ mask[i % 4]).collect();
            let (fin, op) = (f[0] & 0x80 != 0, f[0] & 0x7f);
            p += h + 4 + n;
            let (op, body) = match (op, fin) {
                (8..=10, true) => (op, body),
                (0, _) => {
                    let (op, mut all) = self.partial.take().ok_or("continuation frame without a start")?;
                    all.extend(body);
                    if !fin {
                        self.partial = Some((op, all));
                        continue;
                    }
                    (op, all)
                }
                (1, false) | (2, false) => {
                    if self.partial.replace((op, body)).is_some() {
                        return Err("message starts inside another".into());
                    }
                    continue;
                }
                (1, true) | (2, true) => {
                    if self.partial.is_some() {
                        return Err("message starts inside another".into());
                    }
                    (op, body)
                }
                _ => return Err(format!("client frame with first byte {:#x}", f[0])),
            };
            self.frames.push(match op {
                TEXT => Frame::Text(String::from_utf8(body).map_err(|_| "text frame is not UTF-8")?),
                BINARY => Frame::Bin(body),
                CLOSE => Frame::Close(body),
                PING => Frame::Ping(body),
                _ => Frame::Pong(body),
            });
        }
        self.at += p;
        Ok(())
    }

    pub fn header(&self, name: &str) -> Option<&str> {
        self.head.as_ref()?.lines().skip(1).find_map(|l| {
            let (k, v) = l.split_once(':')?;
            if k.trim().eq_ignore_ascii_case(name) {
                Some(v.trim())
            } else {
                None
            }
        })
    }

    pub fn accept_key(&self) -> Result<String, String> {
        let key = self.header("sec-websocket-key").ok_or("upgrade request without Sec-WebSocket-Key")?;
        let mut h = Sha1::new();
        h.update(key.as_bytes());
        h.update(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
        Ok(base64::encode(h.finalize()))
    }

    pub fn response(&self) -> Result<Vec<u8>, String> {
        Ok(format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", self.accept_key()?).into_bytes())
    }
}

pub const OPEN: &str = r#"0{"sid":"s1","upgrades":[],"pingInterval":25000,"pingTimeout":20000}"#;

// ---------------------------------------------------------------- logging

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("socket_io")
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        if self.enabled(r.metadata()) {
            let _ = std::fmt::Write::write_fmt(&mut Null, *r.args());
        }
    }
    fn flush(&self) {}
}

/// Every log statement of the code under test is formatted (and thrown away).
pub fn install_logger() {
    static SINK: Sink = Sink;
    if log::set_logger(&SINK).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
