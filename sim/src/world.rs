//! The simulated world of one run: choice streams, virtual clock, files (sources and sinks),
//! injected faults, event trace and coverage counters. One world per thread; one thread per run.
use crate::choices::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub type R<T = ()> = Result<T, String>;

macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read = 0,
    Write = 1,
    Flush = 2,
    Seek = 3,
    Open = 4,
}
pub const OPS: [&str; 5] = ["read", "write", "flush", "seek", "open"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    /// the device reports an error (EIO)
    Io,
    /// the call is interrupted (EINTR)
    Interrupted,
    /// write accepts nothing / read reports end of file although there are bytes left
    Zero,
    /// the device is full from here on
    Full,
    /// the file shrinks to this length right before the call
    Shrink(u64),
    /// EWOULDBLOCK from a device that was expected to block
    WouldBlock,
    /// read returns fewer bytes, then the rest of the call's data comes with an error next time
    TimedOut,
}
impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Io => "eio",
            FaultKind::Interrupted => "eintr",
            FaultKind::Zero => "zero_transfer",
            FaultKind::Full => "enospc",
            FaultKind::Shrink(_) => "file_shrunk",
            FaultKind::WouldBlock => "ewouldblock",
            FaultKind::TimedOut => "etimedout",
        }
    }
    fn error(&self) -> io::Error {
        match self {
            FaultKind::Io => io::Error::new(io::ErrorKind::Other, "simulated EIO"),
            FaultKind::Interrupted => io::Error::new(io::ErrorKind::Interrupted, "simulated EINTR"),
            FaultKind::Full => io::Error::from_raw_os_error(28),
            FaultKind::WouldBlock => io::Error::new(io::ErrorKind::WouldBlock, "simulated EWOULDBLOCK"),
            _ => io::Error::new(io::ErrorKind::TimedOut, "simulated ETIMEDOUT"),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// bit mask over `Op`
    pub ops: u8,
    /// fires at the n-th (from 0) matching operation after arming
    pub at: u64,
    pub kind: FaultKind,
    /// keeps firing afterwards
    pub sticky: bool,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct IoCfg {
    /// out of 256: the transfer is cut short
    pub short: u64,
    /// out of 256: the operation is not ready at first
    pub pending: u64,
    /// longest readiness delay in virtual ns
    pub max_delay: u64,
    /// out of 256: the executor polls a task that was not woken
    pub spurious: u64,
}

#[derive(Default)]
pub struct File {
    pub data: Arc<Vec<u8>>,
    /// a sink that only keeps the length of long writes: where in `data` and how many bytes
    pub holes: Option<Vec<(usize, usize)>>,
    pub writes: u64,
    pub flushed_at: Option<usize>,
}

impl File {
    fn len(&self) -> usize {
        self.data.len() + self.holes.iter().flatten().map(|h| h.1).sum::<usize>()
    }
}

pub struct Access {
    pub file: usize,
    pub handle: usize,
    pub start: u64,
    pub end: u64,
}

struct Timer {
    at: u64,
    seq: u64,
    waker: Waker,
}
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        self.seq == o.seq
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct StepLimit;

pub struct World {
    pub ch: Choices,
    pub clock: u64,
    pub io: IoCfg,
    pub files: Vec<File>,
    pub handles: usize,
    faults: Vec<(Fault, u64)>,
    pub fired: u64,
    pub ops: [u64; 5],
    pub steps: u64,
    pub step_limit: u64,
    timers: BinaryHeap<Timer>,
    seq: u64,
    pub log_access: bool,
    pub access: Vec<Access>,
    pub trace: Vec<[u64; 4]>,
    pub trace_on: bool,
    pub hash: u64,
    pub perturbed: u64,
    pub fault_counts: BTreeMap<&'static str, u64>,
    pub cover: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub polls: u64,
    pub wakes: u64,
    pub tier_thorough: bool,
    pub index: u64,
}

impl World {
    pub fn new(ch: Choices, thorough: bool) -> Self {
        World {
            ch,
            clock: 0,
            io: IoCfg::default(),
            files: vec![],
            handles: 0,
            faults: vec![],
            fired: 0,
            ops: [0; 5],
            steps: 0,
            step_limit: u64::MAX,
            timers: BinaryHeap::new(),
            seq: 0,
            log_access: false,
            access: vec![],
            trace: vec![],
            trace_on: false,
            hash: 0xcbf29ce484222325,
            perturbed: 0,
            fault_counts: BTreeMap::new(),
            cover: BTreeMap::new(),
            notes: vec![],
            polls: 0,
            wakes: 0,
            tier_thorough: thorough,
            index: 0,
        }
    }
    pub fn ev(&mut self, k: u64, a: u64, b: u64, c: u64) {
        for x in [k, a, b, c] {
            self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(5);
        }
        if self.trace_on && self.trace.len() < 4000 {
            self.trace.push([k, a, b, c]);
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > self.step_limit {
            std::panic::panic_any(StepLimit);
        }
    }
    fn fault(&mut self, op: Op) -> Option<FaultKind> {
        let mut r = None;
        for (f, n) in self.faults.iter_mut() {
            if f.ops & (1 << op as u8) == 0 {
                continue;
            }
            let hit = *n == f.at || (f.sticky && *n >= f.at);
            *n += 1;
            if hit && r.is_none() {
                r = Some(f.kind);
            }
        }
        if let Some(k) = r {
            self.fired += 1;
            self.perturbed += 1;
            *self.fault_counts.entry(k.name()).or_default() += 1;
            let op_ = op as u64;
            self.ev(90, op_, self.ops[op as usize], 0);
        }
        r
    }
    fn shorten(&mut self, n: usize) -> usize {
        if n > 1 && self.io.short > 0 && self.ch.pick(IO, 256) >= 256 - self.io.short {
            self.perturbed += 1;
            *self.fault_counts.entry("short_transfer").or_default() += 1;
            match self.ch.pick(IO, 4) {
                0 => n - 1,
                1 => 1 + self.ch.pick(IO, n as u64 - 1) as usize,
                2 => n / 2,
                _ => 1,
            }
        } else {
            n
        }
    }
}

thread_local! { pub static W: RefCell<Option<World>> = const { RefCell::new(None) }; }

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world on this thread")))
}
pub fn pick(s: usize, n: u64) -> u64 {
    with(|w| w.ch.pick(s, n))
}
pub fn upick(s: usize, n: usize) -> usize {
    pick(s, n as u64) as usize
}
pub fn raw(s: usize) -> u64 {
    with(|w| w.ch.raw(s))
}
/// true with probability num/den; 0 (= shrunk) is false
pub fn chance(s: usize, num: u64, den: u64) -> bool {
    num > 0 && pick(s, den) >= den - num
}
pub fn range(s: usize, lo: usize, hi: usize) -> usize {
    lo + upick(s, hi - lo + 1)
}
pub fn one_of<T: Clone>(s: usize, xs: &[T]) -> T {
    xs[upick(s, xs.len())].clone()
}
pub fn note(s: impl Into<String>) {
    let s = s.into();
    with(|w| {
        if w.trace_on {
            w.notes.push(s)
        }
    })
}
pub fn cover(s: impl Into<String>) {
    let s = s.into();
    with(|w| *w.cover.entry(s).or_default() += 1)
}
pub fn count_fault(k: &'static str) {
    with(|w| {
        w.perturbed += 1;
        *w.fault_counts.entry(k).or_default() += 1
    })
}
pub fn ev(k: u64, a: u64, b: u64, c: u64) {
    with(|w| w.ev(k, a, b, c))
}
pub fn set_io(c: IoCfg) {
    with(|w| w.io = c)
}
pub fn calm() {
    set_io(IoCfg::default());
    disarm();
}
pub fn arm(f: Fault) {
    with(|w| w.faults.push((f, 0)))
}
pub fn disarm() {
    with(|w| w.faults.clear())
}
pub fn fired() -> u64 {
    with(|w| w.fired)
}
pub fn thorough() -> bool {
    with(|w| w.tier_thorough)
}
pub fn ops_total() -> u64 {
    with(|w| w.ops.iter().sum())
}
pub fn ops() -> [u64; 5] {
    with(|w| w.ops)
}
pub fn set_step_limit(extra: u64) {
    with(|w| w.step_limit = w.steps.saturating_add(extra))
}
/// A benign but hostile device configuration drawn for this run (swarm style).
pub fn draw_io(asyncy: bool) -> IoCfg {
    let lvl = [0, 16, 64, 160, 250];
    IoCfg {
        short: one_of(PLAN, &lvl),
        pending: if asyncy { one_of(PLAN, &lvl) } else { 0 },
        max_delay: one_of(PLAN, &[1, 10, 1_000, 1_000_000]),
        spurious: if asyncy { one_of(PLAN, &[0, 0, 30, 120]) } else { 0 },
    }
}

pub fn new_file(data: Vec<u8>) -> usize {
    with(|w| {
        w.files.push(File { data: Arc::new(data), ..File::default() });
        w.files.len() - 1
    })
}
pub fn file_data(f: usize) -> Arc<Vec<u8>> {
    with(|w| w.files[f].data.clone())
}
pub fn file_copy(f: usize) -> Vec<u8> {
    with(|w| w.files[f].data.to_vec())
}
pub fn file_len(f: usize) -> usize {
    with(|w| w.files[f].len())
}
/// Zeros whose memory is not touched, if there is room for them.
pub fn zeros(n: usize) -> Option<Vec<u8>> {
    if n < 1 << 20 {
        return Some(vec![0; n]);
    }
    let l = std::alloc::Layout::array::<u8>(n).ok()?;
    unsafe {
        let p = std::alloc::alloc_zeroed(l);
        (!p.is_null()).then(|| Vec::from_raw_parts(p, n, n))
    }
}
/// From here on, only the length of long writes is kept.
pub fn make_hollow(f: usize) {
    with(|w| w.files[f].holes = Some(vec![]))
}
/// The contents of a hollow sink as a sparse file: what was not kept reads as zeros.
pub fn fill_hollow(f: usize) -> bool {
    let (d, holes, n) = with(|w| (w.files[f].data.clone(), w.files[f].holes.clone().unwrap_or_default(), w.files[f].len()));
    let Some(mut v) = zeros(n) else { return false };
    let (mut from, mut to) = (0, 0);
    for (at, len) in holes.into_iter().chain([(d.len(), 0)]) {
        v[to..to + at - from].copy_from_slice(&d[from..at]);
        to += at - from + len;
        from = at;
    }
    with(|w| w.files[f].holes = None);
    set_file(f, v);
    true
}
pub fn file_flushed(f: usize) -> Option<usize> {
    with(|w| w.files[f].flushed_at)
}
/// Sharing what another file holds.
pub fn set_data(f: usize, d: &Arc<Vec<u8>>) {
    with(|w| w.files[f].data = d.clone())
}
pub fn set_file(f: usize, d: Vec<u8>) {
    with(|w| w.files[f].data = Arc::new(d))
}
pub fn take_access() -> Vec<Access> {
    with(|w| std::mem::take(&mut w.access))
}
pub fn log_access(on: bool) {
    with(|w| {
        w.log_access = on;
        w.access.clear()
    })
}

/// Moves the clock to the next timer and wakes everything due. False if there is none.
pub fn advance() -> bool {
    let due = with(|w| {
        let t = match w.timers.peek() {
            None => return None,
            Some(t) => t.at,
        };
        w.clock = w.clock.max(t);
        let mut v = vec![];
        while w.timers.peek().map(|x| x.at <= w.clock).unwrap_or(false) {
            v.push(w.timers.pop().unwrap().waker);
        }
        Some(v)
    });
    match due {
        None => false,
        Some(v) => {
            with(|w| w.wakes += v.len() as u64);
            v.into_iter().for_each(|x| x.wake());
            true
        }
    }
}
pub fn timer(at: u64, waker: Waker) {
    with(|w| {
        w.seq += 1;
        let seq = w.seq;
        w.timers.push(Timer { at, seq, waker })
    })
}
pub fn clear_timers() {
    let t = with(|w| std::mem::take(&mut w.timers));
    drop(t)
}

/// A handle on a simulated file: sync and async, reader and writer.
pub struct Dev {
    pub file: usize,
    pub handle: usize,
    pub pos: u64,
    ready_at: Option<u64>,
}
pub fn open(file: usize) -> Dev {
    let handle = with(|w| {
        w.handles += 1;
        w.handles
    });
    Dev { file, handle, pos: 0, ready_at: None }
}

impl Dev {
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        with(|w| {
            w.step();
            w.clock += 50;
            let f = w.fault(Op::Read);
            w.ops[0] += 1;
            match f {
                None => {}
                Some(FaultKind::Shrink(n)) => Arc::make_mut(&mut w.files[self.file].data).truncate(n as usize),
                Some(FaultKind::Zero) => return Ok(0),
                Some(k) => return Err(k.error()),
            }
            let len = w.files[self.file].data.len() as u64;
            let avail = len.saturating_sub(self.pos).min(buf.len() as u64) as usize;
            let n = w.shorten(avail);
            let p = self.pos as usize;
            if n > 0 {
                buf[..n].copy_from_slice(&w.files[self.file].data[p..p + n]);
            }
            if w.log_access && n > 0 {
                w.access.push(Access { file: self.file, handle: self.handle, start: self.pos, end: self.pos + n as u64 });
            }
            w.ev(1, self.file as u64, self.pos, ((buf.len() as u64) << 32) | n as u64);
            self.pos += n as u64;
            Ok(n)
        })
    }
    fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        with(|w| {
            w.step();
            w.clock += 80;
            let f = w.fault(Op::Write);
            w.ops[1] += 1;
            match f {
                None => {}
                Some(FaultKind::Zero) => return Ok(0),
                Some(k) => return Err(k.error()),
            }
            let n = w.shorten(buf.len());
            let fl = &mut w.files[self.file];
            match &mut fl.holes {
                Some(h) if n >= 1 << 20 => h.push((fl.data.len(), n)),
                _ => Arc::make_mut(&mut fl.data).extend_from_slice(&buf[..n]),
            }
            fl.writes += 1;
            w.ev(2, self.file as u64, buf.len() as u64, n as u64);
            Ok(n)
        })
    }
    fn do_flush(&mut self) -> io::Result<()> {
        with(|w| {
            w.step();
            w.clock += 500;
            let f = w.fault(Op::Flush);
            w.ops[2] += 1;
            match f {
                None | Some(FaultKind::Zero) => {}
                Some(k) => return Err(k.error()),
            }
            let fl = &mut w.files[self.file];
            fl.flushed_at = Some(fl.len());
            w.ev(3, self.file as u64, 0, 0);
            Ok(())
        })
    }
    fn do_seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        with(|w| {
            w.step();
            w.clock += 20;
            let f = w.fault(Op::Seek);
            w.ops[3] += 1;
            match f {
                None | Some(FaultKind::Zero) => {}
                Some(FaultKind::Shrink(n)) => Arc::make_mut(&mut w.files[self.file].data).truncate(n as usize),
                Some(k) => return Err(k.error()),
            }
            let len = w.files[self.file].data.len() as i128;
            let p = match to {
                SeekFrom::Start(x) => x as i128,
                SeekFrom::End(x) => len + x as i128,
                SeekFrom::Current(x) => self.pos as i128 + x as i128,
            };
            // same domain as a POSIX file
            if p < 0 || p > i64::MAX as i128 {
                return Err(io::Error::from_raw_os_error(22));
            }
            self.pos = p as u64;
            w.ev(4, self.file as u64, self.pos, 0);
            Ok(self.pos)
        })
    }
    fn gate(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let r = with(|w| match self.ready_at {
            Some(t) if w.clock >= t => {
                self.ready_at = None;
                None
            }
            Some(t) => Some(t),
            None => {
                if w.io.pending > 0 && w.ch.pick(IO, 256) >= 256 - w.io.pending {
                    let d = 1 + w.ch.pick(IO, w.io.max_delay.max(1));
                    w.perturbed += 1;
                    *w.fault_counts.entry("not_ready").or_default() += 1;
                    let t = w.clock + d;
                    self.ready_at = Some(t);
                    w.ev(5, self.file as u64, d, 0);
                    Some(t)
                } else {
                    None
                }
            }
        });
        match r {
            None => Poll::Ready(()),
            Some(t) => {
                with(|w| w.step());
                timer(t, cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Read for Dev {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.do_read(b)
    }
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.do_flush()
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.do_seek(p)
    }
}

/// Asynchronous side of a device.
pub struct ADev(pub Dev);
pub fn aopen(file: usize) -> ADev {
    ADev(open(file))
}
impl futures::AsyncRead for ADev {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.0.gate(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(self.0.do_read(b))
    }
}
impl futures::AsyncWrite for ADev {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.0.gate(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(self.0.do_write(b))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.0.gate(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(self.0.do_flush())
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl futures::AsyncSeek for ADev {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> {
        if self.0.gate(cx).is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(self.0.do_seek(p))
    }
}

pub fn describe(e: &[u64; 4]) -> String {
    match e[0] {
        1 => format!("read file{} at {} want {} got {}", e[1], e[2], e[3] >> 32, e[3] & 0xffffffff),
        2 => format!("write file{} offered {} accepted {}", e[1], e[2], e[3]),
        3 => format!("flush file{}", e[1]),
        4 => format!("seek file{} to {}", e[1], e[2]),
        5 => format!("file{} not ready for {} ns", e[1], e[2]),
        6 => format!("poll task {}", e[1]),
        7 => format!("drop future after {} suspensions", e[1]),
        8 => format!("spurious poll of task {}", e[1]),
        9 => format!("crash: {} of {} bytes durable", e[1], e[2]),
        10 => format!("damage at {}: kind {} arg {}", e[1], e[2], e[3]),
        90 => format!("FAULT injected into {} (op #{})", OPS[e[1] as usize], e[2]),
        k => format!("event {} {} {} {}", k, e[1], e[2], e[3]),
    }
}
