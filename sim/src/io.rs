//! Simulated streams. Every call is a scheduling point, and the choice
//! sequence decides how much of a request is served, whether the call is
//! interrupted or stalled, and where the stream fails or ends.
use crate::alloc::{quiet, unguarded};
use crate::kernel::{self, choose};
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// How a stream serves requests.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Flow {
    /// 0 whole, 1 single bytes, 2 short, 3 powers of two, 4 mixed
    pub frag: u64,
    /// one call in n is interrupted (0: none)
    pub intr: u64,
    /// one call in n is stalled
    pub stall: u64,
}

/// Stream calls of this run. Past `CALM` of them streams serve every request
/// whole and at once, so that a run over much data in small pieces stays
/// short: a run that goes on and on then is the code's doing.
static CALLS: AtomicU64 = AtomicU64::new(0);
const CALM: u64 = 400_000;

pub fn start_run() {
    CALLS.store(0, Relaxed);
}

impl Flow {
    pub fn plain() -> Flow {
        Flow { frag: 0, intr: 0, stall: 0 }
    }
    pub fn gen() -> Flow {
        let frag = choose(5);
        let intr = [0, 0, 3, 17, 2][choose(5) as usize];
        let stall = [0, 0, 7, 29][choose(4) as usize];
        Flow { frag, intr, stall }
    }
    /// Not one call per byte for large data.
    pub fn for_size(mut self, n: usize) -> Flow {
        if n > 20_000 {
            if self.frag == 1 || self.frag == 2 {
                self.frag = 4;
            }
            if self.intr == 2 {
                self.intr = 17;
            }
        }
        self
    }
    fn size(&self, n: usize) -> usize {
        if CALLS.load(Relaxed) > CALM {
            return n;
        }
        let m = match self.frag {
            0 => n,
            1 => 1,
            2 => 1 + choose(9) as usize,
            3 => 1usize << choose(13),
            _ => match choose(4) {
                0 => n,
                1 => 1 + choose(n as u64) as usize,
                2 => n.saturating_sub(1).max(1),
                _ => 1 + choose(600) as usize,
            },
        };
        if m < n {
            kernel::fault("io.short");
            m
        } else {
            n
        }
    }
    /// Scheduling, stalls, interruptions.
    fn enter(&self, what: &'static str) -> Result<()> {
        if CALLS.fetch_add(1, Relaxed) >= CALM {
            return Ok(());
        }
        kernel::io_point(what);
        if self.stall > 0 && choose(self.stall) == self.stall - 1 {
            kernel::fault("io.stall");
            kernel::sleep(1_000_000 + choose(5_000_000_000));
        }
        if self.intr > 0 && choose(self.intr) == self.intr - 1 {
            kernel::fault("io.interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        Ok(())
    }
}

/// Where and how a stream breaks.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// It ends cleanly after this many bytes.
    Eof(usize),
    /// It fails with this error.
    Fail(usize, ErrorKind),
    /// It fails without an error: writes take nothing.
    Zero(usize),
    /// It fails once and works again afterwards.
    Once(usize, ErrorKind),
    Never,
}

impl End {
    pub fn at(&self) -> usize {
        match self {
            End::Eof(n) | End::Fail(n, _) | End::Zero(n) | End::Once(n, _) => *n,
            End::Never => usize::MAX,
        }
    }
    /// What is left of the fault after it struck.
    fn after(&self, failed: bool) -> End {
        match self {
            End::Once(..) if failed => End::Never,
            e => *e,
        }
    }
}

pub const KINDS: [ErrorKind; 10] = [
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionAborted,
];

#[derive(Debug)]
pub struct SimError(pub u64);
impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated fault {}", self.0)
    }
}
impl std::error::Error for SimError {}

pub const FAULT_ID: u64 = 0x51af;

pub fn sim_error(kind: ErrorKind) -> Error {
    Error::new(kind, SimError(FAULT_ID))
}
pub fn is_sim_error(e: &Error, kind: ErrorKind) -> bool {
    e.kind() == kind
        && e.get_ref()
            .and_then(|x| x.downcast_ref::<SimError>())
            .is_some_and(|x| x.0 == FAULT_ID)
}

/// A reader over bytes.
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub flow: Flow,
    pub end: End,
    pub calls: u64,
    /// Calls after the stream had ended.
    pub after_end: u64,
    pub failed: bool,
}

impl Src {
    pub fn new(data: Arc<Vec<u8>>, flow: Flow, end: End) -> Src {
        Src { data, pos: 0, flow, end, calls: 0, after_end: 0, failed: false }
    }
    pub fn plain(data: &[u8]) -> Src {
        Src::new(Arc::new(data.to_vec()), Flow::plain(), End::Never)
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        quiet(|| {
            unguarded(|| {
                self.calls += 1;
                let end = self.end.after(self.failed);
                let limit = end.at().min(self.data.len());
                if self.pos >= limit {
                    self.after_end += 1;
                    if self.after_end > 10_000 {
                        crate::violation("no-progress", "the reader keeps asking a stream that has ended".into());
                    }
                }
                self.flow.enter("read")?;
                if buf.is_empty() {
                    return Ok(0);
                }
                if self.pos >= limit {
                    if let End::Fail(n, k) | End::Once(n, k) = end {
                        if self.pos >= n {
                            self.failed = true;
                            kernel::fault(if matches!(end, End::Once(..)) { "io.transient_error" } else { "io.read_error" });
                            return Err(sim_error(k));
                        }
                    }
                    kernel::fault("io.eof");
                    return Ok(0);
                }
                let n = self.flow.size(buf.len().min(limit - self.pos));
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            })
        })
    }
}

/// A writer into memory.
pub struct Sink {
    pub out: Vec<u8>,
    pub flow: Flow,
    pub end: End,
    pub failed: bool,
    pub flushed: usize,
    pub stuck: u64,
}

impl Sink {
    pub fn new(flow: Flow, end: End) -> Sink {
        Sink { out: Vec::new(), flow, end, failed: false, flushed: 0, stuck: 0 }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        quiet(|| {
            unguarded(|| {
                self.flow.enter("write")?;
                if buf.is_empty() {
                    return Ok(0);
                }
                let end = self.end.after(self.failed);
                let room = end.at().saturating_sub(self.out.len());
                if room == 0 {
                    self.failed = true;
                    self.stuck += 1;
                    if self.stuck > 10_000 {
                        crate::violation("no-progress", "the writer keeps trying a stream that takes nothing".into());
                    }
                    return match end {
                        End::Fail(_, k) | End::Once(_, k) => {
                            kernel::fault(if matches!(end, End::Once(..)) { "io.transient_error" } else { "io.write_error" });
                            Err(sim_error(k))
                        }
                        _ => {
                            kernel::fault("io.write_zero");
                            Ok(0)
                        }
                    };
                }
                let n = self.flow.size(buf.len().min(room));
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            })
        })
    }
    fn flush(&mut self) -> Result<()> {
        self.flushed = self.out.len();
        Ok(())
    }
}

/// A byte stream between two tasks.
struct PipeIn {
    buf: VecDeque<u8>,
    cap: usize,
    wclosed: bool,
    rclosed: bool,
    wtask: Option<usize>,
    rtask: Option<usize>,
    total: u64,
    /// After so many bytes the connection is reset.
    reset: Option<(u64, ErrorKind)>,
    broken: Option<ErrorKind>,
}
pub struct PipeW(Arc<Mutex<PipeIn>>, Flow);
pub struct PipeR(Arc<Mutex<PipeIn>>, Flow, pub u64);

pub fn pipe(cap: usize, wf: Flow, rf: Flow, reset: Option<(u64, ErrorKind)>) -> (PipeW, PipeR) {
    let p = Arc::new(Mutex::new(PipeIn {
        buf: VecDeque::new(),
        cap: cap.max(1),
        wclosed: false,
        rclosed: false,
        wtask: None,
        rtask: None,
        total: 0,
        reset,
        broken: None,
    }));
    (PipeW(p.clone(), wf), PipeR(p, rf, 0))
}

fn wake(t: &mut Option<usize>) {
    if let Some(t) = t.take() {
        kernel::wake(t);
    }
}

impl Write for PipeW {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        quiet(|| {
            unguarded(|| {
                self.1.enter("pipe.write")?;
                if buf.is_empty() {
                    return Ok(0);
                }
                loop {
                    {
                        let mut p = self.0.lock().unwrap();
                        if let Some(k) = p.broken {
                            return Err(sim_error(k));
                        }
                        if p.rclosed {
                            return Err(sim_error(ErrorKind::BrokenPipe));
                        }
                        let room = p.cap - p.buf.len();
                        if room > 0 {
                            let mut n = self.1.size(buf.len().min(room));
                            if let Some((at, k)) = p.reset {
                                let left = at - p.total;
                                if left == 0 {
                                    kernel::fault("net.reset");
                                    p.broken = Some(k);
                                    wake(&mut p.rtask);
                                    return Err(sim_error(k));
                                }
                                n = n.min(left as usize);
                            }
                            p.buf.extend(&buf[..n]);
                            p.total += n as u64;
                            wake(&mut p.rtask);
                            return Ok(n);
                        }
                        p.wtask = Some(kernel::current());
                    }
                    kernel::block(None);
                }
            })
        })
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Drop for PipeW {
    fn drop(&mut self) {
        let mut p = self.0.lock().unwrap();
        p.wclosed = true;
        wake(&mut p.rtask);
    }
}

impl Read for PipeR {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        quiet(|| {
            unguarded(|| {
                self.1.enter("pipe.read")?;
                if buf.is_empty() {
                    return Ok(0);
                }
                loop {
                    {
                        let mut p = self.0.lock().unwrap();
                        if !p.buf.is_empty() {
                            let n = self.1.size(buf.len().min(p.buf.len()));
                            for b in buf[..n].iter_mut() {
                                *b = p.buf.pop_front().unwrap();
                            }
                            self.2 += n as u64;
                            wake(&mut p.wtask);
                            return Ok(n);
                        }
                        if let Some(k) = p.broken {
                            return Err(sim_error(k));
                        }
                        if p.wclosed {
                            return Ok(0);
                        }
                        p.rtask = Some(kernel::current());
                    }
                    kernel::block(None);
                }
            })
        })
    }
}
impl Drop for PipeR {
    fn drop(&mut self) {
        let mut p = self.0.lock().unwrap();
        p.rclosed = true;
        wake(&mut p.wtask);
    }
}

/// Counts what it is given and keeps nothing.
#[derive(Default)]
pub struct Null(pub u64);
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ disk

/// Files of one simulated machine. What is written is durable only once it is
/// synced; a crash keeps an arbitrary part of what was not.
#[derive(Default)]
pub struct Disk {
    files: std::collections::BTreeMap<String, File>,
    /// Names not yet durable: (old, new).
    renames: Vec<(String, String)>,
    pub flow: Option<Flow>,
    pub capacity: Option<usize>,
}
#[derive(Default, Clone)]
struct File {
    durable: Vec<u8>,
    data: Vec<u8>,
}
pub type DiskRef = Arc<Mutex<Disk>>;

pub fn disk() -> DiskRef {
    Arc::new(Mutex::new(Disk::default()))
}

pub struct FileW {
    disk: DiskRef,
    name: String,
    end: End,
    done: usize,
    pub failed: bool,
}

impl Disk {
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        self.files.get(name).map(|f| f.data.clone())
    }
    pub fn sync(&mut self, name: &str) {
        if let Some(f) = self.files.get_mut(name) {
            f.durable = f.data.clone();
        }
    }
    /// Cuts a file, durably.
    pub fn truncate(&mut self, name: &str, n: usize) {
        if let Some(f) = self.files.get_mut(name) {
            f.data.truncate(n);
            if f.durable.len() > n {
                f.durable.truncate(n);
            }
        }
    }
    pub fn sync_dir(&mut self) {
        self.renames.clear();
    }
    pub fn remove(&mut self, name: &str) {
        self.files.remove(name);
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(f) = self.files.remove(from) {
            // the old content survives until the directory is synced
            if let Some(old) = self.files.insert(to.into(), f) {
                let keep = format!("{to}\0old{}", self.renames.len());
                self.files.insert(keep.clone(), old);
                self.renames.push((keep, to.into()));
            } else {
                self.renames.push((String::new(), to.into()));
            }
        }
    }
    /// Power is lost.
    pub fn crash(&mut self) {
        kernel::fault("crash");
        for (i, (old, new)) in std::mem::take(&mut self.renames).into_iter().enumerate().rev() {
            let _ = i;
            if choose(2) == 1 {
                // the rename did not make it
                kernel::fault("disk.lost_rename");
                let f = self.files.remove(&new);
                if old.is_empty() {
                    drop(f);
                } else if let Some(o) = self.files.remove(&old) {
                    self.files.insert(new, o);
                }
            } else if !old.is_empty() {
                self.files.remove(&old);
            }
        }
        for f in self.files.values_mut() {
            if f.data == f.durable {
                continue;
            }
            let common = f
                .data
                .iter()
                .zip(&f.durable)
                .take_while(|(a, b)| a == b)
                .count();
            let appended = common == f.durable.len();
            match choose(4) {
                0 => {
                    kernel::fault("disk.lost_write");
                    f.data = f.durable.clone();
                }
                1 => {} // everything made it
                _ => {
                    kernel::fault("disk.torn_write");
                    if appended {
                        let n = f.data.len() - common;
                        let k = choose(n as u64 + 1) as usize;
                        f.data.truncate(common + k);
                    } else {
                        let k = choose(f.data.len() as u64 + 1) as usize;
                        f.data.truncate(k);
                    }
                }
            }
            f.durable = f.data.clone();
        }
    }
}

/// Opens a file for writing from its start, or at its end.
pub fn create(d: &DiskRef, name: &str, append: bool, end: End) -> FileW {
    let mut g = d.lock().unwrap();
    let f = g.files.entry(name.into()).or_default();
    if !append {
        f.data.clear();
    }
    FileW { disk: d.clone(), name: name.into(), end, done: 0, failed: false }
}

impl Write for FileW {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        quiet(|| {
            unguarded(|| {
                let flow = self.disk.lock().unwrap().flow.unwrap_or(Flow::plain());
                flow.enter("disk.write")?;
                if buf.is_empty() {
                    return Ok(0);
                }
                let end = self.end.after(self.failed);
                let room = end.at().saturating_sub(self.done);
                if room == 0 {
                    self.failed = true;
                    return match end {
                        End::Fail(_, k) | End::Once(_, k) => {
                            kernel::fault("disk.write_error");
                            Err(sim_error(k))
                        }
                        _ => {
                            kernel::fault("disk.write_zero");
                            Ok(0)
                        }
                    };
                }
                let n = flow.size(buf.len().min(room));
                let mut g = self.disk.lock().unwrap();
                let f = g.files.entry(self.name.clone()).or_default();
                f.data.extend_from_slice(&buf[..n]);
                self.done += n;
                Ok(n)
            })
        })
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
