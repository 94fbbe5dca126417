//! The simulated machine: disk, clock, entropy, I/O fault plan, counters.
//!
//! A `World` belongs to one simulated run. Threads that take part in the run
//! install a pointer to it; the interposed libc functions (interpose.rs) look
//! the pointer up and, when it is set, never reach the real kernel.

use crate::rng::mix;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;

pub const SIM_PREFIX: &str = "/simdisk/";
pub const FD_BASE: i32 = 1 << 24;

thread_local! {
    pub static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    pub static CLIENT: Cell<i64> = const { Cell::new(-1) };
    pub static RANDOM_CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn with_world<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let p = WORLD.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        // Only one simulated thread runs at any time (see sched.rs).
        Some(crate::sched::quiet(|| f(unsafe { &mut *p })))
    }
}

/// One injected fault of an I/O operation (a save or a load).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// The write that would take the total number of bytes written by this
    /// operation beyond `at` writes up to `at` and the next write fails.
    WriteErr { at: u64, errno: i32, sticky: bool },
    /// The n-th flush of the stream fails.
    FlushErr { nth: u32, errno: i32, sticky: bool },
    /// The n-th seek fails.
    SeekErr { nth: u32, errno: i32, sticky: bool },
    /// The process dies once `at` bytes were written; nothing later reaches the disk.
    Crash { at: u64 },
    /// Writes accept at most `max` bytes per call.
    ShortWrite { max: u32 },
    /// Every `every`-th call is interrupted (EINTR) before doing anything.
    Eintr { every: u32 },
    /// Reads return at most `max` bytes per call.
    ShortRead { max: u32 },
    /// A read that would deliver a byte at or after absolute offset `at` fails,
    /// after `skip` such reads succeeded.
    ReadErr { at: u64, skip: u32, errno: i32, sticky: bool },
    /// open(2) fails.
    OpenErr { errno: i32 },
    /// close(2) fails.
    CloseErr { errno: i32 },
    /// The sink buffers everything and hands it over at flush only.
    LazySink,
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::WriteErr { errno, sticky, .. } => match (*errno, *sticky) {
                (libc::ENOSPC, _) => "write-enospc",
                (_, true) => "write-eio-sticky",
                (_, false) => "write-eio-once",
            },
            Fault::FlushErr { .. } => "flush-error",
            Fault::SeekErr { .. } => "seek-error",
            Fault::Crash { .. } => "crash-during-save",
            Fault::ShortWrite { .. } => "short-write",
            Fault::Eintr { .. } => "eintr",
            Fault::ShortRead { .. } => "short-read",
            Fault::ReadErr { sticky: true, .. } => "read-eio-sticky",
            Fault::ReadErr { sticky: false, .. } => "read-eio-once",
            Fault::OpenErr { .. } => "open-error",
            Fault::CloseErr { .. } => "close-error",
            Fault::LazySink => "lazy-sink",
        }
    }
    /// Faults after which the operation still has to succeed.
    pub fn benign(&self) -> bool {
        matches!(
            self,
            Fault::ShortWrite { .. }
                | Fault::Eintr { .. }
                | Fault::ShortRead { .. }
                | Fault::LazySink
                | Fault::CloseErr { .. }
        )
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Fd {
    pub path: String,
    pub pos: u64,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
    /// Pending bytes of a lazy sink: (offset, data).
    pub pending: Vec<(u64, Vec<u8>)>,
    pub lazy: bool,
}

#[derive(Clone, Debug, Default)]
pub struct OpState {
    pub faults: Vec<Fault>,
    pub written: u64,
    pub calls: u64,
    pub seeks: u32,
    pub flushes: u32,
    pub read_hits: u32,
    pub zero_reads: u32,
    pub dead: bool,
    pub consumed: Vec<bool>,
    /// A hard (non-retryable) error was returned to the code under test.
    pub hard_fired: bool,
    pub crash_fired: bool,
    pub looped: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct ClockPlan {
    /// Start, seconds since 1970 (may be negative or far in the future).
    pub start: i64,
    /// Nanoseconds added per reading of the clock.
    pub step: i64,
    /// (reading number, jump in seconds).
    pub jumps: Vec<(u64, i64)>,
}

pub struct World {
    pub files: BTreeMap<String, File>,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub op: BTreeMap<i64, OpState>,
    pub clock: ClockPlan,
    pub clock_reads: u64,
    pub now_ns: i128,
    pub hash_seed: u64,
    pub fired: BTreeMap<String, u64>,
    pub io_calls: u64,
    pub log: u64,
    pub log_lines: Option<Vec<String>>,
    pub foreign_paths: Vec<String>,
}

impl World {
    pub fn new(hash_seed: u64, clock: ClockPlan) -> Self {
        World {
            files: BTreeMap::new(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            op: BTreeMap::new(),
            now_ns: clock.start as i128 * 1_000_000_000,
            clock,
            clock_reads: 0,
            hash_seed,
            fired: BTreeMap::new(),
            io_calls: 0,
            log: 0,
            log_lines: None,
            foreign_paths: Vec::new(),
        }
    }

    pub fn note(&mut self, s: &str) {
        self.log = mix(self.log, crate::rng::fnv(s.as_bytes()));
        if let Some(l) = self.log_lines.as_mut() {
            l.push(s.to_string());
        }
    }

    pub fn fire(&mut self, kind: &str) {
        *self.fired.entry(kind.to_string()).or_insert(0) += 1;
    }

    pub fn begin_op(&mut self, faults: &[Fault]) {
        let c = CLIENT.with(|c| c.get());
        self.op.insert(
            c,
            OpState {
                faults: faults.to_vec(),
                consumed: vec![false; faults.len()],
                ..Default::default()
            },
        );
    }
    pub fn end_op(&mut self) -> OpState {
        let c = CLIENT.with(|c| c.get());
        self.op.remove(&c).unwrap_or_default()
    }
    fn opm(&mut self) -> &mut OpState {
        let c = CLIENT.with(|c| c.get());
        self.op.entry(c).or_default()
    }

    pub fn read_clock(&mut self) -> i128 {
        self.clock_reads += 1;
        let n = self.clock_reads;
        self.now_ns += self.clock.step as i128;
        let js: i64 = self
            .clock
            .jumps
            .iter()
            .filter(|(at, _)| *at == n)
            .map(|(_, j)| *j)
            .sum();
        if js != 0 {
            self.now_ns += js as i128 * 1_000_000_000;
            self.fire("clock-jump");
        }
        self.now_ns
    }

    pub fn random_bytes(&mut self, buf: &mut [u8]) {
        let c = CLIENT.with(|c| c.get()) as u64;
        let n = RANDOM_CALLS.with(|r| {
            let v = r.get();
            r.set(v + 1);
            v
        });
        let mut x = mix(self.hash_seed, mix(c, n));
        for b in buf.iter_mut() {
            *b = crate::rng::splitmix(&mut x) as u8;
        }
    }

    // ---- disk ------------------------------------------------------------

    pub fn open(&mut self, path: &str, flags: i32, stream: bool) -> Result<i32, i32> {
        let o = self.opm();
        for i in 0..o.faults.len() {
            if let Fault::OpenErr { errno } = o.faults[i] {
                if !o.consumed[i] {
                    o.consumed[i] = true;
                    o.hard_fired = true;
                    self.fire("open-error");
                    self.note("open!");
                    return Err(errno);
                }
            }
        }
        if self.opm().dead {
            return Err(libc::EIO);
        }
        let lazy = stream && self.opm().faults.contains(&Fault::LazySink);
        if lazy {
            self.fire("lazy-sink");
        }
        let acc = flags & libc::O_ACCMODE;
        let writable = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let readable = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        let exists = self.files.contains_key(path);
        if !exists {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            self.files.insert(path.to_string(), File::default());
        } else if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
            return Err(libc::EEXIST);
        }
        if writable && flags & libc::O_TRUNC != 0 {
            self.files.get_mut(path).unwrap().data.clear();
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            Fd {
                path: path.to_string(),
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                readable,
                writable,
                pending: Vec::new(),
                lazy,
            },
        );
        self.note("open");
        Ok(fd)
    }

    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        if self.fds.remove(&fd).is_none() {
            return Err(libc::EBADF);
        }
        self.note("close");
        let o = self.opm();
        for i in 0..o.faults.len() {
            if let Fault::CloseErr { errno } = o.faults[i] {
                if !o.consumed[i] {
                    o.consumed[i] = true;
                    self.fire("close-error");
                    return Err(errno);
                }
            }
        }
        Ok(())
    }

    /// EINTR and death checks common to all calls.
    fn pre_call(&mut self) -> Result<(), i32> {
        self.io_calls += 1;
        let o = self.opm();
        o.calls += 1;
        if o.dead {
            return Err(libc::EIO);
        }
        let calls = o.calls;
        let mut hit = false;
        for i in 0..o.faults.len() {
            if let Fault::Eintr { every } = o.faults[i] {
                if every > 1 && calls % every as u64 == 0 {
                    hit = true;
                }
            }
        }
        if hit {
            self.fire("eintr");
            return Err(libc::EINTR);
        }
        Ok(())
    }

    pub fn write(&mut self, fd: i32, buf: &[u8]) -> Result<usize, i32> {
        if !self.fds.get(&fd).map(|f| f.writable).unwrap_or(false) {
            return Err(libc::EBADF);
        }
        self.pre_call()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len() as u64;
        let mut fired: Vec<&'static str> = Vec::new();
        let mut err = None;
        let mut died = false;
        {
            let o = self.opm();
            for i in 0..o.faults.len() {
                let kind = o.faults[i].kind();
                match o.faults[i] {
                    Fault::ShortWrite { max } => {
                        if n > max as u64 {
                            n = max as u64;
                            fired.push(kind);
                        }
                    }
                    Fault::WriteErr { at, errno, sticky } if !o.consumed[i] || sticky => {
                        if o.written >= at {
                            o.consumed[i] = true;
                            o.hard_fired = true;
                            err = Some(errno);
                            fired.push(kind);
                        } else if o.written + n > at {
                            n = at - o.written;
                        }
                    }
                    Fault::Crash { at } => {
                        if o.written + n >= at {
                            n = at.saturating_sub(o.written);
                            if !o.crash_fired {
                                fired.push(kind);
                            }
                            died = true;
                        }
                    }
                    _ => {}
                }
            }
            if err.is_none() {
                o.written += n;
            }
        }
        for k in fired {
            self.fire(k);
        }
        if let Some(e) = err {
            self.note("write!");
            return Err(e);
        }
        if n > 0 {
            self.apply_write(fd, &buf[..n as usize]);
        }
        if died {
            let o = self.opm();
            o.dead = true;
            o.crash_fired = true;
            self.note("crash");
            return Err(libc::EIO);
        }
        self.note(&format!("w{}", n));
        Ok(n as usize)
    }

    fn apply_write(&mut self, fd: i32, buf: &[u8]) {
        let f = self.fds.get_mut(&fd).unwrap();
        if f.append {
            f.pos = self.files.get(&f.path).map(|f| f.data.len()).unwrap_or(0) as u64;
        }
        let pos = f.pos;
        f.pos += buf.len() as u64;
        if f.lazy {
            f.pending.push((pos, buf.to_vec()));
        } else {
            let path = f.path.clone();
            self.store(&path, pos, buf);
        }
    }

    fn store(&mut self, path: &str, pos: u64, buf: &[u8]) {
        let file = self.files.entry(path.to_string()).or_default();
        let end = pos as usize + buf.len();
        if file.data.len() < end {
            file.data.resize(end, 0);
        }
        file.data[pos as usize..end].copy_from_slice(buf);
    }

    pub fn flush(&mut self, fd: i32) -> Result<(), i32> {
        self.pre_call_noeintr()?;
        let mut err = None;
        let mut fired = None;
        {
            let o = self.opm();
            let nth_now = o.flushes;
            o.flushes += 1;
            for i in 0..o.faults.len() {
                let kind = o.faults[i].kind();
                if let Fault::FlushErr { nth, errno, sticky } = o.faults[i] {
                    if nth == nth_now || (sticky && nth_now > nth) {
                        o.consumed[i] = true;
                        o.hard_fired = true;
                        err = Some(errno);
                        fired = Some(kind);
                    }
                }
            }
        }
        if let Some(k) = fired {
            self.fire(k);
        }
        if let Some(e) = err {
            self.note("flush!");
            return Err(e);
        }
        self.note("flush");
        if let Some(f) = self.fds.get_mut(&fd) {
            let path = f.path.clone();
            let pending = std::mem::take(&mut f.pending);
            for (pos, b) in pending {
                self.store(&path, pos, &b);
            }
        }
        Ok(())
    }

    fn pre_call_noeintr(&mut self) -> Result<(), i32> {
        self.io_calls += 1;
        let o = self.opm();
        o.calls += 1;
        if o.dead {
            return Err(libc::EIO);
        }
        Ok(())
    }

    pub fn file_len(&self, fd: i32) -> u64 {
        let Some(f) = self.fds.get(&fd) else { return 0 };
        let mut n = self.files.get(&f.path).map(|f| f.data.len()).unwrap_or(0) as u64;
        for (p, b) in &f.pending {
            n = n.max(p + b.len() as u64);
        }
        n
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> Result<u64, i32> {
        if !self.fds.contains_key(&fd) {
            return Err(libc::EBADF);
        }
        self.pre_call_noeintr()?;
        let mut err = None;
        {
            let o = self.opm();
            let nth_now = o.seeks;
            o.seeks += 1;
            for i in 0..o.faults.len() {
                if let Fault::SeekErr { nth, errno, sticky } = o.faults[i] {
                    if nth == nth_now || (sticky && nth_now > nth) {
                        o.consumed[i] = true;
                        o.hard_fired = true;
                        err = Some(errno);
                    }
                }
            }
        }
        if let Some(e) = err {
            self.fire("seek-error");
            self.note("seek!");
            return Err(e);
        }
        let len = self.file_len(fd) as i64;
        let f = self.fds.get_mut(&fd).unwrap();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => len,
            _ => return Err(libc::EINVAL),
        };
        let np = base.checked_add(off).ok_or(libc::EOVERFLOW)?;
        if np < 0 {
            return Err(libc::EINVAL);
        }
        f.pos = np as u64;
        self.note(&format!("s{}", np));
        Ok(np as u64)
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8]) -> Result<usize, i32> {
        if !self.fds.get(&fd).map(|f| f.readable).unwrap_or(false) {
            return Err(libc::EBADF);
        }
        self.pre_call()?;
        let (path, pos) = {
            let f = &self.fds[&fd];
            (f.path.clone(), f.pos)
        };
        let len = self.files.get(&path).map(|f| f.data.len()).unwrap_or(0) as u64;
        let mut n = (buf.len() as u64).min(len.saturating_sub(pos));
        let mut err = None;
        let mut fired: Vec<&'static str> = Vec::new();
        {
            let o = self.opm();
            for i in 0..o.faults.len() {
                let kind = o.faults[i].kind();
                match o.faults[i] {
                    Fault::ShortRead { max } => {
                        if n > max as u64 {
                            n = max as u64;
                            fired.push(kind);
                        }
                    }
                    Fault::ReadErr {
                        at,
                        skip,
                        errno,
                        sticky,
                    } => {
                        if buf.is_empty() || n == 0 {
                            continue;
                        }
                        if pos <= at && pos + n > at || (pos > at && sticky && o.consumed[i]) {
                            if o.consumed[i] && !sticky {
                                continue;
                            }
                            if !o.consumed[i] && o.read_hits < skip {
                                o.read_hits += 1;
                                continue;
                            }
                            o.consumed[i] = true;
                            o.hard_fired = true;
                            err = Some(errno);
                            fired.push(kind);
                        }
                    }
                    _ => {}
                }
            }
            if n == 0 {
                o.zero_reads += 1;
                if o.zero_reads > 20_000 {
                    // The code under test keeps polling an exhausted stream.
                    o.looped = true;
                    err = Some(libc::EIO);
                }
            }
        }
        for k in fired {
            self.fire(k);
        }
        if let Some(e) = err {
            self.note("read!");
            return Err(e);
        }
        let n = n as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.files[&path].data[pos as usize..pos as usize + n]);
        }
        self.fds.get_mut(&fd).unwrap().pos += n as u64;
        self.note(&format!("r{}", n));
        Ok(n)
    }

    pub fn truncate(&mut self, fd: i32, len: u64) -> Result<(), i32> {
        self.pre_call_noeintr()?;
        let Some(f) = self.fds.get(&fd) else {
            return Err(libc::EBADF);
        };
        let path = f.path.clone();
        self.files.entry(path).or_default().data.resize(len as usize, 0);
        Ok(())
    }

    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        self.pre_call_noeintr()?;
        let Some(f) = self.files.remove(a) else {
            return Err(libc::ENOENT);
        };
        self.files.insert(b.to_string(), f);
        self.note("rename");
        Ok(())
    }

    pub fn unlink(&mut self, a: &str) -> Result<(), i32> {
        self.pre_call_noeintr()?;
        if self.files.remove(a).is_none() {
            return Err(libc::ENOENT);
        }
        Ok(())
    }
}

// ---- stream seam: the reader/writer arguments of the *_to / *_from API ------

pub struct SimStream {
    fd: i32,
    /// What seeking relative to, for readers on owned bytes.
    pub closed: bool,
}

impl SimStream {
    pub fn open_write(path: &str) -> std::io::Result<Self> {
        let r = with_world(|w| w.open(path, libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, true));
        Ok(SimStream {
            fd: r.expect("no world").map_err(std::io::Error::from_raw_os_error)?,
            closed: false,
        })
    }
    pub fn open_read(path: &str) -> std::io::Result<Self> {
        let r = with_world(|w| w.open(path, libc::O_RDONLY, true));
        Ok(SimStream {
            fd: r.expect("no world").map_err(std::io::Error::from_raw_os_error)?,
            closed: false,
        })
    }
}

fn io_res<T>(r: Option<Result<T, i32>>) -> std::io::Result<T> {
    r.expect("no world").map_err(std::io::Error::from_raw_os_error)
}

impl std::io::Write for SimStream {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        crate::sched::step(true);
        io_res(with_world(|w| w.write(self.fd, buf)))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        crate::sched::step(true);
        io_res(with_world(|w| w.flush(self.fd)))
    }
}
impl std::io::Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        crate::sched::step(true);
        io_res(with_world(|w| w.read(self.fd, buf)))
    }
}
impl std::io::Seek for SimStream {
    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
        crate::sched::step(true);
        let (o, wh) = match pos {
            std::io::SeekFrom::Start(n) => (n as i64, libc::SEEK_SET),
            std::io::SeekFrom::Current(n) => (n, libc::SEEK_CUR),
            std::io::SeekFrom::End(n) => (n, libc::SEEK_END),
        };
        io_res(with_world(|w| w.seek(self.fd, o, wh)))
    }
}
impl Drop for SimStream {
    fn drop(&mut self) {
        // Whatever a lazy sink still holds is lost.
        let _ = with_world(|w| w.close(self.fd));
    }
}
