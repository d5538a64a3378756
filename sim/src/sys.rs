#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, clippy::missing_safety_doc)]
//! The simulated operating system: libc symbols which the code under test reaches (through the Rust standard
//! library or the `getrandom` crate) are defined here and take precedence over the C library at link time.
//!
//! A thread which has a [`Sys`] installed gets: randomness from a seeded stream, a simulated clock and, for paths
//! under [`ROOT`], a simulated disk with a page cache and a durable image. Every other thread and every other path
//! is passed through to the kernel unchanged.

use std::arch::asm;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::ptr::null_mut;

use crate::rng::Rng;

pub const ROOT: &str = "/simfs";
const FD_BASE: c_int = 0x4000_0000;

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;

thread_local! {
    static SYS: Cell<*mut Sys> = const { Cell::new(null_mut()) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

/// Which disk fault to inject into one disk operation.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum DiskFault {
    /// The call fails with EIO and does nothing.
    Eio,
    /// The call fails with ENOSPC; a write may have stored a part before.
    Enospc,
    /// The call is interrupted by a signal before doing anything (legal at any time).
    Eintr,
    /// A read or a write transfers fewer bytes than asked for (legal at any time).
    Short,
    /// Process killed right before this call; the page cache survives.
    Kill,
    /// Power failure right before this call: only synced data surely survives.
    Power,
    /// As `Power`, in the middle of this call.
    PowerMid,
}

#[derive(Clone, Default, Debug)]
struct Inode {
    is_dir: bool,
    /// Page cache content.
    data: Vec<u8>,
    /// Durable content, if the inode data were ever synced.
    durable: Vec<u8>,
    /// Whether the durable content differs from the cache.
    dirty: bool,
    /// Extents of the cache written since the last sync.
    writes: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
struct OpenFile {
    ino: u64,
    pos: usize,
    write: bool,
    append: bool,
    path: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum NsOp {
    Link(String, u64),
    Unlink(String),
    Rename(String, String),
}

/// Simulated disk.
#[derive(Default)]
pub struct Disk {
    inodes: BTreeMap<u64, Inode>,
    next_ino: u64,
    /// Namespace as the running system sees it.
    names: BTreeMap<String, u64>,
    /// Durable namespace.
    durable_names: BTreeMap<String, u64>,
    /// Namespace operations not yet durable, in order.
    ns_log: Vec<NsOp>,
    open: BTreeMap<c_int, OpenFile>,
    next_fd: c_int,
    /// Remaining capacity in bytes; used by the full-disk fault.
    pub free: Option<u64>,
}

fn parent(path: &str) -> String {
    match path.rfind('/') {
        Some(0) | None => "/".to_string(),
        Some(p) => path[..p].to_string(),
    }
}

fn apply_ns(names: &mut BTreeMap<String, u64>, op: &NsOp) {
    match op {
        NsOp::Link(p, ino) => {
            names.insert(p.clone(), *ino);
        }
        NsOp::Unlink(p) => {
            names.remove(p);
        }
        NsOp::Rename(a, b) => {
            if let Some(ino) = names.remove(a) {
                names.insert(b.clone(), ino);
            }
        }
    }
}

impl Disk {
    fn new() -> Self {
        let mut d = Disk { next_ino: 2, next_fd: FD_BASE, ..Default::default() };
        d.inodes.insert(1, Inode { is_dir: true, ..Default::default() });
        d.names.insert(ROOT.to_string(), 1);
        d.durable_names.insert(ROOT.to_string(), 1);
        d
    }

    fn touches(op: &NsOp, dir: &str) -> bool {
        match op {
            NsOp::Link(p, _) | NsOp::Unlink(p) => parent(p) == dir,
            NsOp::Rename(a, b) => parent(a) == dir || parent(b) == dir,
        }
    }

    fn sync_inode(&mut self, ino: u64) {
        let Some(node) = self.inodes.get_mut(&ino) else { return };
        if node.is_dir {
            let dirs: Vec<String> =
                self.names.iter().filter(|(_, i)| **i == ino).map(|(n, _)| n.clone()).collect();
            let mut rest = vec![];
            for op in std::mem::take(&mut self.ns_log) {
                if dirs.iter().any(|d| Self::touches(&op, d)) {
                    apply_ns(&mut self.durable_names, &op);
                } else {
                    rest.push(op);
                }
            }
            self.ns_log = rest;
        } else {
            node.durable = node.data.clone();
            node.writes.clear();
            node.dirty = false;
            // A journalling file system commits the creation of a file together with its data.
            let mut rest = vec![];
            for op in std::mem::take(&mut self.ns_log) {
                match &op {
                    NsOp::Link(_, i) if *i == ino => apply_ns(&mut self.durable_names, &op),
                    _ => rest.push(op),
                }
            }
            self.ns_log = rest;
        }
    }

    /// What the next boot of the node with its files under `dir` finds. With `power == false` everything written so
    /// far survives.
    pub fn crash(&mut self, dir: &str, power: bool, rng: &mut Rng) -> String {
        let mut note = String::new();
        self.open.clear();
        if !power {
            return note;
        }
        // Other nodes have other disks
        let here = format!("{dir}/");
        let inside = |p: &str| p.starts_with(&here);
        let mut rest = vec![];
        for op in std::mem::take(&mut self.ns_log) {
            match &op {
                NsOp::Link(p, _) | NsOp::Unlink(p) | NsOp::Rename(_, p) if inside(p) => rest.push(op),
                _ => apply_ns(&mut self.durable_names, &op),
            }
        }
        self.ns_log = rest;
        for (p, i) in &self.names {
            if !inside(p) {
                if let Some(n) = self.inodes.get_mut(i) {
                    n.durable = n.data.clone();
                    n.dirty = false;
                    n.writes.clear();
                }
            }
        }
        // Namespace: a seeded prefix of the pending operations made it to the journal.
        let keep = rng.below(self.ns_log.len() as u64 + 1) as usize;
        for op in self.ns_log.iter().take(keep) {
            apply_ns(&mut self.durable_names, op);
        }
        note += &format!("ns {}/{} ", keep, self.ns_log.len());
        self.ns_log.clear();
        self.names = self.durable_names.clone();
        // Data: per dirty file either nothing, everything, a prefix, or a torn mixture survived.
        for (ino, node) in self.inodes.iter_mut() {
            if node.is_dir || !node.dirty {
                continue;
            }
            let mode = rng.below(5);
            let next = match mode {
                0 => node.durable.clone(),
                1 => node.data.clone(),
                2 => {
                    let n = rng.below(node.data.len() as u64 + 1) as usize;
                    node.data[..n].to_vec()
                }
                3 => {
                    // Truncated to zero length: metadata written, data lost.
                    vec![]
                }
                _ => {
                    // Torn in 512-byte sectors between old and new content; the size is the new one.
                    let mut v = node.data.clone();
                    for (i, chunk) in v.chunks_mut(512).enumerate() {
                        if rng.below(2) == 0 {
                            for (j, b) in chunk.iter_mut().enumerate() {
                                *b = node.durable.get(i * 512 + j).copied().unwrap_or(0);
                            }
                        }
                    }
                    v
                }
            };
            note += &format!("ino{} mode{} {}b ", ino, mode, next.len());
            node.data = next.clone();
            node.durable = next;
            node.dirty = false;
            node.writes.clear();
        }
        let used: BTreeSet<u64> = self.names.values().copied().collect();
        self.inodes.retain(|i, _| used.contains(i));
        note
    }

    pub fn remove_tree(&mut self, prefix: &str) {
        self.names.retain(|p, _| !p.starts_with(prefix));
        self.durable_names.retain(|p, _| !p.starts_with(prefix));
        self.ns_log.clear();
    }

    pub fn file(&self, path: &str) -> Option<&[u8]> {
        self.names.get(path).map(|i| self.inodes[i].data.as_slice())
    }

    pub fn put_file(&mut self, path: &str, data: Vec<u8>) {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, Inode { data: data.clone(), durable: data, ..Default::default() });
        self.names.insert(path.to_string(), ino);
        self.durable_names.insert(path.to_string(), ino);
    }

    pub fn list(&self) -> Vec<(String, usize)> {
        self.names.iter().map(|(p, i)| (p.clone(), self.inodes[i].data.len())).collect()
    }
}

pub struct Sys {
    pub disk: Disk,
    pub entropy: Rng,
    /// Entropy bytes handed out.
    pub entropy_used: u64,
    /// Simulated time, nanoseconds since the Unix epoch, with the skew of the node which currently runs.
    pub now_ns: i128,
    pub skew_ns: i128,
    pub clock_reads: u64,
    /// Number of disk operations so far.
    pub disk_ops: u64,
    /// Faults by disk operation number (relative to the arming point).
    pub plan: BTreeMap<u64, DiskFault>,
    pub plan_base: u64,
    /// The plan starts with the first operation naming this.
    pub plan_from: Option<String>,
    /// Whether a planned fault was delivered since the arming point.
    pub plan_hit: bool,
    /// Probability (in 1/1000) of legal short or interrupted transfers.
    pub legal_noise: u64,
    pub noise: Rng,
    /// The node died: every further disk operation fails without effect.
    pub dead: Option<DiskFault>,
    pub injected: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub stderr: Vec<u8>,
}

impl Sys {
    pub fn new(seed: u64) -> Box<Sys> {
        Box::new(Sys {
            disk: Disk::new(),
            entropy: Rng::new(seed ^ 0x656e_7472_6f70_7921),
            entropy_used: 0,
            now_ns: 1_700_000_000i128 * 1_000_000_000,
            skew_ns: 0,
            clock_reads: 0,
            disk_ops: 0,
            plan: BTreeMap::new(),
            plan_base: 0,
            plan_from: None,
            plan_hit: false,
            legal_noise: 0,
            noise: Rng::new(seed ^ 0x6e6f_6973_65),
            dead: None,
            injected: BTreeMap::new(),
            trace: None,
            stderr: vec![],
        })
    }

    pub fn install(sys: *mut Sys) { SYS.with(|s| s.set(sys)); }
    pub fn uninstall() { SYS.with(|s| s.set(null_mut())); }

    pub fn arm(&mut self, plan: BTreeMap<u64, DiskFault>) {
        self.plan_base = self.disk_ops;
        self.plan_from = None;
        self.plan_hit = false;
        self.plan = plan;
    }
    /// The same, counting from the first operation on a file with the name.
    pub fn arm_from(&mut self, name: &str, plan: BTreeMap<u64, DiskFault>) {
        self.arm(plan);
        self.plan_from = Some(name.to_owned());
    }
    pub fn disarm(&mut self) {
        self.plan.clear();
        self.plan_from = None;
    }

    fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let s = f();
            t.push(s);
        }
    }

    fn count(&mut self, kind: &'static str) { *self.injected.entry(kind).or_default() += 1; }

    /// Decides the fate of the next disk operation. `Err(errno)` means the call fails without effect; `Ok(true)`
    /// that it must transfer less than asked.
    fn gate(&mut self, what: &str, transfer: bool, syncable: bool) -> Result<Option<DiskFault>, i32> {
        if self.dead.is_some() {
            return Err(EIO);
        }
        if self.plan_from.as_ref().is_some_and(|name| what.contains(name.as_str())) {
            self.plan_base = self.disk_ops;
            self.plan_from = None;
        }
        let n = self.disk_ops - self.plan_base;
        self.disk_ops += 1;
        let fault = if self.plan_from.is_some() { None } else { self.plan.remove(&n) };
        if fault.is_some() {
            self.plan_hit = true;
        }
        let r = match fault {
            Some(DiskFault::Eio) => {
                self.count("disk_eio");
                Err(EIO)
            }
            Some(DiskFault::Enospc) if transfer => {
                self.count("disk_enospc");
                Ok(fault)
            }
            Some(DiskFault::Enospc) => {
                self.count("disk_enospc");
                Err(ENOSPC)
            }
            Some(DiskFault::Eintr) if transfer => {
                self.count("disk_eintr");
                Err(EINTR)
            }
            Some(DiskFault::Short) if transfer => {
                self.count("disk_short");
                Ok(fault)
            }
            Some(DiskFault::Eintr) | Some(DiskFault::Short) => Ok(None),
            Some(DiskFault::Kill) => {
                self.count("crash_kill");
                self.dead = fault;
                Err(EIO)
            }
            Some(DiskFault::Power) => {
                self.count("crash_power");
                self.dead = fault;
                Err(EIO)
            }
            Some(DiskFault::PowerMid) => {
                self.count("crash_power_mid_call");
                if transfer || syncable {
                    Ok(fault)
                } else {
                    self.dead = fault;
                    Err(EIO)
                }
            }
            None => {
                if transfer && self.legal_noise > 0 && self.noise.below(1000) < self.legal_noise {
                    if self.noise.below(2) == 0 {
                        self.count("disk_eintr");
                        Err(EINTR)
                    } else {
                        self.count("disk_short");
                        Ok(Some(DiskFault::Short))
                    }
                } else {
                    Ok(None)
                }
            }
        };
        if self.trace.is_some() {
            let w = what.to_string();
            self.log(|| format!("disk#{} {} {:?}", n, w, r));
        }
        r
    }

    fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, i32> {
        self.gate(&format!("open {path} {flags:#o}"), false, false)?;
        let create = flags & 0o100 != 0;
        let excl = flags & 0o200 != 0;
        let trunc = flags & 0o1000 != 0;
        let append = flags & 0o2000 != 0;
        let write = flags & 0o3 != 0;
        let ino = match self.disk.names.get(path) {
            Some(_) if create && excl => return Err(EEXIST),
            Some(i) => *i,
            None if create => {
                match self.disk.names.get(&parent(path)) {
                    Some(p) if self.disk.inodes[p].is_dir => {}
                    _ => return Err(ENOENT),
                }
                let ino = self.disk.next_ino;
                self.disk.next_ino += 1;
                self.disk.inodes.insert(ino, Inode::default());
                self.disk.names.insert(path.to_string(), ino);
                self.disk.ns_log.push(NsOp::Link(path.to_string(), ino));
                ino
            }
            None => return Err(ENOENT),
        };
        let node = self.disk.inodes.get_mut(&ino).unwrap();
        if node.is_dir && write {
            return Err(EISDIR);
        }
        if trunc && write && !node.data.is_empty() {
            node.data.clear();
            node.dirty = true;
        }
        let fd = self.disk.next_fd;
        self.disk.next_fd += 1;
        self.disk.open.insert(fd, OpenFile { ino, pos: 0, write, append, path: path.to_string() });
        Ok(fd)
    }

    fn write(&mut self, fd: c_int, buf: &[u8], at: Option<usize>) -> Result<usize, i32> {
        let fault = self.gate(&format!("write {} bytes fd{}", buf.len(), fd - FD_BASE), true, false)?;
        let f = self.disk.open.get(&fd).ok_or(EBADF)?;
        if !f.write {
            return Err(EBADF);
        }
        let ino = f.ino;
        let node_len = self.disk.inodes[&ino].data.len();
        let pos = at.unwrap_or(if f.append { node_len } else { f.pos });
        let mut n = buf.len();
        let mut fail = None;
        match fault {
            Some(DiskFault::Short) if n > 1 => n = 1 + self.noise.below(n as u64 - 1) as usize,
            Some(DiskFault::Enospc) => {
                n = self.noise.below(n as u64 + 1) as usize;
                if n == buf.len() {
                    n = 0;
                }
                if n == 0 {
                    fail = Some(ENOSPC);
                }
            }
            Some(DiskFault::PowerMid) => {
                n = self.noise.below(n as u64 + 1) as usize;
                fail = Some(EIO);
            }
            _ => {}
        }
        if let Some(free) = self.disk.free {
            let grow = (pos + n).saturating_sub(node_len) as u64;
            if grow > free {
                *self.injected.entry("disk_full").or_default() += 1;
                n = n.saturating_sub((grow - free) as usize);
                if n == 0 {
                    return Err(ENOSPC);
                }
            }
            self.disk.free = Some(free.saturating_sub((pos + n).saturating_sub(node_len) as u64));
        }
        let node = self.disk.inodes.get_mut(&ino).ok_or(EBADF)?;
        if node.data.len() < pos + n {
            node.data.resize(pos + n, 0);
        }
        node.data[pos..pos + n].copy_from_slice(&buf[..n]);
        if n > 0 {
            node.dirty = true;
        }
        if at.is_none() {
            self.disk.open.get_mut(&fd).unwrap().pos = pos + n;
        }
        if fault == Some(DiskFault::PowerMid) {
            self.dead = fault;
        }
        match fail {
            Some(e) => Err(e),
            None => Ok(n),
        }
    }

    fn read(&mut self, fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        let fault = self.gate(&format!("read {} bytes fd{}", buf.len(), fd - FD_BASE), true, false)?;
        let f = self.disk.open.get_mut(&fd).ok_or(EBADF)?;
        let node = self.disk.inodes.get(&f.ino).ok_or(EBADF)?;
        if node.is_dir {
            return Err(EISDIR);
        }
        let pos = at.unwrap_or(f.pos);
        let mut n = buf.len().min(node.data.len().saturating_sub(pos));
        match fault {
            Some(DiskFault::Short) if n > 1 => n = 1 + self.noise.below(n as u64 - 1) as usize,
            Some(DiskFault::Enospc) => return Err(EIO),
            Some(DiskFault::PowerMid) => {
                self.dead = fault;
                return Err(EIO);
            }
            _ => {}
        }
        buf[..n].copy_from_slice(&node.data[pos..pos + n]);
        if at.is_none() {
            f.pos = pos + n;
        }
        Ok(n)
    }

    fn fsync(&mut self, fd: c_int) -> Result<(), i32> {
        let fault = self.gate(&format!("fsync fd{}", fd - FD_BASE), false, true)?;
        let ino = self.disk.open.get(&fd).ok_or(EBADF)?.ino;
        if fault == Some(DiskFault::PowerMid) {
            self.dead = fault;
            return Err(EIO);
        }
        self.disk.sync_inode(ino);
        Ok(())
    }

    fn truncate(&mut self, fd: c_int, len: usize) -> Result<(), i32> {
        self.gate(&format!("ftruncate {len} fd{}", fd - FD_BASE), false, false)?;
        let ino = self.disk.open.get(&fd).ok_or(EBADF)?.ino;
        let node = self.disk.inodes.get_mut(&ino).ok_or(EBADF)?;
        node.data.resize(len, 0);
        node.dirty = true;
        Ok(())
    }

    fn seek(&mut self, fd: c_int, off: i64, whence: c_int) -> Result<i64, i32> {
        let f = self.disk.open.get_mut(&fd).ok_or(EBADF)?;
        let len = self.disk.inodes.get(&f.ino).ok_or(EBADF)?.data.len() as i64;
        let base = match whence {
            0 => 0,
            1 => f.pos as i64,
            2 => len,
            _ => return Err(EINVAL),
        };
        let p = base + off;
        if p < 0 {
            return Err(EINVAL);
        }
        f.pos = p as usize;
        Ok(p)
    }

    fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        self.gate(&format!("rename {a} {b}"), false, false)?;
        if !self.disk.names.contains_key(a) || !self.disk.names.contains_key(&parent(b)) {
            return Err(ENOENT);
        }
        let op = NsOp::Rename(a.to_string(), b.to_string());
        apply_ns(&mut self.disk.names, &op);
        self.disk.ns_log.push(op);
        Ok(())
    }

    fn unlink(&mut self, a: &str) -> Result<(), i32> {
        self.gate(&format!("unlink {a}"), false, false)?;
        if !self.disk.names.contains_key(a) {
            return Err(ENOENT);
        }
        let op = NsOp::Unlink(a.to_string());
        apply_ns(&mut self.disk.names, &op);
        self.disk.ns_log.push(op);
        Ok(())
    }

    fn mkdir(&mut self, a: &str) -> Result<(), i32> {
        self.gate(&format!("mkdir {a}"), false, false)?;
        if self.disk.names.contains_key(a) {
            return Err(EEXIST);
        }
        if !self.disk.names.contains_key(&parent(a)) {
            return Err(ENOENT);
        }
        let ino = self.disk.next_ino;
        self.disk.next_ino += 1;
        self.disk.inodes.insert(ino, Inode { is_dir: true, ..Default::default() });
        let op = NsOp::Link(a.to_string(), ino);
        apply_ns(&mut self.disk.names, &op);
        // Directory creation is taken as durable: it happens once, long before anything of interest.
        apply_ns(&mut self.disk.durable_names, &op);
        Ok(())
    }

    fn stat(&mut self, path: &str) -> Result<(u64, bool, u64), i32> {
        if self.dead.is_some() {
            return Err(EIO);
        }
        let ino = *self.disk.names.get(path).ok_or(ENOENT)?;
        let n = &self.disk.inodes[&ino];
        Ok((ino, n.is_dir, n.data.len() as u64))
    }

    fn fstat(&mut self, fd: c_int) -> Result<(u64, bool, u64), i32> {
        if self.dead.is_some() {
            return Err(EIO);
        }
        let ino = self.disk.open.get(&fd).ok_or(EBADF)?.ino;
        let n = self.disk.inodes.get(&ino).ok_or(EBADF)?;
        Ok((ino, n.is_dir, n.data.len() as u64))
    }

    fn close(&mut self, fd: c_int) -> Result<(), i32> { self.disk.open.remove(&fd).map(|_| ()).ok_or(EBADF) }

    #[allow(dead_code)]
    pub fn open_files(&self) -> Vec<String> { self.disk.open.values().map(|f| f.path.clone()).collect() }
}

// --------------------------------------------------------------------------------------------------------------
// Pass-through system calls

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

unsafe fn res(r: Result<usize, i32>) -> isize {
    match r {
        Ok(v) => v as isize,
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}

#[inline]
fn cur() -> Option<&'static mut Sys> {
    // The pointer is only ever set for the current thread and outlives its installation.
    let p = SYS.try_with(|s| s.get()).unwrap_or(null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

unsafe fn sim_path<'a>(path: *const c_char) -> Option<(&'static mut Sys, &'a str)> {
    let sys = cur()?;
    let s = CStr::from_ptr(path).to_str().ok()?;
    let s = if s.len() > 1 { s.trim_end_matches('/') } else { s };
    if s == ROOT || s.starts_with("/simfs/") {
        Some((sys, s))
    } else {
        None
    }
}

unsafe fn sim_fd(fd: c_int) -> Option<&'static mut Sys> {
    if fd < FD_BASE {
        return None;
    }
    cur()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    match cur() {
        Some(s) => {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            s.entropy.fill(b);
            s.entropy_used += len as u64;
            len as isize
        }
        None => ret(raw(318, buf as usize, len, flags as usize, 0, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut [i64; 2]) -> c_int {
    match cur() {
        Some(s) => {
            s.clock_reads += 1;
            let t = s.now_ns + if clk == 0 { s.skew_ns } else { 0 };
            (*ts)[0] = t.div_euclid(1_000_000_000) as i64;
            (*ts)[1] = t.rem_euclid(1_000_000_000) as i64;
            0
        }
        None => ret(raw(228, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int,
    }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    match sim_path(path) {
        Some((s, p)) => res(s.open(p, flags).map(|fd| fd as usize)) as c_int,
        None => ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }

unsafe fn do_openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    match sim_path(path) {
        Some((s, p)) => res(s.open(p, flags).map(|fd| fd as usize)) as c_int,
        None => ret(raw(257, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_openat(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_openat(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if let Some(s) = sim_fd(fd) {
        return res(s.write(fd, std::slice::from_raw_parts(buf as *const u8, n), None));
    }
    if fd == 2 || fd == 1 {
        // What the code under test prints from inside a simulation is kept out of the check's output.
        if let Some(s) = cur() {
            if s.stderr.len() < 1 << 16 {
                s.stderr.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
            }
            return n as isize;
        }
    }
    ret(raw(1, fd as usize, buf as usize, n, 0, 0, 0))
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    let sim = sim_fd(fd).is_some() || ((fd == 1 || fd == 2) && cur().is_some());
    if sim {
        let mut total = 0;
        for v in std::slice::from_raw_parts(iov, cnt as usize) {
            if v.len == 0 {
                continue;
            }
            let r = write(fd, v.base, v.len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.len {
                break;
            }
        }
        return total;
    }
    ret(raw(20, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match sim_fd(fd) {
        Some(s) => res(s.read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None)),
        None => ret(raw(0, fd as usize, buf as usize, n, 0, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if sim_fd(fd).is_some() {
        let mut total = 0;
        for v in std::slice::from_raw_parts(iov, cnt as usize) {
            if v.len == 0 {
                continue;
            }
            let r = read(fd, v.base, v.len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.len {
                break;
            }
        }
        return total;
    }
    ret(raw(19, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match sim_fd(fd) {
        Some(s) => res(s.read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as usize))),
        None => ret(raw(17, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    match sim_fd(fd) {
        Some(s) => res(s.write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as usize))),
        None => ret(raw(18, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(s) => res(s.close(fd).map(|_| 0)) as c_int,
        None => ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(s) => res(s.fsync(fd).map(|_| 0)) as c_int,
        None => ret(raw(74, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(s) => res(s.fsync(fd).map(|_| 0)) as c_int,
        None => ret(raw(75, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    match sim_fd(fd) {
        Some(s) => res(s.truncate(fd, len as usize).map(|_| 0)) as c_int,
        None => ret(raw(77, fd as usize, len as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int { do_ftruncate(fd, len) }
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int { do_ftruncate(fd, len) }

unsafe fn do_lseek(fd: c_int, off: i64, w: c_int) -> i64 {
    match sim_fd(fd) {
        Some(s) => res(s.seek(fd, off, w).map(|v| v as usize)) as i64,
        None => ret(raw(8, fd as usize, off as usize, w as usize, 0, 0, 0)) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, w: c_int) -> i64 { do_lseek(fd, off, w) }
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, w: c_int) -> i64 { do_lseek(fd, off, w) }

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some((s, p)), Some((_, q))) => res(s.rename(p, q).map(|_| 0)) as c_int,
        _ => ret(raw(82, a as usize, b as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    match sim_path(a) {
        Some((s, p)) => res(s.unlink(p).map(|_| 0)) as c_int,
        None => ret(raw(87, a as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    match sim_path(a) {
        Some((s, p)) => res(s.mkdir(p).map(|_| 0)) as c_int,
        None => ret(raw(83, a as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}

unsafe fn fill_stat(st: *mut u8, r: Result<(u64, bool, u64), i32>) -> c_int {
    match r {
        Ok((ino, dir, size)) => {
            std::ptr::write_bytes(st, 0, 144);
            *(st.add(8) as *mut u64) = ino;
            *(st.add(16) as *mut u64) = 1;
            *(st.add(24) as *mut u32) = if dir { 0o040755 } else { 0o100644 };
            *(st.add(48) as *mut i64) = size as i64;
            *(st.add(56) as *mut i64) = 4096;
            0
        }
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
unsafe fn do_stat(p: *const c_char, st: *mut u8, nr: c_long) -> c_int {
    match sim_path(p) {
        Some((s, p)) => fill_stat(st, s.stat(p)),
        None => ret(raw(nr, p as usize, st as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut u8) -> c_int { do_stat(p, st, 4) }
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut u8) -> c_int { do_stat(p, st, 4) }
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut u8) -> c_int { do_stat(p, st, 6) }
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut u8) -> c_int { do_stat(p, st, 6) }
unsafe fn do_fstat(fd: c_int, st: *mut u8) -> c_int {
    match sim_fd(fd) {
        Some(s) => fill_stat(st, s.fstat(fd)),
        None => ret(raw(5, fd as usize, st as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut u8) -> c_int { do_fstat(fd, st) }
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int { do_fstat(fd, st) }

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    let r = if let Some(s) = sim_fd(dir) {
        s.fstat(dir)
    } else if !path.is_null() {
        match sim_path(path) {
            Some((s, p)) => s.stat(p),
            None => {
                return ret(raw(332, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0))
                    as c_int
            }
        }
    } else {
        return ret(raw(332, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int;
    };
    match r {
        Ok((ino, is_dir, size)) => {
            std::ptr::write_bytes(buf, 0, 256);
            *(buf as *mut u32) = 0x7ff;
            *(buf.add(4) as *mut u32) = 4096;
            *(buf.add(16) as *mut u32) = 1;
            *(buf.add(28) as *mut u16) = if is_dir { 0o040755 } else { 0o100644 };
            *(buf.add(32) as *mut u64) = ino;
            *(buf.add(40) as *mut u64) = size;
            0
        }
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}

/// Commands on simulated descriptors the standard library may issue (validity checks, locks).
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => ret(raw(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => ret(raw(73, fd as usize, op as usize, 0, 0, 0, 0)) as c_int,
    }
}

// --------------------------------------------------------------------------------------------------------------
// Work counter: heap allocations made by the current thread are the simulator's unit of computing effort.

pub struct CountingAlloc;

/// Requests of this size are served by address space only, without memory behind: damaged length fields
/// make the decoders of a dependency reserve what the field says (known finding), which would end the
/// process before anything else can be observed.
const HUGE: usize = 1 << 30;

unsafe fn reserve(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let r = raw(9, 0, n, 3, 0x4022, usize::MAX, 0);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        r as *mut u8
    }
}

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        if l.size() >= HUGE {
            return reserve(l.size());
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        if l.size() >= HUGE {
            return reserve(l.size());
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.size() >= HUGE {
            raw(11, p as usize, l.size(), 0, 0, 0, 0);
        } else {
            std::alloc::System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.size() < HUGE && n < HUGE {
            return std::alloc::System.realloc(p, l, n);
        }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Allocations and comparisons of memory made so far by this thread.
pub fn work() -> u64 { ALLOCS.with(|a| a.get()) }

unsafe fn compare(mut a: *const u8, mut b: *const u8, mut n: usize) -> c_int {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
    while n >= 8 {
        let x = (a as *const u64).read_unaligned();
        let y = (b as *const u64).read_unaligned();
        if x != y {
            return if x.swap_bytes() < y.swap_bytes() { -1 } else { 1 };
        }
        a = a.add(8);
        b = b.add(8);
        n -= 8;
    }
    while n > 0 {
        let (x, y) = (a.read_volatile(), b.read_volatile());
        if x != y {
            return x as c_int - y as c_int;
        }
        a = a.add(1);
        b = b.add(1);
        n -= 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int { compare(a as *const u8, b as *const u8, n) }

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> c_int { compare(a as *const u8, b as *const u8, n) }

/// The variadic entry point some crates use instead of the named wrappers.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    match n {
        318 => getrandom(a as *mut c_void, b, c as u32) as c_long,
        228 => clock_gettime(a as c_int, b as *mut [i64; 2]) as c_long,
        332 => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut u8) as c_long,
        _ => ret(raw(n, a, b, c, d, e, f)) as c_long,
    }
}
