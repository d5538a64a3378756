//! C11: containers through files, streams and armored texts over unreliable transports.

use std::fmt::Display;
use std::io::{self, Read, Write};
use std::str::FromStr;

use amplify::confinement::{Confined, MediumBlob, SmallOrdMap};
use rgbstd::AttachId;
use rgbstd::containers::{Contract, FileContent, Kit, Transfer, UniversalFile};
use rgbstd::interface::{Iface, IfaceImpl};

use crate::forge;
use crate::rng::Rng;
use crate::sys::DiskFault;
use crate::truth::ser;
use crate::world::{decode_contract, decode_transfer, guard, known_abort, Fault, MsgKind, World};

/// Splits reads arbitrarily, interrupts them, and may fail or end at some point.
pub struct Chopped<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Rng,
    fail_at: Option<usize>,
}

impl Read for Chopped<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 12) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
        if self.pos >= end {
            return match self.fail_at {
                Some(_) => Err(io::Error::new(io::ErrorKind::TimedOut, "simulated timeout")),
                None => Ok(0),
            };
        }
        let max = [1, 3, 7, 64, 4096][self.rng.below(5) as usize];
        let n = (1 + self.rng.below(max) as usize).min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Takes bytes in pieces; may stop taking them at some point.
pub struct Funnel<'a> {
    data: &'a mut Vec<u8>,
    rng: Rng,
    fail_at: Option<usize>,
    zero: bool,
    pub failed: &'a std::cell::Cell<bool>,
}

impl Write for Funnel<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 12) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let room = self.fail_at.map(|n| n.saturating_sub(self.data.len())).unwrap_or(usize::MAX);
        if room == 0 {
            self.failed.set(true);
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated broken pipe"));
        }
        let max = [1, 3, 7, 64, 4096][self.rng.below(5) as usize];
        let n = (1 + self.rng.below(max) as usize).min(buf.len()).min(room);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_at.is_some_and(|n| self.data.len() >= n) && self.rng.chance(1, 2) {
            self.failed.set(true);
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated broken pipe"));
        }
        Ok(())
    }
}

pub trait Parcel: FileContent + Clone + Display + FromStr {
    fn ident(&self) -> String;
    fn content(&self) -> Vec<u8>;
    /// Whether the identifiers inside are inconsistent, which validation of the content exposes.
    fn exposed(&self) -> bool;
    fn type_defs(&self) -> Vec<u8>;
    fn universal(&self) -> UniversalFile;
    fn from_universal(u: UniversalFile) -> Option<Self>;
}

fn mismatch<'a>(it: impl Iterator<Item = (&'a Iface, &'a IfaceImpl)>) -> bool {
    it.into_iter().any(|(i, m)| i.iface_id() != m.iface_id)
}

macro_rules! consignment {
    ($t:ty, $v:ident, $transfer:expr) => {
        impl Parcel for $t {
            fn ident(&self) -> String { self.consignment_id().to_string() }
            fn content(&self) -> Vec<u8> { ser(self) }
            fn exposed(&self) -> bool {
                self.schema.schema_id() != self.genesis.schema_id
                    || self.transfer != $transfer
                    || mismatch(self.ifaces.iter())
            }
            fn type_defs(&self) -> Vec<u8> { ser(&self.types) }
            fn universal(&self) -> UniversalFile { UniversalFile::from(self.clone()) }
            fn from_universal(u: UniversalFile) -> Option<Self> {
                match u {
                    UniversalFile::$v(x) => Some(x),
                    _ => None,
                }
            }
        }
    };
}
consignment!(Contract, Contract, false);
consignment!(Transfer, Transfer, true);

impl Parcel for Kit {
    fn ident(&self) -> String { self.kit_id().to_string() }
    fn content(&self) -> Vec<u8> { ser(self) }
    fn exposed(&self) -> bool { false }
    fn type_defs(&self) -> Vec<u8> { ser(&self.types) }
    fn universal(&self) -> UniversalFile { UniversalFile::from(self.clone()) }
    fn from_universal(u: UniversalFile) -> Option<Self> {
        match u {
            UniversalFile::Kit(x) => Some(x),
            _ => None,
        }
    }
}

/// Files of up to a hundred kilobytes and more.
fn attachments(r: &mut Rng) -> SmallOrdMap<AttachId, MediumBlob> {
    let mut map = std::collections::BTreeMap::new();
    for _ in 0..1 + r.below(2) {
        let bits = 4 + r.below(14);
        let mut data = vec![0u8; (1 << bits) + r.below(1 << bits) as usize];
        let mut fill = r.fork();
        for chunk in data.chunks_mut(8) {
            chunk.copy_from_slice(&fill.next().to_le_bytes()[..chunk.len()]);
        }
        let mut id = [0u8; 32];
        id[..8].copy_from_slice(&r.next().to_le_bytes());
        map.insert(AttachId::from(id), MediumBlob::try_from(data).expect("below 16 MB"));
    }
    Confined::try_from(map).expect("few")
}

impl World {
    pub fn container(&mut self, r: &mut Rng) {
        let parcels: Vec<(bool, Vec<u8>, bool)> = self
            .sent
            .iter()
            .filter(|m| m.intact && m.kind != MsgKind::Kit)
            .map(|m| (m.kind == MsgKind::Contract, m.bytes.clone(), m.armored))
            .collect();
        let n = r.below(3);
        if n == 0 || parcels.is_empty() {
            let rich = r.chance(2, 3);
            let mut kit = self.kit(rich);
            self.decorate(r, &mut kit);
            return self.parcel(r, &kit);
        }
        let (contract, bytes, armored) = r.pick(&parcels).unwrap().clone();
        if contract {
            if let Ok(Ok(mut c)) = guard(|| decode_contract(&bytes, armored)) {
                if r.chance(1, 8) {
                    c.attachments = attachments(r);
                    return self.bulky(r, &c);
                }
                self.parcel(r, &c);
            }
        } else if let Ok(Ok(mut t)) = guard(|| decode_transfer(&bytes, armored)) {
            if r.chance(1, 8) {
                t.attachments = attachments(r);
                return self.bulky(r, &t);
            }
            self.parcel(r, &t);
        }
    }

    /// A container with files in it.
    fn bulky<T: Parcel>(&mut self, r: &mut Rng, x: &T)
    where T::Err: std::fmt::Debug {
        match r.below(3) {
            0 => self.over_stream(r, x),
            1 => self.over_file(r, x),
            _ => self.over_text(r, x),
        }
        self.count("containers with files carried");
    }

    fn parcel<T: Parcel>(&mut self, r: &mut Rng, x: &T)
    where T::Err: std::fmt::Debug {
        match r.below(8) {
            0 => self.over_stream(r, x),
            1 | 2 => self.over_file(r, x),
            3 => self.over_text(r, x),
            4 => self.broken_stream(r, x),
            _ => self.damaged(r, x),
        }
        self.count("containers carried");
    }

    fn same<T: Parcel>(&mut self, x: &T, got: Result<Result<T, String>, String>, how: &str) {
        match got {
            Ok(Ok(y)) => {
                if y.content() != x.content() {
                    self.fail(&["C11"], format!("container carried {how} is different"));
                } else if y.ident() != x.ident() {
                    self.fail(&["C11"], format!("container carried {how} has another identifier"));
                }
            }
            Ok(Err(e)) => self.fail(&["C11"], format!("container carried {how} can't be read: {}", crate::world::brief(&e))),
            Err(p) => self.fail(&["C11", "C17"], format!("reading a container carried {how} aborts: {p}")),
        }
    }

    /// Content which was read in spite of damage must not pass for the original.
    fn deceived<T: Parcel>(&mut self, x: &T, got: Result<Result<T, String>, String>, how: &str) {
        match got {
            Ok(Ok(y)) => {
                if y.content() == x.content() {
                    return;
                }
                if y.type_defs() != x.type_defs() {
                    // Known finding: type definitions are not authenticated
                    return;
                }
                if y.ident() == x.ident() && !y.exposed() {
                    self.fail(&["C11", "C04"], format!("{how}: another container is read under the original identifier"));
                }
            }
            Ok(Err(_)) => self.count("damaged containers refused"),
            Err(p) if known_abort(&p) => self.count("damaged range proofs (known finding)"),
            Err(p) => self.fail(&["C11", "C17", "C04"], format!("{how}: reading aborts: {p}")),
        }
    }

    fn over_stream<T: Parcel>(&mut self, r: &mut Rng, x: &T) {
        let mut data = vec![];
        let failed = std::cell::Cell::new(false);
        let universal = r.chance(1, 3);
        let w = Funnel { data: &mut data, rng: r.fork(), fail_at: None, zero: false, failed: &failed };
        let res = guard(|| if universal { x.universal().save(w) } else { x.save(w) });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return self.fail(&["C11"], format!("writing to a slow stream fails: {e}")),
            Err(p) => return self.fail(&["C11", "C17"], format!("writing to a slow stream aborts: {p}")),
        }
        let rd = Chopped { data: &data, pos: 0, rng: r.fork(), fail_at: None };
        let got = guard(|| {
            if r.chance(1, 3) {
                UniversalFile::load(rd).map_err(|e| e.to_string()).map(|u| T::from_universal(u).ok_or(s!("kind")))?
            } else {
                T::load(rd).map_err(|e| e.to_string())
            }
        });
        self.same(x, got, "over a slow stream");
    }

    fn broken_stream<T: Parcel>(&mut self, r: &mut Rng, x: &T) {
        let mut full = vec![];
        if x.save(&mut full).is_err() {
            return self.fail(&["C11"], "writing into memory fails");
        }
        let n = full.len() as u64;
        // mostly near the ends, where buffering hides failures
        let at = match r.below(4) {
            0 => r.below(16.min(n)),
            1 => n - 1 - r.below(16.min(n)),
            _ => r.below(n),
        } as usize;
        if r.chance(1, 2) {
            let mut data = vec![];
            let failed = std::cell::Cell::new(false);
            let zero = r.chance(1, 4);
            let universal = r.chance(1, 3);
            let w = Funnel { data: &mut data, rng: r.fork(), fail_at: Some(at), zero, failed: &failed };
            let res = guard(|| if universal { x.universal().save(w) } else { x.save(w) });
            match res {
                Ok(Ok(())) => self.fail(
                    &["C11"],
                    format!("writing reports success though only a part of the bytes was taken (failure seen: {})", failed.get()),
                ),
                Ok(Err(_)) => self.count("failed writes reported"),
                Err(p) => self.fail(&["C11", "C17"], format!("writing to a failing stream aborts: {p}")),
            }
        } else {
            let cut = r.chance(1, 2);
            let rd = if cut {
                Chopped { data: &full[..at], pos: 0, rng: r.fork(), fail_at: None }
            } else {
                Chopped { data: &full, pos: 0, rng: r.fork(), fail_at: Some(at) }
            };
            let universal = r.chance(1, 3);
            let got = guard(|| {
                if universal {
                    UniversalFile::load(rd).map_err(|e| e.to_string()).map(|u| T::from_universal(u).ok_or(s!("kind")))?
                } else {
                    T::load(rd).map_err(|e| e.to_string())
                }
            });
            match got {
                Ok(Ok(_)) => self.fail(&["C11"], "a container is read from a part of its bytes"),
                Ok(Err(_)) => self.count("truncated containers refused"),
                Err(p) => self.fail(&["C11", "C17"], format!("reading from a failing stream aborts: {p}")),
            }
        }
    }

    fn over_text<T: Parcel>(&mut self, r: &mut Rng, x: &T)
    where T::Err: std::fmt::Debug {
        let text = match guard(|| if r.chance(1, 2) { x.to_string() } else { x.universal().to_string() }) {
            Ok(t) => t,
            Err(p) => return self.fail(&["C11", "C17"], format!("armoring aborts: {p}")),
        };
        // mail agents do such things
        let text = match r.below(4) {
            0 => text.replace('\n', "\r\n"),
            1 => format!("{text}\n"),
            _ => text,
        };
        let got = guard(|| T::from_str(&text).map_err(|e| format!("{e:?}")));
        self.same(x, got, "by an armored text");
    }

    fn over_file<T: Parcel>(&mut self, r: &mut Rng, x: &T) {
        let dir = "/simfs/parcels";
        if std::fs::create_dir_all(dir).is_err() {
            return;
        }
        let path = format!("{dir}/{}", r.below(3));
        let mode = r.below(3);
        let faulty = r.chance(1, 2);
        let bits = r.below(8);
        let pos = r.below(1 << bits);
        let kind = [DiskFault::Eio, DiskFault::Enospc, DiskFault::Enospc, DiskFault::Eintr, DiskFault::Short]
            [r.below(5) as usize];
        let on_write = r.chance(2, 3);
        let arm = |me: &mut World, on: bool| {
            if on {
                me.sys().arm([(pos, kind)].into_iter().collect());
            }
        };
        arm(self, faulty && on_write);
        let res = guard(|| match mode {
            0 => x.save_file(&path),
            1 => x.universal().save_file(&path),
            _ => x.save_armored(&path),
        });
        let sys = self.sys();
        let hit = sys.plan_hit;
        sys.disarm();
        let soft = matches!(kind, DiskFault::Eintr | DiskFault::Short);
        if faulty && on_write && hit {
            *self.fired.entry(Fault::Disk(0, kind).name()).or_default() += 1;
        }
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                if !(faulty && on_write && hit) || soft {
                    self.fail(&["C11"], format!("saving to a file fails: {e}"));
                } else {
                    self.count("failed writes reported");
                }
                return;
            }
            Err(p) => return self.fail(&["C11", "C17"], format!("saving to a file aborts: {p}")),
        }
        arm(self, faulty && !on_write);
        let got = guard(|| match mode {
            0 => T::load_file(&path).map_err(|e| e.to_string()),
            1 => UniversalFile::load_file(&path)
                .map_err(|e| e.to_string())
                .map(|u| T::from_universal(u).ok_or(s!("kind")))?,
            _ => T::load_armored(&path).map_err(|e| e.to_string()),
        });
        let sys = self.sys();
        let hit = sys.plan_hit;
        sys.disarm();
        if faulty && !on_write && hit {
            *self.fired.entry(Fault::Disk(0, kind).name()).or_default() += 1;
            if !soft {
                match got {
                    Ok(Ok(y)) if y.content() == x.content() => {}
                    Ok(Ok(_)) => self.fail(&["C11"], "file whose reading failed yields another container"),
                    Ok(Err(_)) => self.count("failed reads reported"),
                    Err(p) => self.fail(&["C11", "C17"], format!("loading a file with read errors aborts: {p}")),
                }
                return;
            }
        }
        self.same(x, got, ["by a file", "by a universal file", "by an armored file"][mode as usize]);
    }

    fn damaged<T: Parcel>(&mut self, r: &mut Rng, x: &T)
    where T::Err: std::fmt::Debug {
        if r.chance(1, 2) {
            let mut text = x.to_string();
            let how = damage_text(r, &mut text);
            let got = guard(|| T::from_str(&text).map_err(|e| format!("{e:?}")));
            self.deceived(x, got, how);
        } else {
            let mut data = vec![];
            if x.save(&mut data).is_err() {
                return;
            }
            forge::damage(r, &mut data);
            let universal = r.chance(1, 3);
            let got = guard(|| {
                if universal {
                    UniversalFile::load(&data[..])
                        .map_err(|e| e.to_string())
                        .map(|u| T::from_universal(u).ok_or(s!("kind")))?
                } else {
                    T::load(&data[..]).map_err(|e| e.to_string())
                }
            });
            self.deceived(x, got, "corrupted file");
        }
    }
}

/// Damage typical for texts sent by mail or chat.
fn damage_text(r: &mut Rng, text: &mut String) -> &'static str {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let n = lines.len() as u64;
    let how = match r.below(7) {
        0 => {
            let i = r.below(n) as usize;
            lines.remove(i);
            "text without a line"
        }
        1 => {
            let i = r.below(n) as usize;
            let l = lines[i].clone();
            lines.insert(i, l);
            "text with a doubled line"
        }
        2 => {
            let i = r.below(n) as usize;
            let j = r.below(n) as usize;
            lines.swap(i, j);
            "text with swapped lines"
        }
        3 => {
            let keep = r.below(n) as usize;
            lines.truncate(keep);
            "text cut off"
        }
        4 => {
            // one character of one line
            let i = r.below(n) as usize;
            let mut c: Vec<char> = lines[i].chars().collect();
            if !c.is_empty() {
                let k = r.below(c.len() as u64) as usize;
                c[k] = ['A', '0', 'z', '~', ' ', '-', ':', '\u{e9}', ','][r.below(9) as usize];
                lines[i] = c.into_iter().collect();
            }
            "text with a changed character"
        }
        5 => {
            // characters of the body
            let i = (n / 2 + r.below(n / 2)) as usize;
            let mut c: Vec<char> = lines[i].chars().collect();
            if c.len() > 2 {
                let k = r.below(c.len() as u64 - 1) as usize;
                c.swap(k, k + 1);
                lines[i] = c.into_iter().collect();
            }
            "text with transposed characters"
        }
        _ => {
            let i = r.below(n) as usize;
            let mut c: Vec<char> = lines[i].chars().collect();
            let k = r.below(c.len() as u64 + 1) as usize;
            c.truncate(k);
            lines[i] = c.into_iter().collect();
            "text with a cut line"
        }
    };
    *text = lines.join("\n");
    how
}
