//! Steps of a run: what can happen in the simulated world, and how a seed becomes a list of steps.

use std::path::PathBuf;

use bp::Txid;
use rgbinvoice::Allocation;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::Stock;
use rgbstd::ContractId;

use crate::chain::{Resolver, TxSt};
use crate::oracle;
use crate::rng::{mix, Rng};
use crate::sys::DiskFault;
use crate::truth::{Know, St};
use crate::world::{guard, kind_name, Conf, Fault, Msg, What, World};

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
        pub enum K { $($k),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$k),*];
            pub fn name(self) -> &'static str { match self { $(K::$k => stringify!($k)),* } }
            pub fn parse(s: &str) -> Option<K> { K::ALL.iter().copied().find(|k| k.name() == s) }
        }
    };
}

kinds! {
    Fund, Kit, Issue, Share, Invoice, Pay, PayOpen, Custom, Broadcast, Send, Mine, Reorg, Rbf, Evict, Rebroadcast,
    Deliver, Drop, Dup, Corrupt, Link, Update, Restart, Store, Clock, Lookup, Export, Views,
    Forge, Order, Conceal, SaveLoad, Container, Twin, IssueX, InvX, Work, Hostile, Secret, Kits, Short,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub k: K,
    pub a: u64,
    pub f: Fault,
}

pub fn fault_text(f: &Fault) -> String {
    match f {
        Fault::None => s!("-"),
        Fault::Lookup(a, b) => format!("lookup:{a}:{b}"),
        Fault::LookupIds(a, b) => format!("lookup-ids:{a}:{b}"),
        Fault::Lag(n) => format!("lag:{n}"),
        Fault::Disk(n, d) => format!("disk:{n}:{d:?}"),
    }
}

pub fn parse_fault(s: &str) -> Option<Fault> {
    let p: Vec<&str> = s.split(':').collect();
    let n = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
    Some(match p[0] {
        "-" => Fault::None,
        "lookup" => Fault::Lookup(n(1)?, n(2)?),
        "lookup-ids" => Fault::LookupIds(n(1)?, n(2)?),
        "lag" => Fault::Lag(n(1)? as u32),
        "disk" => Fault::Disk(
            n(1)?,
            match *p.get(2)? {
                "Eio" => DiskFault::Eio,
                "Enospc" => DiskFault::Enospc,
                "Eintr" => DiskFault::Eintr,
                "Short" => DiskFault::Short,
                "Kill" => DiskFault::Kill,
                "Power" => DiskFault::Power,
                "PowerMid" => DiskFault::PowerMid,
                _ => return None,
            },
        ),
        _ => return None,
    })
}

impl Step {
    pub fn text(&self) -> String { format!("{} {:016x} {}", self.k.name(), self.a, fault_text(&self.f)) }
    pub fn parse(s: &str) -> Option<Step> {
        let p: Vec<&str> = s.split_whitespace().collect();
        Some(Step {
            k: K::parse(p.first()?)?,
            a: u64::from_str_radix(p.get(1)?, 16).ok()?,
            f: parse_fault(p.get(2)?)?,
        })
    }
}

pub struct Profile {
    pub prop: &'static str,
    pub weights: Vec<(K, u32)>,
    pub conf: Conf,
    /// Share of steps with a fault, in percent.
    pub faults: u32,
    pub disk_faults: u32,
    pub crashes: u32,
    pub len: (u64, u64),
    /// Runs in the quick and in the thorough tier.
    pub runs: (u64, u64),
    pub heal: bool,
    /// Whether the run starts with issuing and sharing contracts.
    pub prefix: bool,
}

const BASE: &[(K, u32)] = &[
    (K::Fund, 1),
    (K::Kit, 1),
    (K::Issue, 2),
    (K::Share, 4),
    (K::Invoice, 3),
    (K::Pay, 24),
    (K::PayOpen, 3),
    (K::Custom, 5),
    (K::Broadcast, 4),
    (K::Send, 5),
    (K::Mine, 10),
    (K::Reorg, 3),
    (K::Rbf, 4),
    (K::Evict, 2),
    (K::Rebroadcast, 2),
    (K::Deliver, 30),
    (K::Drop, 2),
    (K::Dup, 3),
    (K::Corrupt, 2),
    (K::Link, 2),
    (K::Update, 8),
    (K::Restart, 2),
    (K::Store, 1),
    (K::Clock, 2),
];

pub fn profile(prop: &str) -> Option<Profile> {
    let mut p = Profile {
        prop: "",
        weights: BASE.to_vec(),
        conf: Conf { wallets: 3, disk_every: 0, autosave: true, ..Default::default() },
        faults: 8,
        disk_faults: 0,
        crashes: 0,
        len: (25, 45),
        runs: (4000, 40000),
        heal: false,
        prefix: true,
    };
    let add = |p: &mut Profile, l: &[(K, u32)]| {
        for (k, n) in l {
            p.weights.retain(|x| x.0 != *k);
            p.weights.push((*k, *n));
        }
    };
    match prop {
        "C01" => {
            p.prop = "C01";
            p.heal = true;
            p.conf.disk_every = 3;
        }
        "C02" => {
            p.prop = "C02";
            p.conf.check_owned = true;
            add(&mut p, &[(K::Custom, 14), (K::Reorg, 6), (K::Rbf, 7), (K::Evict, 5), (K::Rebroadcast, 5), (K::Update, 16), (K::Conceal, 6)]);
        }
        "C03" => {
            p.prop = "C03";
            add(&mut p, &[(K::Pay, 40), (K::Issue, 6), (K::Short, 20)]);
        }
        "C04" => {
            p.prop = "C04";
            p.conf.check_owned = true;
            add(&mut p, &[(K::Corrupt, 10), (K::Forge, 30)]);
        }
        "C05" => {
            p.prop = "C05";
            add(&mut p, &[(K::Order, 6), (K::Kits, 4), (K::Conceal, 3)]);
        }
        "C06" => {
            p.prop = "C06";
            p.conf.check_dump = true;
            add(&mut p, &[(K::Conceal, 14), (K::Export, 10), (K::Kits, 6), (K::Rbf, 6)]);
        }
        "C07" => {
            p.prop = "C07";
            p.faults = 25;
            p.conf.check_owned = true;
            add(&mut p, &[(K::Update, 40), (K::Reorg, 8), (K::Evict, 5), (K::Rebroadcast, 6), (K::Rbf, 6)]);
        }
        "C08" => {
            p.prop = "C08";
            p.conf.disk_every = 1;
            p.conf.wallets = 2;
            p.conf.check_owned = true;
            p.conf.check_dump = true;
            p.crashes = 25;
            p.disk_faults = 8;
            p.faults = 0;
            add(&mut p, &[(K::Restart, 8)]);
        }
        "C09" => {
            p.prop = "C09";
            p.conf.disk_every = 2;
            p.conf.check_owned = true;
            p.conf.check_dump = true;
            p.faults = 25;
            p.disk_faults = 25;
        }
        "C10" => {
            p.prop = "C10";
            p.conf.disk_every = 1;
            p.conf.wallets = 2;
            p.conf.autosave = false;
            p.conf.noise = 5;
            add(&mut p, &[(K::SaveLoad, 20), (K::Restart, 5), (K::Store, 5), (K::Secret, 5)]);
        }
        "C11" => {
            p.prop = "C11";
            add(&mut p, &[(K::Container, 50)]);
        }
        "C12" => {
            p.prop = "C12";
            add(&mut p, &[(K::Twin, 20)]);
        }
        "C13" => {
            p.prop = "C13";
            add(&mut p, &[(K::IssueX, 60), (K::Issue, 10), (K::Custom, 20)]);
        }
        "C14" => {
            p.prop = "C14";
            add(&mut p, &[(K::InvX, 100), (K::Clock, 10)]);
        }
        "C15" => {
            p.prop = "C15";
            p.conf.check_lookup = true;
            add(&mut p, &[(K::Lookup, 20), (K::Export, 15), (K::Rbf, 6), (K::Evict, 4), (K::Secret, 12), (K::Conceal, 3)]);
        }
        "C16" => {
            p.prop = "C16";
            p.len = (6, 10);
            add(&mut p, &[(K::Work, 60)]);
        }
        "C17" => {
            p.prop = "C17";
            add(&mut p, &[(K::Hostile, 60), (K::Lookup, 5), (K::Export, 5), (K::Views, 5), (K::Corrupt, 6)]);
        }
        "C18" => {
            p.prop = "C18";
            p.conf.check_owned = true;
            add(&mut p, &[(K::Secret, 20), (K::Conceal, 4)]);
        }
        "C19" => {
            p.prop = "C19";
            p.conf.check_views = true;
            add(&mut p, &[(K::Views, 20), (K::Custom, 10), (K::Kits, 4)]);
        }
        _ => return None,
    }
    if let Some(k) = crate::PROPS.iter().find(|x| **x == prop) {
        p.prop = k;
    }
    Some(p)
}

/// Log-uniform position: early and late operations of a step are hit alike.
fn position(rng: &mut Rng, bits: u64) -> u64 {
    let b = rng.below(bits + 1);
    rng.below((1u64 << b) + 1)
}

pub fn generate(p: &Profile, seed: u64) -> Vec<Step> {
    let mut rng = Rng::new(mix(seed ^ 0x57e9));
    let mut v = vec![];
    let plain = |rng: &mut Rng, k: K| Step { k, a: rng.next(), f: Fault::None };
    if p.prefix {
        for _ in 0..1 + rng.below(2) {
            v.push(plain(&mut rng, K::Issue));
        }
        for _ in 0..2 + rng.below(2) {
            v.push(plain(&mut rng, K::Share));
            v.push(plain(&mut rng, K::Deliver));
        }
    }
    let total: u32 = p.weights.iter().map(|w| w.1).sum();
    let n = rng.range(p.len.0, p.len.1);
    for _ in 0..n {
        let mut x = rng.below(total as u64) as u32;
        let mut k = K::Mine;
        for (kk, w) in &p.weights {
            if x < *w {
                k = *kk;
                break;
            }
            x -= w;
        }
        let roll = rng.below(100) as u32;
        let f = if roll < p.crashes {
            let d = [DiskFault::Kill, DiskFault::Kill, DiskFault::Power, DiskFault::PowerMid][rng.below(4) as usize];
            Fault::Disk(position(&mut rng, 12), d)
        } else if roll < p.crashes + p.disk_faults {
            let d = [DiskFault::Eio, DiskFault::Enospc, DiskFault::Enospc, DiskFault::Eintr, DiskFault::Short]
                [rng.below(5) as usize];
            Fault::Disk(position(&mut rng, 12), d)
        } else if roll < p.crashes + p.disk_faults + p.faults {
            match rng.below(4) {
                0 => Fault::LookupIds(rng.below(3), 3),
                1 => Fault::Lag(1 + rng.below(3) as u32),
                _ => Fault::Lookup(rng.below(4), 1 + rng.below(2)),
            }
        } else {
            Fault::None
        };
        v.push(Step { k, a: rng.next(), f });
    }
    v
}

impl World {
    /// Runs a mutating operation under the step's faults and checks what a failure may leave behind.
    /// After a fault the operation is repeated without it; the outcome of the repetition is returned.
    pub fn mutate<T>(
        &mut self,
        w: usize,
        mut f: impl FnMut(&mut Stock, &Resolver) -> Result<T, String>,
    ) -> Result<Result<T, String>, String> {
        self.retried = false;
        let harmful = !matches!(self.fault, Fault::None | Fault::Lag(_));
        if !harmful {
            return self.call(w, &mut f);
        }
        let before = match self.probe(&self.wallets[w].stock) {
            Ok(d) => d,
            Err(e) => {
                self.fail(&["C02", "C17"], format!("wallet {w}: {e}"));
                return Err(e);
            }
        };
        self.fault_hit = false;
        let r = self.call(w, &mut f);
        if !self.fault_hit {
            return r;
        }
        let name = self.fault.name();
        *self.fired.entry(name).or_default() += 1;
        if let Some(kind) = self.sys().dead {
            self.fault = Fault::None;
            self.fault_hit = false;
            self.note(format!("  {name}: wallet {w} dies and restarts"));
            // The dead process runs no code any more
            let old = std::mem::replace(&mut self.wallets[w].stock, Stock::in_memory());
            std::mem::forget(old);
            drop(r);
            let acked = self.wallets[w].know.clone();
            if !self.reload(w, Some(kind)) {
                return Err(s!("not loaded"));
            }
            if !self.wallets[w].autosave {
                self.wallets[w].know = self.wallets[w].saved.clone();
                self.fault_hit = true;
                return Ok(Err(s!("lost in a crash")));
            }
            self.wallets[w].know = acked;
            self.check_known(w, &["C08"]);
            if self.viol.is_some() {
                return Err(s!("lost"));
            }
            self.count("crash recoveries");
            self.retried = true;
            let r = self.call(w, &mut f);
            match &r {
                Ok(Err(e)) => self.fail(&["C08"], format!("repeating the interrupted operation fails: {e}")),
                Err(p) => self.fail(&["C08"], format!("repeating the interrupted operation aborts: {p}")),
                _ => {}
            }
            return r;
        }
        match r {
            Ok(Ok(v)) => Ok(Ok(v)),
            Ok(Err(e)) => {
                self.note(format!("  {name}: operation of wallet {w} reports an error"));
                self.fault = Fault::None;
                self.fault_hit = false;
                match self.probe(&self.wallets[w].stock) {
                    Ok(after) => {
                        if let Some(d) = oracle::diff(&before, &after) {
                            self.fail(&["C09"], format!("failed operation ({name}) has changed the stock: {d}"));
                            return Ok(Err(e));
                        }
                    }
                    Err(m) => {
                        self.fail(&["C09"], format!("after a failed operation {m}"));
                        return Ok(Err(e));
                    }
                }
                self.count("failures rolled back");
                self.retried = true;
                let r = self.call(w, &mut f);
                match &r {
                    Ok(Err(e)) => self.fail(&["C09"], format!("repeating the failed operation fails: {e}")),
                    Err(p) => self.fail(&["C09"], format!("repeating the failed operation aborts: {p}")),
                    _ => {}
                }
                r
            }
            Err(p) => {
                self.fail(&["C09"], format!("failing {name} aborts the process: {p}"));
                self.fault_hit = true;
                Err(p)
            }
        }
    }

    /// Loads the wallet's stock from its disk, after a crash of the given kind if any.
    pub fn reload(&mut self, w: usize, crash: Option<DiskFault>) -> bool {
        let Some(dir) = self.wallets[w].dir.clone() else { return false };
        let autosave = self.wallets[w].autosave;
        if let Some(kind) = crash {
            let power = kind != DiskFault::Kill;
            let mut rng = Rng::new(mix(self.seed ^ self.log.len() as u64 ^ 0xc7a5));
            let sys = self.sys();
            sys.dead = None;
            sys.disarm();
            let lost = sys.disk.crash(&dir, power, &mut rng);
            self.note(format!("  disk after the crash: {lost}"));
        }
        self.sync_clock(w);
        let r = guard(|| {
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            Stock::load(store, autosave).map_err(|e| e.to_string())
        });
        self.count("stock loads");
        match r {
            Ok(Ok(s)) => {
                self.wallets[w].stock = s;
                true
            }
            Ok(Err(e)) => {
                self.fail(&["C08", "C10"], format!("stock can't be loaded again: {e}"));
                false
            }
            Err(p) => {
                self.fail(&["C08", "C10", "C17"], format!("loading the stock aborts: {p}"));
                false
            }
        }
    }

    pub fn any_wallet(&self, rng: &mut Rng) -> usize { rng.below(self.wallets.len() as u64) as usize }

    /// A payment somebody can make: payer, contract, what.
    pub fn payable(&self, rng: &mut Rng) -> Option<(usize, ContractId, What)> {
        let mut cands: Vec<(usize, ContractId)> = vec![];
        for w in 0..self.wallets.len() {
            for c in &self.truth.contract_order {
                if self.wallets[w].know.contracts.contains(c) {
                    cands.push((w, *c));
                }
            }
        }
        rng.shuffle(&mut cands);
        for (w, c) in cands {
            let mut list = self.spendables(w, c);
            list.retain(|(o, _, _)| {
                [kind_name(&What::Asset(0)).1, kind_name(&What::Bonus(0)).1, crate::schema::OS_TOKEN].contains(&o.ty)
            });
            let Some((o, _, st)) = rng.pick(&list).cloned() else { continue };
            let what = if o.ty == crate::schema::OS_TOKEN {
                What::Token(token_of(&st)?)
            } else {
                let all: u64 = list.iter().filter(|x| x.0.ty == o.ty).map(|x| x.2.amount).sum();
                let max = if rng.chance(1, 3) { all } else { st.amount };
                let v = if rng.chance(1, 4) { max } else { 1 + rng.below(max) };
                if o.ty == crate::schema::OS_ASSET {
                    What::Asset(v)
                } else {
                    What::Bonus(v)
                }
            };
            return Some((w, c, what));
        }
        None
    }

    pub fn tx_with(&self, rng: &mut Rng, f: impl Fn(TxSt) -> bool) -> Option<Txid> {
        let l: Vec<Txid> = self.chain.order.iter().copied().filter(|t| f(self.chain.st(*t).unwrap())).collect();
        rng.pick(&l).copied()
    }

    /// Sends and possibly broadcasts a fresh witness transaction.
    pub fn publish(&mut self, rng: &mut Rng, txid: Txid) {
        if rng.chance(4, 5) {
            self.chain.broadcast(txid);
        }
        if rng.chance(9, 10) {
            self.send_transfers(rng, txid);
        }
    }

    pub fn deliver_at(&mut self, i: usize) {
        let m: Msg = self.net.remove(i);
        if self.wallets[m.to].offline {
            self.note(format!("  wallet {} is cut off", m.to));
            self.net.push(m);
            return;
        }
        let ok = self.deliver(&m);
        self.note(format!("  {} -> {} {:?}: {}", m.from, m.to, m.kind, if ok { "taken" } else { "not taken" }));
    }

    pub fn exec(&mut self, s: &Step) {
        let mut rng = Rng::new(mix(s.a));
        let r = &mut rng;
        self.fault = s.f.clone();
        self.fault_hit = false;
        self.fault_early = r.chance(1, 3);
        let seed = mix(s.a ^ 0xe27);
        self.sys().entropy = Rng::new(seed);
        self.now += 1 + r.below(900) as i64;
        self.sync_clock(0);
        self.note(s.text());
        match s.k {
            K::Fund => {
                let w = self.any_wallet(r);
                self.fund(r, w);
            }
            K::Kit => {
                let w = self.any_wallet(r);
                let rich = r.chance(1, 2);
                self.import_kit(w, rich);
            }
            K::Issue => {
                if self.truth.contract_order.len() < 4 {
                    let w = self.any_wallet(r);
                    let rich = r.chance(4, 5);
                    self.issue(r, w, rich);
                }
            }
            K::Share => {
                let from = self.any_wallet(r);
                let to = self.any_wallet(r);
                let l: Vec<ContractId> = self.wallets[from].know.contracts.iter().copied().collect();
                if let Some(c) = r.pick(&l).copied() {
                    self.share_contract(r, from, to, c);
                }
            }
            K::Invoice => {
                if let Some((w, c, what)) = self.payable(r) {
                    let payee = if r.chance(1, 8) { w } else { self.any_wallet(r) };
                    self.invoice(r, payee, c, what);
                }
            }
            K::Pay => {
                let mut invs = vec![];
                let mut payer = None;
                for n in 0..1 + r.below(2) * r.below(3) {
                    let Some((w, c, what)) = self.payable(r) else { break };
                    if n > 0 && payer != Some(w) {
                        continue;
                    }
                    payer = Some(w);
                    let payee = if r.chance(1, 10) { w } else { self.any_wallet(r) };
                    if let Some(i) = self.invoice(r, payee, c, what) {
                        invs.push(i);
                    }
                }
                if let (Some(w), true) = (payer, self.viol.is_none()) {
                    if let Some(txid) = self.pay(r, w, &invs) {
                        self.publish(r, txid);
                    }
                }
            }
            K::PayOpen => {
                let w = self.any_wallet(r);
                let l: Vec<usize> = (0..self.invs.len())
                    .filter(|i| !self.invs[*i].used && self.wallets[w].know.contracts.contains(&self.invs[*i].contract))
                    .collect();
                if let Some(i) = r.pick(&l).copied() {
                    if let Some(txid) = self.pay(r, w, &[i]) {
                        self.publish(r, txid);
                    }
                }
            }
            K::Custom => {
                let w = self.any_wallet(r);
                let l: Vec<ContractId> =
                    self.wallets[w].know.contracts.iter().copied().filter(|c| self.truth.rich[c]).collect();
                if let Some(c) = r.pick(&l).copied() {
                    if let Some(txid) = self.custom(r, w, c) {
                        if r.chance(4, 5) {
                            self.chain.broadcast(txid);
                        }
                    }
                }
            }
            K::Broadcast => {
                if let Some(t) = self.tx_with(r, |s| s == TxSt::Unseen) {
                    self.chain.broadcast(t);
                }
            }
            K::Send => {
                let l: Vec<(usize, Txid)> =
                    self.pays.iter().enumerate().flat_map(|(i, p)| p.txids.iter().map(move |t| (i, *t))).collect();
                if let Some((p, t)) = r.pick(&l).copied() {
                    self.send_transfer(r, p, t);
                }
            }
            K::Mine => {
                for _ in 0..1 + r.below(3) {
                    self.now += 600;
                    let t = self.now;
                    self.chain.mine(r, t, false);
                }
            }
            K::Reorg => {
                let d = 1 + r.below(4) as u32;
                self.chain.reorg(d);
                if r.chance(1, 2) {
                    let t = self.now;
                    self.chain.mine(r, t, false);
                }
            }
            K::Rbf => {
                if let Some(t) = self.rbf(r) {
                    self.publish(r, t);
                }
            }
            K::Evict => {
                if let Some(t) = self.tx_with(r, |s| s == TxSt::Mempool) {
                    self.chain.drop_tx(t);
                }
            }
            K::Rebroadcast => {
                if let Some(t) = self.tx_with(r, |s| s == TxSt::Dropped) {
                    self.chain.broadcast(t);
                }
            }
            K::Deliver => {
                let n = self.net.len();
                if n > 0 {
                    // mostly in order, sometimes from anywhere
                    let i = if r.chance(2, 3) { 0 } else { r.below(n as u64) as usize };
                    self.deliver_at(i);
                }
            }
            K::Drop => {
                if !self.net.is_empty() {
                    let i = r.below(self.net.len() as u64) as usize;
                    self.net.remove(i);
                    self.count("messages lost");
                }
            }
            K::Dup => {
                let from_history = r.chance(1, 2);
                let src = if from_history { &self.sent } else { &self.net };
                if let Some(m) = r.pick(src).cloned() {
                    let i = r.below(self.net.len() as u64 + 1) as usize;
                    self.net.insert(i, m);
                    self.count("messages duplicated");
                }
            }
            K::Corrupt => {
                if let Some(mut m) = r.pick(&self.sent).cloned() {
                    crate::forge::damage(r, &mut m.bytes);
                    m.intact = false;
                    self.net.push(m);
                    self.count("messages corrupted");
                    let n = self.net.len();
                    self.deliver_at(n - 1);
                }
            }
            K::Link => {
                let w = self.any_wallet(r);
                self.wallets[w].offline = !self.wallets[w].offline;
                self.count("partitions and heals");
            }
            K::Update => {
                let w = self.any_wallet(r);
                let after = match r.below(4) {
                    0 | 1 => 0,
                    2 => self.chain.height().saturating_sub(r.below(6) as u32),
                    _ => self.chain.height() + 10,
                };
                self.update(w, after);
            }
            K::Restart => {
                let w = self.any_wallet(r);
                self.restart(r, w);
            }
            K::Store => {
                let w = self.any_wallet(r);
                self.save(w);
            }
            K::Clock => {
                let w = self.any_wallet(r);
                self.wallets[w].skew_s = match r.below(4) {
                    0 => 0,
                    1 => r.below(7200) as i64,
                    2 => -(r.below(7200) as i64),
                    _ => r.below(400_000_000) as i64 - 200_000_000,
                };
                self.count("clock jumps");
            }
            K::Lookup => {
                let w = self.any_wallet(r);
                self.check_lookup(r, w);
            }
            K::Export => {
                let w = self.any_wallet(r);
                self.check_export(r, w, &["C15", "C06"]);
            }
            K::Views => {
                let w = self.any_wallet(r);
                self.check_views(r, w);
            }
            other => self.exec_special(r, other),
        }
        if self.viol.is_none() {
            self.after_step(r);
        }
        let d = self.state_digest();
        self.states.push(d);
    }

    fn after_step(&mut self, r: &mut Rng) {
        self.fault = Fault::None;
        if self.conf.check_owned {
            for w in 0..self.wallets.len() {
                let props: &[&'static str] = match self.focus {
                    Some("C07") => &["C02", "C07"],
                    Some("C08") => &["C08"],
                    Some("C09") => &["C09"],
                    Some("C18") => &["C18"],
                    Some("C04") => &["C04"],
                    _ => &["C02"],
                };
                self.check_state(w, props);
                if self.viol.is_some() {
                    return;
                }
            }
        }
        if self.conf.check_dump {
            for w in 0..self.wallets.len() {
                let props: &[&'static str] = match self.focus {
                    Some("C08") => &["C08"],
                    Some("C09") => &["C09"],
                    _ => &["C06"],
                };
                self.check_known(w, props);
                if self.viol.is_some() {
                    return;
                }
            }
        }
        if self.conf.check_lookup {
            let w = self.any_wallet(r);
            self.check_lookup(r, w);
        }
        if self.conf.check_views {
            let w = self.any_wallet(r);
            self.check_views(r, w);
        }
    }

    pub fn save(&mut self, w: usize) -> bool {
        if self.wallets[w].dir.is_none() {
            return false;
        }
        let r = self.mutate(w, |s, _| s.store().map_err(|e| e.to_string()));
        match r {
            Ok(Ok(())) => {
                self.wallets[w].saved = self.wallets[w].know.clone();
                self.count("saves");
                true
            }
            Ok(Err(e)) => {
                if !self.fault_hit {
                    self.fail(&["C10", "C09"], format!("saving the stock fails: {e}"));
                }
                false
            }
            Err(p) => {
                self.fail(&["C10", "C09", "C17"], format!("saving the stock aborts: {p}"));
                false
            }
        }
    }

    pub fn restart(&mut self, r: &mut Rng, w: usize) {
        if self.wallets[w].dir.is_none() {
            return;
        }
        self.fault = Fault::None;
        let mode = r.below(4);
        if mode == 0 && !self.save(w) {
            return;
        }
        let old = std::mem::replace(&mut self.wallets[w].stock, Stock::in_memory());
        let crash = match mode {
            0 | 1 => {
                drop(old);
                None
            }
            2 => {
                std::mem::forget(old);
                Some(DiskFault::Kill)
            }
            _ => {
                std::mem::forget(old);
                Some(DiskFault::Power)
            }
        };
        let acked = if self.wallets[w].autosave { self.wallets[w].know.clone() } else { self.wallets[w].saved.clone() };
        self.count(match crash {
            None => "restarts",
            Some(DiskFault::Kill) => "kills between operations",
            _ => "power cuts between operations",
        });
        if self.reload(w, crash) {
            self.wallets[w].know = acked;
            let props: &[&'static str] = if self.wallets[w].autosave { &["C08", "C10"] } else { &["C10"] };
            self.check_known(w, props);
            self.check_state(w, props);
        }
    }

    /// Ends the run without further faults: everything gets delivered, broadcast and mined, and every payment whose
    /// transaction got mined must be shown by its payee.
    pub fn heal(&mut self) {
        self.note(s!("heal"));
        self.fault = Fault::None;
        let mut rng = Rng::new(mix(self.seed ^ 0x4ea1));
        for w in &mut self.wallets {
            w.offline = false;
        }
        for t in self.chain.order.clone() {
            if self.chain.st(t) == Some(TxSt::Unseen) {
                self.chain.broadcast(t);
            }
            if self.chain.st(t) == Some(TxSt::Unseen) {
                self.chain.drop_tx(t);
            }
        }
        for _ in 0..self.chain.order.len() + 1 {
            self.now += 600;
            let t = self.now;
            if self.chain.mine(&mut rng, t, true).is_empty() {
                break;
            }
        }
        for w in 0..self.wallets.len() {
            self.update(w, 0);
            if self.viol.is_some() {
                return;
            }
        }
        while !self.net.is_empty() {
            let m = self.net.remove(0);
            self.deliver(&m);
            if self.viol.is_some() {
                return;
            }
        }
        for p in 0..self.pays.len() {
            for t in self.pays[p].txids.clone() {
                if !matches!(self.chain.st(t), Some(TxSt::Mined { .. })) {
                    continue;
                }
                if self.pays[p].taken.contains(&t) {
                    self.check_arrival(p, t);
                    continue;
                }
                // lost on the way: sent again
                if !self.send_transfer(&mut rng, p, t) {
                    if self.viol.is_none() {
                        let payer = self.pays[p].payer;
                        let can = self.pays[p]
                            .ops
                            .iter()
                            .all(|o| self.wallets[payer].know.consignable(&self.truth, *o));
                        if can {
                            self.fail(&["C01"], "a mined payment can't be sent again");
                        }
                    }
                    continue;
                }
                let m = self.net.pop().unwrap();
                if !self.deliver(&m) && self.viol.is_none() {
                    self.fail(&["C01"], "a mined payment is not accepted without any fault");
                }
                if self.viol.is_some() {
                    return;
                }
                self.check_arrival(p, t);
                if self.viol.is_some() {
                    return;
                }
            }
        }
        for w in 0..self.wallets.len() {
            self.check_state(w, &["C02"]);
        }
    }
}

pub fn token_of(st: &St) -> Option<Allocation> {
    // Revealed data starts with the length of the value, followed by index and fraction
    let b = &st.essence().2;
    let v = b.get(2..14)?;
    let idx = u32::from_le_bytes(v[0..4].try_into().ok()?);
    let fr = u64::from_le_bytes(v[4..12].try_into().ok()?);
    Some(Allocation::with(idx, fr))
}

#[allow(dead_code)]
pub fn unused(_: &Know) {}
