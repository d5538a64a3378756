//! The simulated world: wallets with real stocks, the chain, the network, and the basic steps.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::str::FromStr;

use amplify::confinement::{Confined, U24};
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::{TapretPathProof, TapretProof};
use bp::dbc::Anchor;
use bp::seals::txout::CloseMethod;
use bp::{InternalPk, Outpoint, ScriptPubkey, Tx, Txid, Vout};
use commit_verify::mpc::{self, MerkleBlock, MerkleTree, MultiSource, ProtocolId};
use commit_verify::{Conceal, ConvolveCommit, EmbedCommitVerify, TryCommitVerify};
use rgbinvoice::{AddressPayload, Allocation, Beneficiary, ChainNet, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet};
use rgbstd::containers::{
    AnchorSet, BuilderSeal, Contract, Dichotomy, Fascia, FileContent, Kit, PubWitness, Transfer, TransitionInfo,
};
use rgbstd::interface::TransitionBuilder;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::vm::WitnessOrd;
use rgbstd::{
    AssetTag, AssignmentType, AttachId, AttachState, BlindingFactor, ContractId, GenesisSeal, GraphSeal, InputMap, MediaType,
    OpId, Opout, Operation, OutputSeal, SecretSeal, TransitionBundle, TxoSeal, Vin, XChain, XOutputSeal,
};
use amplify::Wrapper;

use crate::chain::{internal_pk, make_tx, out, spk_wpkh, Chain, LookupFault, Resolver, TxSt};
use crate::rng::{Digest, Rng};
use crate::schema::{self, Kits};
use crate::sys::{DiskFault, Sys};
use crate::truth::{txid_of, xop, xoutpoint, BundleT, Know, Op, St, Truth};

pub const T0: i64 = 1_750_000_000;

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            s!("panic")
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                let f = f.rsplit_once("/index.crates.io-").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs code under test; an abort is returned as text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| s!("panic"))),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum Fault {
    #[default]
    None,
    /// Witness lookups number `.0 .. .0 + .1` of the step fail.
    Lookup(u64, u64),
    /// Witness lookups of ids hashing to `.0` modulo `.1` fail.
    LookupIds(u64, u64),
    /// The wallet's node lags that many blocks behind.
    Lag(u32),
    /// Disk operation number `.0` of the step fails in the given way.
    Disk(u64, DiskFault),
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::None => "none",
            Fault::Lookup(..) => "lookup-error",
            Fault::LookupIds(..) => "lookup-error-by-id",
            Fault::Lag(_) => "lagging-node",
            Fault::Disk(_, d) => match d {
                DiskFault::Eio => "disk-eio",
                DiskFault::Enospc => "disk-full",
                DiskFault::Eintr => "disk-eintr",
                DiskFault::Short => "disk-short-io",
                DiskFault::Kill => "process-kill",
                DiskFault::Power => "power-cut",
                DiskFault::PowerMid => "power-cut-mid-write",
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Asset(u64),
    Bonus(u64),
    Token(Allocation),
}

#[derive(Clone, Debug)]
pub struct Inv {
    pub payee: usize,
    pub contract: ContractId,
    pub what: What,
    pub text: String,
    pub inv: RgbInvoice,
    /// Blinded seal of the payee, if this is a blinded invoice.
    pub blind: Option<XChain<GraphSeal>>,
    pub method: CloseMethod,
    pub spk: ScriptPubkey,
    pub used: bool,
    pub expiry: Option<i64>,
}

#[derive(Clone, Debug)]
pub struct Payment {
    pub payer: usize,
    pub payee: usize,
    pub contract: ContractId,
    pub what: What,
    pub blind: Option<XChain<GraphSeal>>,
    pub vout: Option<Vout>,
    pub method: CloseMethod,
    /// Witness transactions which anchored the payment; the last one is the most recent.
    pub txids: Vec<Txid>,
    pub ops: Vec<OpId>,
    /// Whether the payee's stock took a transfer for the given witness.
    pub taken: BTreeSet<Txid>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MsgKind {
    Kit,
    Contract,
    Transfer(usize),
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub from: usize,
    pub to: usize,
    pub kind: MsgKind,
    pub bytes: Vec<u8>,
    pub armored: bool,
    /// Whether the bytes are what the sender sent.
    pub intact: bool,
    pub txid: Option<Txid>,
}

/// Everything needed to anchor the same bundles into a replacement transaction.
#[derive(Clone)]
pub struct Pack {
    pub author: usize,
    pub inputs: Vec<Outpoint>,
    pub bundles: BTreeMap<ContractId, Vec<TransitionBundle>>,
    pub host: InternalPk,
    pub extra: Vec<ScriptPubkey>,
    pub payments: Vec<usize>,
    pub change: [ScriptPubkey; 1],
}

pub struct Wallet {
    pub dir: Option<String>,
    pub autosave: bool,
    pub stock: Stock,
    pub know: Know,
    /// What the last explicit save covered, for wallets without autosaving.
    pub saved: Know,
    pub secrets: BTreeMap<XChain<SecretSeal>, XChain<GraphSeal>>,
    pub skew_s: i64,
    pub offline: bool,
    /// True after an unacknowledged write: the durable image may hold a part of it.
    pub torn: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Conf {
    pub wallets: usize,
    /// Every how many wallets is on disk; 0 for none.
    pub disk_every: usize,
    pub autosave: bool,
    pub check_owned: bool,
    pub check_lookup: bool,
    pub check_views: bool,
    pub check_dump: bool,
    pub noise: u32,
}

pub struct World {
    pub focus: Option<&'static str>,
    pub conf: Conf,
    pub kits: std::sync::Arc<Kits>,
    pub chain: Chain,
    pub truth: Truth,
    pub wallets: Vec<Wallet>,
    /// Who controls an outpoint.
    pub owner: BTreeMap<Outpoint, usize>,
    pub utxo_order: Vec<Outpoint>,
    pub net: Vec<Msg>,
    pub sent: Vec<Msg>,
    pub fascias: Vec<Fascia>,
    /// Type definitions of the containers which were really sent.
    pub types: BTreeSet<u64>,
    pub invs: Vec<Inv>,
    pub pays: Vec<Payment>,
    pub packs: BTreeMap<Txid, Pack>,
    pub now: i64,
    pub viol: Option<Viol>,
    /// Violations of other properties met on the way (only counted).
    pub other: Vec<Viol>,
    pub log: Vec<String>,
    pub digest: Digest,
    pub states: Vec<u64>,
    pub stats: BTreeMap<&'static str, u64>,
    pub fault: Fault,
    pub fault_hit: bool,
    /// Whether lookup faults of the step hit validation rather than acceptance.
    pub fault_early: bool,
    /// Whether the last mutating operation was repeated after a fault.
    pub retried: bool,
    pub fired: BTreeMap<&'static str, u64>,
    pub sys: *mut Sys,
    pub seed: u64,
}

pub fn kind_name(what: &What) -> (&'static str, AssignmentType) {
    match what {
        What::Asset(_) => ("transfer", schema::OS_ASSET),
        What::Bonus(_) => ("transferBonus", schema::OS_BONUS),
        What::Token(_) => ("transferToken", schema::OS_TOKEN),
    }
}

pub fn st_of(p: &PersistedState) -> St {
    match p {
        PersistedState::Void => St::void(),
        PersistedState::Amount(v, b, t) => {
            St::value(&rgbstd::RevealedValue::with_blinding(rgbstd::FungibleState::Bits64(v.value()), *b, *t))
        }
        PersistedState::Data(d, salt) => St::data(&rgbstd::RevealedData::with_salt(d.clone(), *salt)),
        PersistedState::Attachment(a, salt) => {
            St::attach(&rgbstd::RevealedAttach { file: a.clone(), salt: *salt })
        }
    }
}

impl World {
    pub fn new(seed: u64, focus: Option<&'static str>, conf: Conf, kits: std::sync::Arc<Kits>, sys: *mut Sys) -> World {
        let mut w = World {
            focus,
            kits,
            chain: Chain::default(),
            truth: Truth::default(),
            wallets: vec![],
            owner: BTreeMap::new(),
            utxo_order: vec![],
            net: vec![],
            sent: vec![],
            fascias: vec![],
            types: BTreeSet::new(),
            invs: vec![],
            pays: vec![],
            packs: BTreeMap::new(),
            now: T0,
            viol: None,
            other: vec![],
            log: vec![],
            digest: Digest::default(),
            states: vec![],
            stats: BTreeMap::new(),
            fault: Fault::None,
            fault_hit: false,
            fault_early: false,
            retried: false,
            fired: BTreeMap::new(),
            sys,
            seed,
            conf,
        };
        w.sync_clock(0);
        for i in 0..w.conf.wallets {
            let on_disk = w.conf.disk_every > 0 && i % w.conf.disk_every == 0;
            let dir = on_disk.then(|| format!("/simfs/w{i}"));
            let mut stock = Stock::in_memory();
            if let Some(d) = &dir {
                std::fs::create_dir_all(d).expect("simulated disk");
                let store = FsBinStore::new(PathBuf::from(d)).expect("simulated disk");
                stock.make_persistent(store, w.conf.autosave).expect("simulated disk");
            }
            let autosave = w.conf.autosave;
            w.wallets.push(Wallet {
                dir,
                autosave,
                stock,
                know: Know::default(),
                secrets: BTreeMap::new(),
                skew_s: 0,
                offline: false,
                saved: Know::default(),
                torn: false,
            });
        }
        w
    }

    pub fn sys(&mut self) -> &mut Sys { unsafe { &mut *self.sys } }

    /// Sets the simulated clock to the local time of a wallet.
    pub fn sync_clock(&mut self, w: usize) {
        let skew = self.wallets.get(w).map(|w| w.skew_s).unwrap_or(0);
        let now = self.now;
        let sys = self.sys();
        sys.now_ns = now as i128 * 1_000_000_000;
        sys.skew_ns = skew as i128 * 1_000_000_000;
    }

    pub fn note(&mut self, line: String) {
        self.digest.add(line.as_bytes());
        self.log.push(line);
    }

    pub fn count(&mut self, what: &'static str) { *self.stats.entry(what).or_default() += 1; }

    pub fn fail(&mut self, props: &[&'static str], msg: impl Into<String>) {
        let msg = msg.into();
        let hit = match self.focus {
            None => props.first().copied(),
            Some(f) => props.iter().copied().find(|p| *p == f),
        };
        match hit {
            Some(p) => {
                self.note(format!("!! {p}: {msg}"));
                if self.viol.is_none() {
                    self.viol = Some(Viol { prop: p.to_string(), msg });
                }
            }
            None => self.other.push(Viol { prop: props.first().unwrap_or(&"").to_string(), msg }),
        }
    }

    pub fn lookup_fault(&self) -> (LookupFault, u32) {
        match &self.fault {
            Fault::Lookup(from, count) => (LookupFault::Fail { from: *from, count: *count }, 0),
            Fault::LookupIds(salt, modulo) => (LookupFault::FailIds { salt: *salt, modulo: *modulo }, 0),
            Fault::Lag(n) => (LookupFault::None, *n),
            _ => (LookupFault::None, 0),
        }
    }

    /// Runs a stock operation of a wallet under the step's faults. Returns `Err` on abort.
    pub fn call<T>(&mut self, w: usize, f: impl FnOnce(&mut Stock, &Resolver) -> T) -> Result<T, String> {
        self.sync_clock(w);
        let (lf, lag) = self.lookup_fault();
        if let Fault::Disk(n, d) = &self.fault {
            let plan = [(*n, *d)].into_iter().collect();
            self.sys().arm(plan);
        }
        let mut res = Resolver::new(&self.chain, w);
        res.fault = lf;
        res.lag = lag;
        let stock = &mut self.wallets[w].stock;
        let r = guard(|| f(stock, &res));
        let hit = !res.failed.borrow().is_empty();
        if hit {
            self.fault_hit = true;
        }
        if matches!(self.fault, Fault::Disk(..)) {
            let sys = self.sys();
            let used = sys.plan_hit || sys.dead.is_some();
            sys.disarm();
            if used {
                self.fault_hit = true;
            }
        }
        r
    }

    /// Ordering answers of the resolver for the wallet, as the model sees them.
    pub fn ord_of(&self, w: usize, txid: Txid) -> Option<WitnessOrd> {
        let lag = if let Fault::Lag(n) = self.fault { n } else { 0 };
        self.chain.ord(txid, w, lag)
    }

    pub fn state_digest(&self) -> u64 {
        // Structure only: counts and statuses, no random identifiers.
        let mut d = Digest::default();
        for id in &self.chain.order {
            let e = &self.chain.txs[id];
            let s = match e.st {
                TxSt::Unseen => 0u32,
                TxSt::Mempool => 1,
                TxSt::Dropped => 2,
                TxSt::Mined { height, .. } => height,
            };
            d.add(&s.to_le_bytes());
        }
        for w in &self.wallets {
            d.add(&[0xff]);
            d.add(&(w.know.contracts.len() as u32).to_le_bytes());
            for id in &self.chain.order {
                let v = match w.know.ords.get(id) {
                    None => 0u8,
                    Some(WitnessOrd::Archived) => 1,
                    Some(WitnessOrd::Tentative) => 2,
                    Some(WitnessOrd::Mined(_)) => 3,
                };
                d.add(&[v]);
            }
            let revealed: usize = w.know.ops.values().map(|k| k.revealed.len()).sum();
            d.add(&(w.know.ops.len() as u32).to_le_bytes());
            d.add(&(revealed as u32).to_le_bytes());
        }
        d.add(&(self.net.len() as u32).to_le_bytes());
        for m in &self.net {
            d.add(&[m.from as u8, m.to as u8, m.intact as u8]);
        }
        d.0
    }

    // ---------------------------------------------------------------- basic world steps

    pub fn fund(&mut self, rng: &mut Rng, w: usize) -> Outpoint {
        let o = self.chain.fund(rng);
        self.owner.insert(o, w);
        self.utxo_order.push(o);
        o
    }

    pub fn utxos(&self, w: usize) -> Vec<Outpoint> {
        self.utxo_order
            .iter()
            .copied()
            .filter(|o| self.owner.get(o) == Some(&w) && self.chain.spendable(*o))
            .collect()
    }

    pub fn kit(&self, rich: bool) -> Kit {
        if rich {
            self.kits.rich_kit.clone()
        } else {
            self.kits.plain_kit.clone()
        }
    }

    pub fn import_kit(&mut self, w: usize, rich: bool) -> bool {
        let kit = self.kit(rich).validate().expect("sound kit");
        let r = self.mutate(w, |s, _| s.import_kit(kit.clone()).map(|_| ()).map_err(|e| e.to_string()));
        self.settle(w, "import of a sound kit", r, |me| {
            let mut know = me.wallets[w].know.clone();
            know.kits.insert(rich);
            know.extras.extend(crate::oracle::kit_lines(&me.kit(rich)));
            know
        })
    }

    pub fn pick_method(rng: &mut Rng) -> CloseMethod {
        if rng.chance(1, 2) {
            CloseMethod::TapretFirst
        } else {
            CloseMethod::OpretFirst
        }
    }

    /// Contracts of which the wallet may pay something out: (contract, what, outpoints).
    pub fn spendables(&self, w: usize, contract: ContractId) -> Vec<(Opout, XOutputSeal, St)> {
        let utxos: BTreeSet<Outpoint> = self.utxos(w).into_iter().collect();
        self.wallets[w]
            .know
            .owned(&self.truth, contract)
            .into_keys()
            .filter(|(_, s, _)| xoutpoint(s).map(|o| utxos.contains(&o)).unwrap_or(false))
            .collect()
    }

    pub fn spec(rng: &mut Rng) -> rgbstd::stl::AssetSpec {
        let n = rng.below(8);
        let ticker = ["AAA", "BBB", "CCC", "DDD", "EEE", "FFF", "GGG", "HHH"][n as usize];
        rgbstd::stl::AssetSpec::new(ticker, "Simulated", rgbstd::Precision::CentiMicro)
    }

    pub fn text(rng: &mut Rng, prefix: &str) -> rgbstd::stl::Details {
        rgbstd::stl::Details::from_str(&format!("{prefix}{:x}", rng.next())).expect("valid text")
    }

    pub fn gseal(rng: &mut Rng, o: Outpoint, m: CloseMethod) -> XChain<GenesisSeal> {
        XChain::Bitcoin(GenesisSeal::with_blinding(m, o.txid, o.vout, rng.next()))
    }

    pub fn schema_of(&self, rich: bool) -> (rgbstd::SchemaId, &'static str) {
        if rich {
            (self.kits.rich.schema_id(), "SimAsset")
        } else {
            (self.kits.plain.schema_id(), "SimBase")
        }
    }

    /// Random content of a contract allocated to the outputs.
    pub fn plan(rng: &mut Rng, rich: bool, seals: &[(Outpoint, CloseMethod)]) -> IssuePlan {
        let mut plan = IssuePlan { rich, ..Default::default() };
        plan.spec = Some(Self::spec(rng));
        for (o, m) in seals {
            let k = 1 + rng.below(3);
            for _ in 0..k {
                let seal = Self::gseal(rng, *o, *m);
                // rgb-core 0.11.0-beta.9 takes any revealed attachment for a type mismatch, so none is issued
                let what = if rich { rng.below(6) } else { 0 };
                plan.items.push(match what {
                    0 | 1 => (seal, Item::Asset(1 + rng.below(1000))),
                    2 => (seal, Item::Bonus(1 + rng.below(100))),
                    3 => (seal, Item::Token(Allocation::with(rng.below(3) as u32, 1 + rng.below(3)))),
                    4 => (seal, Item::Memo(format!("M{:x}", rng.below(1 << 20)))),
                    _ => (seal, Item::Right),
                });
            }
        }
        if rich {
            for _ in 0..rng.below(3) {
                plan.notes.push(Self::text(rng, "note"));
            }
            for _ in 0..rng.below(3) {
                plan.logs.push(Self::text(rng, "log"));
            }
        }
        plan.memo = Some(Self::text(rng, "memo"));
        plan.tags = (rng.bytes32(), rng.bytes32());
        plan
    }

    /// Issues a contract with a random set of allocations and imports it into the issuer's stock.
    pub fn issue(&mut self, rng: &mut Rng, w: usize, rich: bool) -> Option<ContractId> {
        if !self.wallets[w].know.kits.contains(&rich) && !self.import_kit(w, rich) {
            return None;
        }
        let n_seals = 1 + rng.below(3) as usize;
        let mut seals = vec![];
        for _ in 0..n_seals {
            let who = if rng.chance(4, 5) { w } else { rng.below(self.wallets.len() as u64) as usize };
            let utxos = self.utxos(who);
            let o = if rng.chance(1, 3) && !utxos.is_empty() {
                *rng.pick(&utxos).unwrap()
            } else {
                self.fund(rng, who)
            };
            seals.push((o, Self::pick_method(rng)));
        }
        let plan = Self::plan(rng, rich, &seals);
        let (schema_id, iface) = self.schema_of(rich);
        self.sync_clock(w);
        let before = self.now + self.wallets[w].skew_s;
        let stock = &self.wallets[w].stock;
        let built = guard(|| -> Result<_, String> {
            let b = stock
                .contract_builder(rgbstd::Identity::default(), schema_id, iface)
                .map_err(|e| e.to_string())?;
            plan.build(b)
        });
        let contract = match built {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => {
                self.fail(&["C13", "C01"], format!("issuing a sound contract is refused: {e}"));
                return None;
            }
            Err(p) => {
                self.fail(&["C13", "C17", "C01"], format!("issuing a sound contract aborts: {p}"));
                return None;
            }
        };
        let inner: Contract = contract.clone().split().0;
        let id = inner.genesis.contract_id();
        if let Some(msg) = plan.check(&inner, before) {
            self.fail(&["C13"], msg);
        }
        self.truth.learn(Op::of_genesis(&inner.genesis));
        let gid = Op::of_genesis(&inner.genesis).id;
        if self.truth.geneses.insert(id, gid).is_none() {
            self.truth.contract_order.push(id);
            self.truth.rich.insert(id, rich);
        }
        let r =
            self.mutate(w, |s, r| s.import_contract(contract.clone(), r).map(|_| ()).map_err(|e| e.to_string()));
        let ok = self.settle(w, "import of the issued contract", r, |me| {
            let secrets = me.wallets[w].secrets.clone();
            let ords = |t: Txid| me.chain.ord(t, w, 0);
            let mut know = me.wallets[w].know.clone();
            know.take(&me.truth, &inner, &secrets, ords);
            know
        });
        if !ok {
            return None;
        }
        self.count("contracts issued");
        Some(id)
    }

    /// Common treatment of the outcome of a mutating stock operation on sound input.
    /// Returns whether the operation was acknowledged.
    pub fn settle(
        &mut self,
        w: usize,
        what: &str,
        r: Result<Result<(), String>, String>,
        next: impl FnOnce(&World) -> Know,
    ) -> bool {
        let acked = match r {
            Ok(Ok(())) => {
                let k = next(self);
                self.wallets[w].know = k;
                true
            }
            Ok(Err(e)) => {
                if self.fault_hit {
                    self.note(format!("  {what} failed under fault"));
                } else {
                    self.fail(&["C01", "C17"], format!("{what} refused without any fault: {e}"));
                }
                false
            }
            Err(p) => {
                self.fail(
                    &["C17", "C01", "C09", "C08", "C02", "C05", "C06", "C18", "C04"],
                    format!("{what} aborts: {p}"),
                );
                false
            }
        };
        acked
    }

    pub fn new_secret(&mut self, rng: &mut Rng, w: usize, o: Outpoint, m: CloseMethod) -> XChain<GraphSeal> {
        let seal = XChain::Bitcoin(GraphSeal::from(bp::seals::txout::BlindSeal::with_blinding(
            m,
            bp::seals::txout::TxPtr::Txid(o.txid),
            o.vout,
            rng.next(),
        )));
        self.wallets[w].secrets.insert(seal.conceal(), seal);
        seal
    }

    pub fn store_secret(&mut self, w: usize, seal: XChain<GraphSeal>) -> bool {
        let known = self.wallets[w].know.secrets.contains(&seal.conceal());
        let r = self.mutate(w, |s, _| s.store_secret_seal(seal).map_err(|e| e.to_string()));
        if let (Ok(Ok(new)), false) = (&r, self.retried) {
            if *new == known {
                self.fail(&["C18"], "storing a seal secret misreports whether it was known");
            }
        }
        self.settle(w, "storing a seal secret", r.map(|r| r.map(|_| ())), |me| {
            let mut know = me.wallets[w].know.clone();
            know.secrets.insert(seal.conceal());
            know
        })
    }

    /// Payee creates an invoice.
    pub fn invoice(&mut self, rng: &mut Rng, payee: usize, contract: ContractId, what: What) -> Option<usize> {
        self.invoice_to(rng, payee, contract, what, None)
    }

    /// The seal given is used as it is, whether its secret is stored or not.
    pub fn invoice_to(
        &mut self,
        rng: &mut Rng,
        payee: usize,
        contract: ContractId,
        what: What,
        given: Option<XChain<GraphSeal>>,
    ) -> Option<usize> {
        let rich = *self.truth.rich.get(&contract)?;
        let mut method = Self::pick_method(rng);
        let blinded = rng.chance(1, 2);
        let spk = spk_wpkh(rng);
        let (beneficiary, blind) = if let Some(seal) = given {
            let XChain::Bitcoin(secret) = seal.conceal() else { return None };
            let XChain::Bitcoin(inner) = &seal else { return None };
            method = inner.method;
            (Beneficiary::BlindedSeal(secret), Some(seal))
        } else if blinded {
            let utxos = self.utxos(payee);
            let o = if utxos.is_empty() || rng.chance(1, 2) {
                self.fund(rng, payee)
            } else {
                *rng.pick(&utxos).unwrap()
            };
            let seal = self.new_secret(rng, payee, o, method);
            if !self.store_secret(payee, seal) {
                return None;
            }
            let XChain::Bitcoin(secret) = seal.conceal() else { return None };
            (Beneficiary::BlindedSeal(secret), Some(seal))
        } else {
            let mut h = [0u8; 20];
            h.copy_from_slice(&spk.as_slice()[2..22]);
            let payload = AddressPayload::Wpkh(bp::WPubkeyHash::from(h));
            (Beneficiary::WitnessVout(Pay2Vout { method, address: payload }), None)
        };
        let (op, ty) = kind_name(&what);
        let iface = if rich { "SimAsset" } else { "SimBase" };
        let mut b = RgbInvoiceBuilder::with(contract, XChainNet::with(ChainNet::BitcoinRegtest, beneficiary))
            .set_interface(iface);
        if ty != schema::OS_ASSET || rng.chance(1, 2) {
            b = b.set_operation(op);
        }
        b = match what {
            What::Asset(v) | What::Bonus(v) => b.set_amount_raw(v),
            What::Token(a) => b.set_allocation_raw(a),
        };
        let expiry = rng.chance(1, 4).then(|| {
            self.now + if rng.chance(1, 4) { rng.below(8000) as i64 - 4000 } else { 1_000_000 }
        });
        if let Some(t) = expiry {
            b = b.set_expiry_timestamp(t);
        }
        let inv = b.finish();
        let text = inv.to_string();
        self.invs.push(Inv { payee, contract, what, text, inv, blind, method, spk, used: false, expiry });
        Some(self.invs.len() - 1)
    }

    /// Picks outpoints of the payer covering the payment, possibly with superfluous ones.
    pub fn coin_select(
        &self,
        rng: &mut Rng,
        payer: usize,
        contract: ContractId,
        what: &What,
        avoid: &BTreeSet<Outpoint>,
    ) -> Option<Vec<Outpoint>> {
        let (_, ty) = kind_name(what);
        let mut list = self.spendables(payer, contract);
        list.retain(|(_, s, _)| !avoid.contains(&xoutpoint(s).unwrap()));
        rng.shuffle(&mut list);
        let mut picked: BTreeSet<Outpoint> = BTreeSet::new();
        let mut sum = 0u64;
        for (opout, seal, st) in &list {
            let hit = match what {
                What::Asset(v) | What::Bonus(v) => opout.ty == ty && sum < *v,
                What::Token(a) => {
                    opout.ty == ty
                        && picked.is_empty()
                        && st.essence().2 == token_essence(*a)
                }
            };
            if hit {
                let o = xoutpoint(seal).unwrap();
                if !self.chain.consistent(picked.iter().chain(avoid).copied().chain([o])) {
                    continue;
                }
                if picked.insert(o) {
                    for (op2, s2, st2) in &list {
                        if xoutpoint(s2) == Some(o) && op2.ty == ty {
                            sum += st2.amount;
                        }
                    }
                }
            }
        }
        let enough = match what {
            What::Asset(v) | What::Bonus(v) => sum >= *v,
            What::Token(_) => !picked.is_empty(),
        };
        if !enough {
            return None;
        }
        // superfluous coins
        let rest: Vec<Outpoint> = self
            .utxos(payer)
            .into_iter()
            .filter(|o| !picked.contains(o) && !avoid.contains(o))
            .filter(|o| self.chain.consistent(picked.iter().chain(avoid).copied().chain([*o])))
            .collect();
        if !rest.is_empty() && rng.chance(1, 3) {
            picked.insert(*rng.pick(&rest).unwrap());
        }
        let mut v: Vec<Outpoint> = picked.into_iter().collect();
        rng.shuffle(&mut v);
        Some(v)
    }

    pub fn prev_seals(&self, w: usize, outpoints: &[Outpoint]) -> Vec<XOutputSeal> {
        let mut r = BTreeSet::new();
        for o in outpoints {
            // The wallet spends the outpoint: seals of both methods defined on it get closed
            for m in [CloseMethod::OpretFirst, CloseMethod::TapretFirst] {
                let s: XOutputSeal = XChain::Bitcoin(OutputSeal::new(m, *o));
                r.insert(s);
            }
        }
        let _ = w;
        r.into_iter().collect()
    }

    /// Composes a payment for an invoice text.
    pub fn compose(
        &mut self,
        rng: &mut Rng,
        payer: usize,
        inv: usize,
        outpoints: &[Outpoint],
        beneficiary_vout: Vout,
    ) -> Option<Vec<TransitionInfo>> {
        let i = self.invs[inv].clone();
        let parsed = match guard(|| RgbInvoice::from_str(&i.text)) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                self.fail(&["C14", "C01"], format!("own invoice text is not parsed: {e:?}: {}", i.text));
                return None;
            }
            Err(p) => {
                self.fail(&["C14", "C17", "C01"], format!("parsing of an invoice aborts: {p}: {}", i.text));
                return None;
            }
        };
        if parsed != i.inv {
            self.fail(&["C14", "C01"], format!("invoice text reads back differently: {} -> {}", i.text, parsed));
            return None;
        }
        let prev = self.prev_seals(payer, outpoints);
        let method = Self::pick_method(rng);
        let vout = i.blind.is_none().then_some(beneficiary_vout);
        let salt = rng.next();
        let alloc = move |id: ContractId, ty: AssignmentType, _| {
            let h = Digest::of(&[id.as_slice(), &ty.to_inner().to_le_bytes(), &salt.to_le_bytes()].concat());
            Some(Vout::from_u32(1 + (h % 2) as u32))
        };
        let det = rng.chance(1, 3);
        let prio = rng.next();
        let mut blind_rng = rng.fork();
        self.sync_clock(payer);
        let stock = &self.wallets[payer].stock;
        let res = guard(|| {
            if det {
                let b = RefCell::new(&mut blind_rng);
                stock
                    .compose_deterministic(
                        &parsed,
                        prev.iter().copied(),
                        method,
                        vout,
                        prio,
                        alloc,
                        |_, _| random_blinding(&mut b.borrow_mut()),
                        |_, _| b.borrow_mut().next(),
                    )
                    .map_err(|e| e.to_string())
            } else {
                stock.compose(&parsed, prev.iter().copied(), method, vout, alloc).map_err(|e| e.to_string())
            }
        });
        let clock = self.now + self.wallets[payer].skew_s;
        let expired = i.expiry.map(|t| t < clock).unwrap_or(false);
        match res {
            Ok(Ok(_)) if expired => {
                self.fail(&["C14"], format!("invoice which expired {} s ago is paid", clock - i.expiry.unwrap()));
                None
            }
            Ok(Err(e)) if expired && e.contains("expired") => {
                self.count("expired invoices refused");
                None
            }
            Ok(Ok(mut batch)) => {
                let methods = batch.close_method_set();
                let before: Vec<TransitionInfo> = batch.clone().into_iter().collect();
                // another order of operations within the contract, chosen afterwards
                let nonce = if rng.chance(1, 4) {
                    let p = if rng.chance(1, 2) { prio } else { u64::MAX - prio % 3 };
                    batch.set_priority(p);
                    Some(p)
                } else {
                    det.then_some(prio)
                };
                let infos: Vec<TransitionInfo> = batch.into_iter().collect();
                if let Some(p) = nonce {
                    if infos.iter().any(|i| i.transition.nonce != p || i.transition.id() != i.id) {
                        self.fail(&["C12", "C03"], "priority is not given to all operations of a batch");
                    }
                    let same = |(a, b): (&TransitionInfo, &TransitionInfo)| {
                        let mut b = b.clone();
                        b.set_nonce(a.transition.nonce);
                        *a == b
                    };
                    if infos.len() != before.len() || !infos.iter().zip(&before).all(same) {
                        self.fail(&["C12", "C03"], "setting the priority alters other parts of a batch");
                    }
                }
                let has = |m: CloseMethod| infos.iter().any(|i| i.method == m);
                if methods.has_tapret_first() != has(CloseMethod::TapretFirst) || methods.has_opret_first() != has(CloseMethod::OpretFirst)
                {
                    self.fail(&["C03", "C12"], "batch names other closing methods than its operations use");
                }
                self.check_conservation(payer, &i, outpoints, &infos, vout);
                Some(infos)
            }
            Ok(Err(e)) if e.contains("expired") => {
                self.fail(&["C14", "C01"], format!("invoice which did not expire is refused: {e}"));
                None
            }
            Ok(Err(e)) => {
                self.fail(&["C01", "C03"], format!("payable invoice is refused by the composer: {e}"));
                None
            }
            Err(p) => {
                self.fail(&["C03", "C01", "C17"], format!("composing a payable invoice aborts: {p}"));
                None
            }
        }
    }

    /// C03: what the batch spends and what it creates, by an independent ledger.
    pub fn check_conservation(
        &mut self,
        payer: usize,
        inv: &Inv,
        outpoints: &[Outpoint],
        infos: &[TransitionInfo],
        vout: Option<Vout>,
    ) {
        let (_, inv_ty) = kind_name(&inv.what);
        let secret = inv.blind.map(|s| s.conceal());
        let set: BTreeSet<Outpoint> = outpoints.iter().copied().collect();
        let mut problems: Vec<String> = vec![];
        let mut seen_inputs: BTreeSet<Opout> = BTreeSet::new();
        let mut by_contract: BTreeMap<ContractId, Vec<&TransitionInfo>> = BTreeMap::new();
        for info in infos {
            by_contract.entry(info.transition.contract_id).or_default().push(info);
            if info.transition.id() != info.id {
                self.fail(&["C12", "C03"], "announced transition id differs from the id of the transition");
            }
        }
        let contracts: Vec<ContractId> = self.wallets[payer].know.contracts.iter().copied().collect();
        let mut expected: BTreeMap<ContractId, BTreeMap<Opout, (XOutputSeal, St)>> = BTreeMap::new();
        for c in contracts {
            for (opout, seal, st) in self.wallets[payer].know.owned(&self.truth, c).into_keys() {
                if xoutpoint(&seal).map(|o| set.contains(&o)).unwrap_or(false) {
                    expected.entry(c).or_default().insert(opout, (seal, st));
                }
            }
        }
        for (c, list) in &by_contract {
            if !expected.contains_key(c) {
                problems.push(format!("transition for contract {c} which has nothing on the spent outputs"));
                continue;
            }
            for info in list {
                for i in info.transition.inputs.iter() {
                    if !seen_inputs.insert(i.prev_out) {
                        problems.push(format!("state {} is spent twice", i.prev_out));
                    }
                    match expected[c].get(&i.prev_out) {
                        None => problems.push(format!("spends {} which is not on the spent outputs", i.prev_out)),
                        Some((s, _)) if s.method() != info.method => {
                            problems.push(format!("{} is closed by a wrong method", i.prev_out))
                        }
                        Some((s, _)) => {
                            let o: rgbstd::XOutpoint = xop(xoutpoint(s).unwrap());
                            if !info.inputs.contains(&o) {
                                problems.push(format!("input outpoint of {} is not announced", i.prev_out));
                            }
                        }
                    }
                }
            }
        }
        for (c, opouts) in &expected {
            for o in opouts.keys() {
                if !seen_inputs.contains(o) {
                    problems.push(format!("state {o} of contract {c} is on a spent output but is not moved"));
                }
            }
            let Some(list) = by_contract.get(c) else { continue };
            let mut ins: BTreeMap<AssignmentType, Vec<(u8, u64, Vec<u8>)>> = BTreeMap::new();
            for (o, (_, st)) in opouts {
                ins.entry(o.ty).or_default().push(st.essence());
            }
            let mut outs: BTreeMap<AssignmentType, Vec<(u8, u64, Vec<u8>)>> = BTreeMap::new();
            let mut to_payee: Vec<(AssignmentType, (u8, u64, Vec<u8>))> = vec![];
            for info in list {
                let op = Op::of_transition(&info.transition);
                for ((ty, _), o) in &op.outs {
                    let Some(st) = &o.st else {
                        problems.push(s!("concealed state in a composed transition"));
                        continue;
                    };
                    outs.entry(*ty).or_default().push(st.essence());
                    let payee_seal = match (&o.seal, secret, vout) {
                        (_, Some(sec), _) => o.secret == sec,
                        (Some(XChain::Bitcoin(s)), None, Some(v)) => {
                            s.vout == v && matches!(s.txid, bp::seals::txout::TxPtr::WitnessTx)
                        }
                        _ => false,
                    };
                    if payee_seal {
                        to_payee.push((*ty, st.essence()));
                        if *c != inv.contract {
                            problems.push(format!("state of contract {c} is given to the payee of {}", inv.contract));
                        }
                    } else if let Some(XChain::Bitcoin(s)) = &o.seal {
                        let v = s.vout.to_u32();
                        if !(1..=2).contains(&v) {
                            problems.push(format!("state goes to output {v} which was not offered for change"));
                        }
                    } else {
                        problems.push(s!("state goes to an unknown concealed seal"));
                    }
                }
                // Pedersen balance of every fungible type of the transition
                if let Some(p) = pedersen_problem(&info.transition, opouts) {
                    problems.push(p);
                }
            }
            for (ty, a) in &ins {
                let b = outs.get(ty).cloned().unwrap_or_default();
                let fungible = a.iter().all(|x| x.0 == 1);
                if fungible {
                    let x: u128 = a.iter().map(|s| s.1 as u128).sum();
                    let y: u128 = b.iter().map(|s| s.1 as u128).sum();
                    if x != y {
                        problems.push(format!("{x} units of state type {ty} are spent but {y} are created"));
                    }
                } else {
                    let (mut a, mut b) = (a.clone(), b);
                    a.sort();
                    b.sort();
                    if a != b {
                        problems.push(format!(
                            "{} items of state type {ty} are spent but {} (other) items are created",
                            a.len(),
                            b.len()
                        ));
                    }
                }
            }
            for ty in outs.keys() {
                if !ins.contains_key(ty) {
                    problems.push(format!("state type {ty} appears from nothing"));
                }
            }
            if *c == inv.contract {
                let ok = match &inv.what {
                    What::Asset(v) | What::Bonus(v) => {
                        to_payee.iter().all(|(t, _)| *t == inv_ty)
                            && to_payee.iter().map(|(_, s)| s.1 as u128).sum::<u128>() == *v as u128
                    }
                    What::Token(a) => {
                        to_payee.len() == 1
                            && to_payee[0].0 == inv_ty
                            && to_payee[0].1 .2 == token_essence(*a)
                    }
                };
                if !ok {
                    problems.push(format!("payee gets {to_payee:?} instead of {:?}", inv.what));
                }
            }
        }
        if !by_contract.contains_key(&inv.contract) {
            problems.push(s!("no transition of the invoiced contract"));
        }
        self.count("composed batches");
        if let Some(p) = problems.first() {
            self.fail(&["C03", "C01"], p.clone());
        }
    }

    /// Groups transitions into bundles keyed by contract, one per closing method.
    pub fn bundle_up(&mut self, infos: &[TransitionInfo], inputs: &[Outpoint]) -> BTreeMap<ContractId, Vec<TransitionBundle>> {
        let mut groups: BTreeMap<(ContractId, u8), Vec<&TransitionInfo>> = BTreeMap::new();
        for i in infos {
            groups.entry((i.transition.contract_id, i.method as u8)).or_default().push(i);
        }
        let mut r: BTreeMap<ContractId, Vec<TransitionBundle>> = BTreeMap::new();
        for ((c, _), list) in groups {
            let mut map: BTreeMap<Vin, OpId> = BTreeMap::new();
            let mut known = BTreeMap::new();
            for i in &list {
                for (vin, o) in inputs.iter().enumerate() {
                    if i.inputs.contains(&xop(*o)) {
                        map.insert(Vin::from_u32(vin as u32), i.transition.id());
                    }
                }
                known.insert(i.transition.id(), i.transition.clone());
            }
            let mut it = map.into_iter();
            let Some((v0, o0)) = it.next() else { continue };
            let mut im = InputMap::with(v0, o0);
            for (v, o) in it {
                let _ = im.insert(v, o);
            }
            let b = TransitionBundle {
                close_method: list[0].method,
                input_map: im,
                known_transitions: Confined::try_from(known).expect("non-empty"),
            };
            r.entry(c).or_default().push(b);
        }
        r
    }

    /// Builds the witness transaction with the commitments and the fascia.
    pub fn anchor(&self, rng: &mut Rng, pack: &Pack, tx_in_fascia: bool) -> Option<(Tx, Fascia)> {
        let mut msgs: [BTreeMap<ProtocolId, mpc::Message>; 2] = Default::default();
        for (c, list) in &pack.bundles {
            for b in list {
                let n = (b.close_method == CloseMethod::TapretFirst) as usize;
                msgs[n].insert(ProtocolId::from(*c), mpc::Message::from(b.bundle_id()));
            }
        }
        let tree = |m: &BTreeMap<ProtocolId, mpc::Message>, e: u64| -> MerkleTree {
            let mut src = MultiSource::with_static_entropy(e);
            src.messages = Confined::try_from(m.clone()).expect("few messages");
            MerkleTree::try_commit(&src).expect("few messages")
        };
        let mut outs = vec![
            out(ScriptPubkey::from_unsafe(vec![0x6a]), 0),
            out(ScriptPubkey::p2tr_key_only(pack.host), 1000),
            out(pack.change[0].clone(), 1000),
        ];
        for s in &pack.extra {
            outs.push(out(s.clone(), 1000));
        }
        let mut tx = make_tx(&pack.inputs, outs, rng.below(400_000_000) as u32);
        let mut opret: Option<Anchor<MerkleBlock, OpretProof>> = None;
        let mut tapret: Option<Anchor<MerkleBlock, TapretProof>> = None;
        if !msgs[0].is_empty() {
            let t = tree(&msgs[0], rng.next());
            let c = commitment(&t);
            let proof = EmbedCommitVerify::<mpc::Commitment, bp::dbc::opret::OpretFirst>::embed_commit(&mut tx, &c).ok()?;
            opret = Some(Anchor::new(MerkleBlock::from(&t), proof));
        }
        if !msgs[1].is_empty() {
            let t = tree(&msgs[1], rng.next());
            let c = commitment(&t);
            let supplement = TapretProof {
                path_proof: TapretPathProof::root(rng.below(256) as u8),
                internal_pk: pack.host,
            };
            let (ntx, proof) =
                ConvolveCommit::<mpc::Commitment, TapretProof, bp::dbc::tapret::TapretFirst>::convolve_commit(
                    &tx,
                    &supplement,
                    &c,
                )
                .ok()?;
            tx = ntx;
            tapret = Some(Anchor::new(MerkleBlock::from(&t), proof));
        }
        let anchor = match (tapret, opret) {
            (Some(tapret), Some(opret)) => AnchorSet::Double { tapret, opret },
            (Some(t), None) => AnchorSet::Tapret(t),
            (None, Some(o)) => AnchorSet::Opret(o),
            (None, None) => return None,
        };
        let witness = if tx_in_fascia { PubWitness::Tx(tx.clone()) } else { PubWitness::Txid(tx.txid()) };
        let mut bundles = BTreeMap::new();
        for (c, list) in &pack.bundles {
            bundles.insert(*c, Dichotomy::from_iter(list.iter().cloned()));
        }
        let fascia = Fascia {
            witness: XChain::Bitcoin(witness),
            anchor,
            bundles: Confined::<BTreeMap<_, _>, 1, U24>::try_from(bundles).ok()?,
        };
        Some((tx, fascia))
    }

    /// Registers a witness transaction and lets its author consume the fascia.
    pub fn commit_pack(&mut self, rng: &mut Rng, pack: Pack) -> Option<Txid> {
        let full = rng.chance(1, 2);
        let Some((tx, fascia)) = self.anchor(rng, &pack, full) else {
            panic!("can't anchor");
        };
        let author = pack.author;
        if fascia.clone().into_bundles().into_iter().any(|(c, _)| !self.wallets[author].know.contracts.contains(&c)) {
            // lost with the unsaved data
            return None;
        }
        let txid = self.chain.add(tx, author);
        self.fascias.push(fascia.clone());
        for (_, b) in fascia.clone().into_bundles() {
            let id = b.bundle_id();
            self.truth.anchored.entry(id).or_default().insert(txid);
            let contract = b.known_transitions.values().next().unwrap().contract_id;
            let t = self.truth.bundles.entry(id).or_insert_with(|| BundleT {
                id,
                contract,
                method: b.close_method,
                ops: BTreeSet::new(),
            });
            t.ops.extend(b.known_transitions.keys().copied());
            for tr in b.known_transitions.values() {
                self.truth.op_bundle.insert(tr.id(), id);
                self.truth.learn(Op::of_transition(tr));
            }
        }
        for p in &pack.payments {
            if let Some(seal) = self.pays[*p].blind {
                self.truth.reveal_secret(seal);
            }
        }
        for (n, who) in [(1u32, author), (2, author)]
            .into_iter()
            .chain(pack.payments.iter().filter_map(|p| {
                let p = &self.pays[*p];
                p.vout.map(|v| (v.to_u32(), p.payee))
            }))
            .collect::<Vec<_>>()
        {
            let o = Outpoint::new(txid, Vout::from_u32(n));
            if self.owner.insert(o, who).is_none() {
                self.utxo_order.push(o);
            }
        }
        for p in pack.payments.clone() {
            self.pays[p].txids.push(txid);
        }
        self.packs.insert(txid, pack);
        let f2 = fascia.clone();
        let r = self.mutate(author, |s, r| s.consume_fascia(f2.clone(), r).map_err(|e| e.to_string()));
        let ok = self.settle(author, "consuming own fascia", r, |me| {
            let mut know = me.wallets[author].know.clone();
            know.take_fascia(&me.truth, &fascia, |t| me.ord_of(author, t));
            know
        });
        if !ok {
            self.chain.drop_tx(txid);
            return None;
        }
        Some(txid)
    }

    /// Transfers for the payments of a witness transaction are put on the wire.
    pub fn send_transfers(&mut self, rng: &mut Rng, txid: Txid) {
        let Some(pack) = self.packs.get(&txid).cloned() else { return };
        for p in pack.payments {
            self.send_transfer(rng, p, txid);
        }
    }

    pub fn make_transfer(&mut self, p: usize, txid: Txid) -> Option<Transfer> {
        let pay = self.pays[p].clone();
        let know = &self.wallets[pay.payer].know;
        let consignable = pay.ops.iter().all(|o| {
            know.consignable(&self.truth, *o)
                && self.truth.op_bundle.get(o).and_then(|b| know.bundles.get(b)).map(|w| w.contains(&txid)).unwrap_or(false)
        });
        let outputs: Vec<XOutputSeal> =
            pay.vout.iter().map(|v| XChain::Bitcoin(OutputSeal::new(pay.method, Outpoint::new(txid, *v)))).collect();
        let secret = pay.blind.map(|s| s.conceal());
        let stock = &self.wallets[pay.payer].stock;
        let r = guard(|| stock.transfer(pay.contract, outputs, secret).map_err(|e| e.to_string()));
        match r {
            Ok(Ok(t)) => {
                if pay.ops.iter().all(|o| self.wallets[pay.payer].know.ops.contains_key(o)) {
                    self.check_transfer_complete(&pay, &t);
                }
                Some(t)
            }
            Ok(Err(e)) => {
                if consignable {
                    self.fail(&["C01", "C15"], format!("transfer of a known payment is refused: {e}"));
                }
                None
            }
            Err(e) => {
                self.fail(&["C01", "C17", "C15"], format!("creating a transfer aborts: {e}"));
                None
            }
        }
    }

    /// C15: the consignment must contain the operations of the payment with all their ancestors.
    pub fn check_transfer_complete(&mut self, pay: &Payment, t: &Transfer) {
        let mut have: BTreeSet<OpId> = BTreeSet::new();
        for wb in t.bundles.iter() {
            have.extend(wb.known_transitions().map(|t| t.id()));
        }
        let need = Know::ancestors(&self.truth, pay.ops.iter().copied());
        if let Some(miss) = need.difference(&have).next() {
            self.fail(&["C15", "C01"], format!("transfer lacks operation {miss} of the history it must prove"));
        }
        for id in &have {
            if let Some(op) = self.truth.ops.get(id) {
                if op.contract != pay.contract {
                    self.fail(&["C15", "C04"], s!("transfer carries an operation of another contract"));
                    return;
                }
            }
        }
    }

    pub fn send_transfer(&mut self, rng: &mut Rng, p: usize, txid: Txid) -> bool {
        let Some(t) = self.make_transfer(p, txid) else { return false };
        let (from, to) = (self.pays[p].payer, self.pays[p].payee);
        let armored = rng.chance(1, 8);
        let bytes = encode_transfer(&t, armored);
        self.types.insert(crate::rng::Digest::of(&crate::truth::ser(&t.types)));
        let m = Msg { from, to, kind: MsgKind::Transfer(p), bytes, armored, intact: true, txid: Some(txid) };
        self.sent.push(m.clone());
        self.net.push(m);
        true
    }

    /// One complete payment composition for an invoice, up to the message on the wire.
    pub fn pay(&mut self, rng: &mut Rng, payer: usize, invs: &[usize]) -> Option<Txid> {
        let mut used: BTreeSet<Outpoint> = BTreeSet::new();
        let mut order: Vec<Outpoint> = vec![];
        let mut infos: Vec<TransitionInfo> = vec![];
        let mut extra = vec![];
        let mut pays = vec![];
        for n in invs {
            let inv = self.invs[*n].clone();
            let Some(sel) = self.coin_select(rng, payer, inv.contract, &inv.what, &used) else { continue };
            let vout = Vout::from_u32(3 + extra.len() as u32);
            let Some(list) = self.compose(rng, payer, *n, &sel, vout) else { continue };
            if self.viol.is_some() {
                return None;
            }
            used.extend(sel.iter().copied());
            order.extend(sel);
            let main: Vec<OpId> = list
                .iter()
                .filter(|i| i.transition.contract_id == inv.contract)
                .map(|i| i.transition.id())
                .collect();
            let secret = inv.blind.map(|s| s.conceal());
            let ops: Vec<OpId> = list
                .iter()
                .filter(|i| main.contains(&i.transition.id()))
                .filter(|i| {
                    Op::of_transition(&i.transition).outs.values().any(|o| match secret {
                        Some(s) => o.secret == s,
                        None => matches!(&o.seal, Some(XChain::Bitcoin(s)) if s.vout == vout),
                    })
                })
                .map(|i| i.transition.id())
                .collect();
            infos.extend(list);
            if inv.blind.is_none() {
                extra.push(inv.spk.clone());
            }
            self.invs[*n].used = true;
            self.pays.push(Payment {
                payer,
                payee: inv.payee,
                contract: inv.contract,
                what: inv.what.clone(),
                blind: inv.blind,
                vout: inv.blind.is_none().then_some(vout),
                method: inv.method,
                txids: vec![],
                ops,
                taken: BTreeSet::new(),
            });
            pays.push(self.pays.len() - 1);
        }
        if infos.is_empty() {
            return None;
        }
        let bundles = self.bundle_up(&infos, &order);
        let pack = Pack {
            author: payer,
            inputs: order,
            bundles,
            host: internal_pk(rng),
            extra,
            payments: pays,
            change: [spk_wpkh(rng)],
        };
        let txid = self.commit_pack(rng, pack)?;
        self.count("payments");
        Some(txid)
    }

    /// A custom operation moving all the state of the chosen outpoints, publishing global state.
    pub fn custom(&mut self, rng: &mut Rng, w: usize, contract: ContractId) -> Option<Txid> {
        if self.truth.rich.get(&contract) != Some(&true) {
            return None;
        }
        let list = self.spendables(w, contract);
        let (_, seal, _) = rng.pick(&list)?.clone();
        let mut sel = vec![xoutpoint(&seal)?];
        if let Some((_, s, _)) = rng.pick(&list) {
            let o = xoutpoint(s)?;
            if rng.chance(1, 3) && !sel.contains(&o) && self.chain.consistent([sel[0], o]) {
                sel.push(o);
            }
        }
        let op_name = if rng.chance(2, 3) { "note" } else { "issue" };
        let prio = rng.next();
        let mut globals: Vec<(&'static str, rgbstd::stl::Details)> = vec![];
        for _ in 0..1 + rng.below(3) {
            if op_name == "note" && rng.chance(1, 2) {
                globals.push(("note", Self::text(rng, "note")));
            } else {
                globals.push(("log", Self::text(rng, "log")));
            }
        }
        let memo = Self::text(rng, "memo");
        let mint = (op_name == "issue" && rng.chance(1, 2)).then(|| 1 + rng.below(500));
        // Operations may also give state up, down to operations which assign nothing
        let drop = if op_name == "note" && rng.chance(1, 5) { 1 + rng.below(2) } else { 0 };
        let wrong = rng.chance(1, 4);
        let mut alien = None;
        let parts = if drop == 0 && rng.chance(1, 6) { 2 + rng.below(24) } else { 1 };
        let mut contracts: Vec<ContractId> = self.wallets[w].know.contracts.iter().copied().collect();
        rng.shuffle(&mut contracts);
        let mut infos = vec![];
        let mut first = true;
        self.sync_clock(w);
        for c in std::iter::once(contract).chain(contracts.into_iter().filter(|c| *c != contract)) {
            let stock = &self.wallets[w].stock;
            let mut sub = rng.fork();
            let r = guard(|| -> Result<Vec<TransitionInfo>, String> {
                let e = |e: &dyn std::fmt::Display| e.to_string();
                let assigns =
                    stock.contract_assignments_for(c, sel.iter().map(|o| xop(*o))).map_err(|x| e(&x))?;
                let mut by: BTreeMap<u8, Vec<(XOutputSeal, BTreeMap<Opout, PersistedState>)>> = BTreeMap::new();
                for (s, m) in assigns {
                    by.entry(s.method() as u8).or_default().push((s, m.into_iter().collect()));
                }
                let mut r = vec![];
                for (_, mut list) in by {
                    list.sort_by_key(|x| x.0);
                    let mut b: TransitionBuilder = if c == contract {
                        stock.transition_builder(c, "SimAsset", Some(op_name)).map_err(|x| e(&x))?
                    } else {
                        stock.blank_builder(c, "SimAsset").map_err(|x| e(&x))?
                    };
                    b = b.set_nonce(prio);
                    let mut seals = vec![];
                    for (s, m) in list {
                        seals.push(s);
                        for (opout, st) in m {
                            let seal = vout_seal(&mut sub);
                            b = b.add_input(opout, st.clone()).map_err(|x| e(&x))?;
                            // an amount of another asset
                            if let (true, PersistedState::Amount(v, f, t)) = (wrong, &st) {
                                let mut tag = t.to_byte_array();
                                tag[sub.below(32) as usize] ^= 1 << sub.below(8);
                                let st = PersistedState::Amount(*v, *f, AssetTag::from(tag));
                                if b.clone().add_owned_state_raw(opout.ty, seal, st.clone()).is_ok() {
                                    alien = Some("an operation takes an amount of another asset");
                                }
                            }
                            if c == contract && (drop == 1 || drop == 2 && sub.chance(1, 2)) {
                                continue;
                            }
                            // into many parts
                            if let (true, PersistedState::Amount(v, _, t)) = (parts > 1, &st) {
                                let mut rest = v.value();
                                for n in (1..=parts.min(rest)).rev() {
                                    let part = if n == 1 { rest } else { 1 + sub.below((rest - n) * 2 / n + 1) };
                                    rest -= part;
                                    let st = PersistedState::Amount(part.into(), random_blinding(&mut sub), *t);
                                    b = b.add_owned_state_raw(opout.ty, vout_seal(&mut sub), st).map_err(|x| e(&x))?;
                                }
                                continue;
                            }
                            let st = match st {
                                // A factor used again would leave nothing to balance with
                                PersistedState::Amount(v, _, t) => {
                                    PersistedState::Amount(v, random_blinding(&mut sub), t)
                                }
                                st => st,
                            };
                            b = b.add_owned_state_raw(opout.ty, seal, st).map_err(|x| e(&x))?;
                        }
                    }
                    if c == contract {
                        if op_name == "issue" {
                            b = b.add_metadata("memo", memo.clone()).map_err(|x| e(&x))?;
                        }
                        if first {
                            for (n, v) in &globals {
                                b = b.add_global_state(*n, v.clone()).map_err(|x| e(&x))?;
                            }
                            if let Some(v) = mint {
                                b = b
                                    .add_fungible_state("asset", vout_seal(&mut sub), v)
                                    .map_err(|x| e(&x))?;
                            }
                            first = false;
                        }
                    }
                    let t = b.complete_transition().map_err(|x| e(&x))?;
                    r.push(TransitionInfo::new(t, seals).map_err(|x| e(&x))?);
                }
                Ok(r)
            });
            match r {
                Ok(Ok(l)) => infos.extend(l),
                Ok(Err(e)) => {
                    self.fail(&["C17", "C01", "C13"], format!("building a sound operation is refused: {e}"));
                    return None;
                }
                Err(p) => {
                    self.fail(&["C17", "C01", "C13"], format!("building a sound operation aborts: {p}"));
                    return None;
                }
            }
        }
        if !infos.iter().any(|i| i.transition.contract_id == contract) {
            return None;
        }
        if let Some(m) = alien {
            self.fail(&["C13"], m);
            return None;
        }
        // What was put into the builder must be in the operation
        let built: Vec<Op> =
            infos.iter().filter(|i| i.transition.contract_id == contract).map(|i| Op::of_transition(&i.transition)).collect();
        let n: usize = built.iter().flat_map(|o| o.globals.values()).map(|v| v.len()).sum();
        if n != globals.len() {
            self.fail(&["C13"], format!("{} global values were added but the operation has {n}", globals.len()));
        }
        if op_name == "issue" && built.iter().any(|o| o.meta.len() != 1) {
            self.fail(&["C13"], "metadata given to the builder is missing in the operation");
        }
        let bundles = self.bundle_up(&infos, &sel);
        let pack = Pack {
            author: w,
            inputs: sel,
            bundles,
            host: internal_pk(rng),
            extra: vec![],
            payments: vec![],
            change: [spk_wpkh(rng)],
        };
        let txid = self.commit_pack(rng, pack)?;
        self.count("custom operations");
        if parts > 1 {
            self.count("splits into many parts");
        }
        Some(txid)
    }

    /// Replacement of an unconfirmed transaction: the same bundles in a new transaction.
    pub fn rbf(&mut self, rng: &mut Rng) -> Option<Txid> {
        let cands: Vec<Txid> = self
            .chain
            .order
            .iter()
            .copied()
            .filter(|t| self.chain.st(*t) == Some(TxSt::Mempool) && self.packs.contains_key(t))
            .collect();
        let old = *rng.pick(&cands)?;
        let mut pack = self.packs[&old].clone();
        if rng.chance(1, 2) {
            pack.change = [spk_wpkh(rng)];
        }
        let txid = self.commit_pack(rng, pack)?;
        self.count("replacements");
        Some(txid)
    }

    pub fn share_contract(&mut self, rng: &mut Rng, from: usize, to: usize, contract: ContractId) {
        let stock = &self.wallets[from].stock;
        match guard(|| stock.export_contract(contract).map_err(|e| e.to_string())) {
            Ok(Ok(c)) => {
                let armored = rng.chance(1, 8);
                let bytes = encode_contract(&c, armored);
                self.types.insert(crate::rng::Digest::of(&crate::truth::ser(&c.types)));
                let m = Msg { from, to, kind: MsgKind::Contract, bytes, armored, intact: true, txid: None };
                self.sent.push(m.clone());
                self.net.push(m);
            }
            Ok(Err(e)) => self.fail(&["C01", "C15"], format!("export of a known contract is refused: {e}")),
            Err(p) => self.fail(&["C17", "C01", "C15"], format!("export of a known contract aborts: {p}")),
        }
    }

    /// Delivers one message to its addressee. Returns whether it was accepted.
    pub fn deliver(&mut self, m: &Msg) -> bool {
        let to = m.to;
        match m.kind {
            MsgKind::Kit => false,
            MsgKind::Contract => {
                let c = match guard(|| decode_contract(&m.bytes, m.armored)) {
                    Ok(Ok(c)) => c,
                    Ok(Err(e)) => {
                        if m.intact {
                            self.fail(&["C11", "C01"], format!("intact contract is not decoded: {e}"));
                        }
                        return false;
                    }
                    Err(p) if !m.intact && known_abort(&p) => {
                        self.count("damaged range proofs (known finding)");
                        return false;
                    }
                    Err(p) => {
                        self.fail(&["C04", "C11", "C17"], format!("decoding a contract aborts: {p}"));
                        return false;
                    }
                };
                self.take_consignment(to, c, m.intact, "importing a contract")
            }
            MsgKind::Transfer(p) => {
                let t = match guard(|| decode_transfer(&m.bytes, m.armored)) {
                    Ok(Ok(c)) => c,
                    Ok(Err(e)) => {
                        if m.intact {
                            self.fail(&["C11", "C01"], format!("intact transfer is not decoded: {e}"));
                        }
                        return false;
                    }
                    Err(p) if !m.intact && known_abort(&p) => {
                        self.count("damaged range proofs (known finding)");
                        return false;
                    }
                    Err(p) => {
                        self.fail(&["C04", "C11", "C17"], format!("decoding a transfer aborts: {p}"));
                        return false;
                    }
                };
                let ok = self.take_consignment(to, t, m.intact, "accepting a transfer");
                if ok && m.intact {
                    if let Some(txid) = m.txid {
                        self.pays[p].taken.insert(txid);
                    }
                }
                ok
            }
        }
    }

    /// Whether the consignment contains nothing but authentic operations, each properly anchored.
    pub fn authentic<const T: bool>(&self, c: &rgbstd::containers::Consignment<T>) -> bool {
        let g = Op::of_genesis(&c.genesis);
        if !self.truth.ops.contains_key(&g.id) {
            return false;
        }
        c.bundles.iter().all(|wb| {
            let Some(txid) = txid_of(wb.witness_id()) else { return false };
            wb.anchored_bundles.bundles().all(|b| {
                let id = b.bundle_id();
                self.truth.anchored.get(&id).map(|s| s.contains(&txid)).unwrap_or(false)
                    && b.known_transitions.iter().all(|(k, t)| {
                        *k == t.id() && self.truth.bundles[&id].ops.contains(k)
                    })
            })
        })
    }

    /// Whether the wallet can see all the witnesses and they can exist together. A wallet which has not
    /// yet learned that one of its transactions got replaced may tell the history by the abandoned
    /// one: that is to be refused.
    pub fn verifiable<const T: bool>(&self, c: &rgbstd::containers::Consignment<T>, w: usize) -> bool {
        let ids: Option<Vec<Txid>> = c.bundles.iter().map(|wb| txid_of(wb.witness_id())).collect();
        let Some(ids) = ids else { return false };
        ids.iter().all(|t| self.chain.visible(*t, w))
            && self.chain.consistent(ids.iter().map(|t| Outpoint::new(*t, Vout::from_u32(0))))
    }

    /// Whether the interfaces with their implementations are those which exist in the simulated world.
    pub fn genuine_kit<const T: bool>(&self, c: &rgbstd::containers::Consignment<T>) -> bool {
        use crate::truth::ser;
        let k = &self.kits;
        self.types.contains(&crate::rng::Digest::of(&ser(&c.types))) && c.ifaces.iter().all(|(i, m)| {
            [&k.base, &k.asset].iter().any(|x| ser(*x) == ser(i))
                && [&k.rich_impl, &k.rich_base_impl, &k.plain_impl].iter().any(|x| ser(*x) == ser(m))
        }) && crate::kits::genuine_sigs(c.signatures.iter())
    }

    pub fn take_consignment<const T: bool>(
        &mut self,
        w: usize,
        c: rgbstd::containers::Consignment<T>,
        intact: bool,
        what: &str,
    ) -> bool
    where
        rgbstd::containers::ValidConsignment<T>: Take + Clone,
    {
        if !intact && !self.types.contains(&crate::rng::Digest::of(&crate::truth::ser(&c.types))) {
            // Known finding: definitions of types are not authenticated by anything, and reading data by
            // an altered definition reserves memory according to any length it finds.
            self.count("damaged type definitions left out (known finding)");
            return false;
        }
        let visible = self.verifiable(&c, w);
        let copy = c.clone();
        self.fault_hit = false;
        let spare = self.fault.clone();
        if !self.fault_early && !matches!(spare, Fault::Lag(_)) {
            self.fault = Fault::None;
        }
        let mut r = self.call(w, |_, r| c.validate(&r, true).map_err(|(s, _)| format!("{s:?}")));
        if self.fault_hit {
            self.note(s!("  chain source fails during validation"));
            if let Ok(Ok(_)) = &r {
                self.fail(&["C04"], format!("{what}: passes validation though its witness could not be looked up"));
            }
            self.count("validations under failing lookups");
            self.fault = Fault::None;
            self.fault_hit = false;
            let c = copy.clone();
            r = self.call(w, |_, r| c.validate(&r, true).map_err(|(s, _)| format!("{s:?}")));
        } else {
            self.fault = spare;
        }
        let valid = match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => {
                if intact && visible && !self.fault_hit {
                    self.fail(&["C01"], format!("{what}: sound data fails validation: {}", brief(&e)));
                }
                return false;
            }
            Err(p) => {
                self.fail(&["C04", "C17", "C01"], format!("{what}: validation aborts: {p}"));
                return false;
            }
        };
        let authentic = self.authentic(&copy);
        if !authentic && copy.bundles.is_empty() && !self.truth.geneses.contains_key(&copy.genesis.contract_id()) {
            // Another contract of the damaged genesis, exposed by its identifier
            return false;
        }
        if !authentic {
            self.fail(&["C04"], format!("{what}: data which never existed passes validation"));
            return false;
        }
        if !intact && !self.genuine_kit(&copy) {
            // Trust in the authors of interfaces is out of scope: such data must not break the stock,
            // but it may replace what was known about the interface. Tried aside.
            use nonasync::persistence::CloneNoPersistence;
            let mut aside = self.wallets[w].stock.clone_no_persistence();
            let r = self.call(w, |_, r| valid.clone().take(&mut aside, r));
            if let Err(p) = r {
                self.fail(&["C04", "C17"], format!("{what}: taking data with an unknown implementation aborts: {p}"));
            }
            return false;
        }
        let secrets = self.wallets[w].secrets.clone();
        let secrets: BTreeMap<_, _> =
            secrets.into_iter().filter(|(s, _)| self.wallets[w].know.secrets.contains(s)).collect();
        let r = self.mutate(w, |s, r| valid.clone().take(s, r));
        self.count("consignments validated");
        if !intact {
            // Valid and authentic in its operations, but something else in the container may differ from
            // what was sent; a refusal is fine here, acceptance must act as an authentic delivery.
            if let Ok(Err(_)) = &r {
                return false;
            }
        }
        let ok = self.settle(w, what, r, |me| {
            let mut know = me.wallets[w].know.clone();
            know.take(&me.truth, &copy, &secrets, |t| me.ord_of(w, t));
            if intact {
                know.extras.extend(crate::oracle::consignment_lines(&copy));
            }
            know
        });
        if ok {
            self.count("consignments accepted");
        }
        ok
    }

    pub fn update(&mut self, w: usize, after: u32) {
        let before = self.wallets[w].know.clone();
        let (lf, lag) = self.lookup_fault();
        let r = self.mutate(w, |s, r| {
            let u = s.update_witnesses(r, after).map_err(|e| e.to_string())?;
            Ok::<_, String>((u.succeeded, u.failed.keys().copied().collect::<Vec<_>>(), r.failed.borrow().clone()))
        });
        match r {
            Ok(Ok((succeeded, failed, really_failed))) => {
                let mut know = before.clone();
                let mut asked = 0usize;
                let mut exp_failed = BTreeSet::new();
                for (txid, ord) in &before.ords {
                    if matches!(ord, WitnessOrd::Mined(p) if p.height().get() < after) {
                        continue;
                    }
                    asked += 1;
                    let unknown = self.chain.ord(*txid, w, lag).is_none();
                    let bad = unknown
                        || match &lf {
                            LookupFault::FailIds { .. } => Resolver::hits(&lf, *txid),
                            LookupFault::Fail { .. } => really_failed.contains(txid),
                            LookupFault::None => false,
                        };
                    if bad {
                        exp_failed.insert(*txid);
                    } else {
                        know.ords.insert(*txid, self.chain.ord(*txid, w, lag).unwrap());
                    }
                }
                let got: BTreeSet<Txid> = failed.iter().filter_map(|x| txid_of(*x)).collect();
                if got != exp_failed {
                    self.fail(
                        &["C07"],
                        format!("update reports {} failed lookups, {} failed", got.len(), exp_failed.len()),
                    );
                }
                if succeeded != asked - exp_failed.len() {
                    self.fail(
                        &["C07"],
                        format!(
                            "update reports {succeeded} refreshed witnesses, {} were refreshed",
                            asked - exp_failed.len()
                        ),
                    );
                }
                self.wallets[w].know = know;
                self.count("witness updates");
            }
            Ok(Err(e)) => {
                if !self.fault_hit {
                    self.fail(&["C07"], format!("update of witnesses fails: {e}"));
                }
            }
            Err(p) => self.fail(&["C07", "C17", "C09", "C08"], format!("update of witnesses aborts: {p}")),
        }
    }
}

/// Whether the proofs cover the bundle.
pub fn anchors_bundle(a: &AnchorSet, method: CloseMethod, b: rgbstd::BundleId) -> bool {
    let block = match (a, method) {
        (AnchorSet::Tapret(t) | AnchorSet::Double { tapret: t, .. }, CloseMethod::TapretFirst) => &t.mpc_proof,
        (AnchorSet::Opret(t) | AnchorSet::Double { opret: t, .. }, CloseMethod::OpretFirst) => &t.mpc_proof,
        _ => return false,
    };
    let msg = mpc::Message::from(b);
    block.to_known_message_map().values().any(|m| *m == msg)
}

pub fn vout_seal(rng: &mut Rng) -> BuilderSeal<GraphSeal> {
    let m = World::pick_method(rng);
    let v = Vout::from_u32(1 + rng.below(2) as u32);
    BuilderSeal::Revealed(XChain::Bitcoin(GraphSeal::with_blinded_vout(m, v, rng.next())))
}

/// Known finding: the decoder of range proofs in rgb-core aborts whatever it gets.
pub fn known_abort(p: &str) -> bool { p.starts_with("bulletproofs dummies must never be read at ") && p.contains("/fungible.rs:") }

pub fn brief(s: &str) -> String { s.chars().take(400).collect() }

/// Acceptance through the public entry point for the container type.
pub trait Take {
    fn take(self, s: &mut Stock, r: &Resolver) -> Result<(), String>;
}
impl Take for rgbstd::containers::ValidConsignment<true> {
    fn take(self, s: &mut Stock, r: &Resolver) -> Result<(), String> {
        s.accept_transfer(self, r).map(|_| ()).map_err(|e| e.to_string())
    }
}
impl Take for rgbstd::containers::ValidConsignment<false> {
    fn take(self, s: &mut Stock, r: &Resolver) -> Result<(), String> {
        s.import_contract(self, r).map(|_| ()).map_err(|e| e.to_string())
    }
}

pub fn encode_transfer(t: &Transfer, armored: bool) -> Vec<u8> {
    if armored {
        t.to_string().into_bytes()
    } else {
        let mut v = vec![];
        t.save(&mut v).expect("in-memory write");
        v
    }
}
pub fn encode_contract(t: &Contract, armored: bool) -> Vec<u8> {
    if armored {
        t.to_string().into_bytes()
    } else {
        let mut v = vec![];
        t.save(&mut v).expect("in-memory write");
        v
    }
}
pub fn decode_transfer(b: &[u8], armored: bool) -> Result<Transfer, String> {
    if armored {
        let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
        Transfer::from_str(s).map_err(|e| e.to_string())
    } else {
        Transfer::load(b).map_err(|e| e.to_string())
    }
}
pub fn decode_contract(b: &[u8], armored: bool) -> Result<Contract, String> {
    if armored {
        let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
        Contract::from_str(s).map_err(|e| e.to_string())
    } else {
        Contract::load(b).map_err(|e| e.to_string())
    }
}

pub fn random_blinding(rng: &mut Rng) -> BlindingFactor {
    loop {
        let mut b = rng.bytes32();
        b[0] &= 0x7f;
        if let Ok(f) = BlindingFactor::try_from(b) {
            return f;
        }
    }
}

pub fn token_essence(a: Allocation) -> Vec<u8> {
    St::data(&rgbstd::RevealedData::with_salt(data_state(&a), 0)).essence().2
}

pub fn commitment(t: &MerkleTree) -> mpc::Commitment {
    use commit_verify::CommitId;
    t.commit_id()
}

/// Blinding factor of a serialized fungible state.
pub fn blinding_of(st: &St) -> [u8; 32] {
    let mut b = [0u8; 32];
    b.copy_from_slice(&st.bytes[9..41]);
    b
}

/// Checks that blinding factors of inputs and outputs sum up, for every fungible type.
pub fn pedersen_problem(
    t: &rgbstd::Transition,
    ins: &BTreeMap<Opout, (XOutputSeal, St)>,
) -> Option<String> {
    let op = Op::of_transition(t);
    let mut types: BTreeMap<AssignmentType, (Vec<BlindingFactor>, Vec<BlindingFactor>)> = BTreeMap::new();
    let bf = |st: &St| BlindingFactor::try_from(blinding_of(st)).ok();
    for i in &op.inputs {
        if let Some((_, st)) = ins.get(i) {
            if st.kind == 1 {
                types.entry(i.ty).or_default().0.push(bf(st)?);
            }
        }
    }
    for ((ty, _), o) in &op.outs {
        if let Some(st) = &o.st {
            if st.kind == 1 {
                types.entry(*ty).or_default().1.push(bf(st)?);
            }
        }
    }
    for (ty, (i, mut o)) in types {
        let Some(last) = o.pop() else { continue };
        let want = BlindingFactor::zero_balanced(i, o).ok();
        if want != Some(last) {
            return Some(format!("commitments to state type {ty} are not balanced"));
        }
    }
    None
}

#[derive(Clone, Debug)]
pub enum Item {
    Asset(u64),
    Bonus(u64),
    Token(Allocation),
    Memo(String),
    Right,
    File([u8; 32]),
}

/// What an issuer wants to have in the contract.
#[derive(Clone, Default)]
pub struct IssuePlan {
    pub rich: bool,
    pub mainnet: bool,
    pub det: bool,
    pub liquid: bool,
    /// asset tags are given right before the state
    pub late: bool,
    pub timestamp: i64,
    pub spec: Option<rgbstd::stl::AssetSpec>,
    pub items: Vec<(XChain<GenesisSeal>, Item)>,
    pub notes: Vec<rgbstd::stl::Details>,
    pub logs: Vec<rgbstd::stl::Details>,
    pub memo: Option<rgbstd::stl::Details>,
    pub tags: ([u8; 32], [u8; 32]),
    pub salt: u64,
}

impl IssuePlan {
    pub fn build(
        &self,
        mut b: rgbstd::interface::ContractBuilder,
    ) -> Result<rgbstd::containers::ValidContract, String> {
        fn e(e: impl std::fmt::Display) -> String { e.to_string() }
        if self.mainnet {
            b = b.set_mainnet();
        }
        if self.liquid {
            b = b.add_layer1(rgbstd::AltLayer1::Liquid).map_err(e)?;
        }
        b = b.add_asset_tag("asset", AssetTag::from(self.tags.0)).map_err(e)?;
        let mut tagged = !self.rich;
        if self.rich && !self.late {
            b = b.add_asset_tag("bonus", AssetTag::from(self.tags.1)).map_err(e)?;
            tagged = true;
        }
        b = b.add_global_state("spec", self.spec.clone().expect("spec is set")).map_err(e)?;
        for n in &self.notes {
            b = b.add_global_state("note", n.clone()).map_err(e)?;
        }
        for n in &self.logs {
            b = b.add_global_state("log", n.clone()).map_err(e)?;
        }
        if let (false, Some(m)) = (self.rich, &self.memo) {
            b = b.add_metadata("memo", m.clone()).map_err(e)?;
        }
        let mut rng = Rng::new(self.salt);
        for (seal, item) in &self.items {
            if !tagged && matches!(item, Item::Bonus(_)) {
                b = b.add_asset_tag("bonus", AssetTag::from(self.tags.1)).map_err(e)?;
                tagged = true;
            }
            b = match item {
                Item::Asset(v) if self.det => {
                    b.add_fungible_state_det("asset", *seal, *v, random_blinding(&mut rng)).map_err(e)?
                }
                Item::Bonus(v) if self.det => {
                    b.add_fungible_state_det("bonus", *seal, *v, random_blinding(&mut rng)).map_err(e)?
                }
                Item::Token(a) if self.det => {
                    b.add_data_det("token", *seal, rgbstd::RevealedData::with_salt(data_state(a), rng.next() as u128)).map_err(e)?
                }
                Item::Memo(m) if self.det => {
                    b.add_data_det("memo", *seal, rgbstd::RevealedData::with_salt(data_state(&name(m)), rng.next() as u128)).map_err(e)?
                }
                Item::File(id) if self.det => {
                    b.add_attachment_det("file", *seal, rgbstd::RevealedAttach { file: attach(*id), salt: rng.next() }).map_err(e)?
                }
                Item::Asset(v) => b.add_fungible_state("asset", *seal, *v).map_err(e)?,
                Item::Bonus(v) => b.add_fungible_state("bonus", *seal, *v).map_err(e)?,
                Item::Token(a) => b.add_data("token", *seal, *a).map_err(e)?,
                Item::Memo(m) => b.add_data("memo", *seal, name(m)).map_err(e)?,
                Item::Right => b.add_rights("right", *seal).map_err(e)?,
                Item::File(id) => b.add_attachment("file", *seal, attach(*id)).map_err(e)?,
            };
        }
        if !tagged {
            b = b.add_asset_tag("bonus", AssetTag::from(self.tags.1)).map_err(e)?;
        }
        if self.det {
            b.issue_contract_det(self.timestamp).map_err(e)
        } else {
            b.issue_contract().map_err(e)
        }
    }

    /// Compares the contract with the plan.
    pub fn check(&self, c: &Contract, clock: i64) -> Option<String> {
        let op = Op::of_genesis(&c.genesis);
        let mut want: Vec<(AssignmentType, XChain<SecretSeal>, (u8, u64, Vec<u8>))> = self
            .items
            .iter()
            .map(|(s, i)| {
                let secret = s.conceal();
                let data = |d: rgbstd::DataState| St::data(&rgbstd::RevealedData::with_salt(d, 0)).essence();
                match i {
                    Item::Asset(v) => (schema::OS_ASSET, secret, (1, *v, vec![])),
                    Item::Bonus(v) => (schema::OS_BONUS, secret, (1, *v, vec![])),
                    Item::Token(a) => (schema::OS_TOKEN, secret, data(data_state(a))),
                    Item::Memo(m) => (schema::OS_MEMO, secret, data(data_state(&name(m)))),
                    Item::Right => (schema::OS_RIGHT, secret, (0, 0, vec![])),
                    Item::File(id) => (
                        schema::OS_FILE,
                        secret,
                        St::attach(&rgbstd::RevealedAttach { file: attach(*id), salt: 0 }).essence(),
                    ),
                }
            })
            .collect();
        let mut got: Vec<_> = op
            .outs
            .iter()
            .map(|((t, _), o)| (*t, o.secret, o.st.as_ref().map(|s| s.essence()).unwrap_or((9, 0, vec![]))))
            .collect();
        want.sort();
        got.sort();
        if want != got {
            return Some(format!("issued contract has {} assignments which are not the {} given", got.len(), want.len()));
        }
        if op.outs.values().any(|o| o.seal.is_none()) {
            return Some(s!("issuer's own contract conceals a given seal"));
        }
        let vals = |l: &[rgbstd::stl::Details]| l.iter().map(ser_value).collect::<Vec<_>>();
        for (ty, want) in [
            (schema::GS_SPEC, vec![ser_value(self.spec.as_ref().unwrap())]),
            (schema::GS_NOTE, vals(&self.notes)),
            (schema::GS_LOG, vals(&self.logs)),
        ] {
            let got = op.globals.get(&ty).cloned().unwrap_or_default();
            if got != want {
                return Some(format!("issued contract has {} global values of type {ty} instead of {}", got.len(), want.len()));
            }
        }
        if op.globals.len() > 3 {
            return Some(s!("issued contract has global state which was not given"));
        }
        let meta: Vec<Vec<u8>> = op.meta.values().cloned().collect();
        let want: Vec<Vec<u8>> =
            if self.rich { vec![] } else { self.memo.iter().map(ser_value).collect() };
        if meta != want {
            return Some(format!("issued contract has {} metadata items instead of {}", meta.len(), want.len()));
        }
        let time = if self.det { self.timestamp } else { clock };
        if c.genesis.timestamp != time {
            return Some(format!("issued contract is dated {} instead of {time}", c.genesis.timestamp));
        }
        if c.genesis.testnet == self.mainnet {
            return Some(s!("issued contract is for a wrong network"));
        }
        if c.genesis.alt_layers1.iter().count() != self.liquid as usize {
            return Some(s!("issued contract is for other layers"));
        }
        let tags: BTreeMap<AssignmentType, AssetTag> = c.genesis.asset_tags.iter().map(|(k, v)| (*k, *v)).collect();
        let mut want = BTreeMap::from([(schema::OS_ASSET, AssetTag::from(self.tags.0))]);
        if self.rich {
            want.insert(schema::OS_BONUS, AssetTag::from(self.tags.1));
        }
        if tags != want {
            return Some(s!("issued contract has other asset tags"));
        }
        None
    }
}

pub fn name(m: &str) -> rgbstd::stl::Name { rgbstd::stl::Name::try_from(m.to_owned()).expect("valid name") }
pub fn attach(id: [u8; 32]) -> AttachState {
    AttachState { id: AttachId::from(id), media_type: MediaType::Any }
}
/// Serialized value as it is kept in global state and metadata.
pub fn ser_value<T: strict_encoding::StrictEncode>(v: &T) -> Vec<u8> { crate::truth::ser(v) }

pub fn data_state<T: strict_encoding::StrictEncode>(v: &T) -> rgbstd::DataState {
    rgbstd::DataState::from_inner(Confined::try_from(crate::truth::ser(v)).expect("small"))
}
