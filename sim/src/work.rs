//! C16: the effort of operations over growing histories of many shapes.
//!
//! Effort is counted, not timed: heap allocations and comparisons of memory made by the thread, and questions
//! put to the resolver. The resolver's own effort is not counted.

use std::cell::Cell;
use std::collections::BTreeMap;

use bp::seals::txout::CloseMethod;
use bp::{Outpoint, Tx, Txid, Vout};
use commit_verify::Conceal;
use nonasync::persistence::CloneNoPersistence;
use rgbinvoice::{Beneficiary, ChainNet, RgbInvoiceBuilder, XChainNet};
use rgbstd::containers::{BuilderSeal, ConsignmentExt, Fascia, TransitionInfo};
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, XWitnessId, XWitnessTx};
use rgbstd::{ContractId, GraphSeal, OutputSeal, XChain, XOutputSeal};

use crate::chain::{internal_pk, spk_wpkh};
use crate::rng::Rng;
use crate::schema::OS_ASSET;
use crate::sys;
use crate::truth::xoutpoint;
use crate::world::{guard, random_blinding, IssuePlan, Item, Pack, World};

/// Answers every question about the transactions of the history.
struct Known {
    txs: BTreeMap<Txid, Tx>,
    own: Cell<u64>,
    calls: Cell<u64>,
}

impl Known {
    fn own<T>(&self, f: impl FnOnce() -> T) -> T {
        let a = sys::work();
        let r = f();
        self.calls.set(self.calls.get() + 1);
        self.own.set(self.own.get() + sys::work() - a);
        r
    }
}

impl ResolveWitness for Known {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        self.own(|| match id {
            XChain::Bitcoin(t) => self.txs.get(&t).cloned().map(XChain::Bitcoin),
            _ => None,
        })
        .ok_or(WitnessResolverError::Unknown(id))
    }

    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        self.own(|| match id {
            XChain::Bitcoin(t) => self.txs.contains_key(&t).then_some(WitnessOrd::Tentative),
            _ => None,
        })
        .ok_or(WitnessResolverError::Unknown(id))
    }
}

#[derive(Clone, Copy)]
struct Coin {
    seal: XOutputSeal,
    value: u64,
}

struct Lab {
    stock: Stock,
    base: Stock,
    id: ContractId,
    known: Known,
    coins: Vec<Coin>,
    ops: usize,
    size: usize,
    method: CloseMethod,
}

const SHAPES: [&str; 8] = [
    "history: chain",
    "history: diamonds",
    "history: ladder",
    "history: fan",
    "history: tree",
    "history: batch",
    "history: random",
    "history: wide",
];

type Effort = BTreeMap<&'static str, (u64, u64)>;

impl World {
    pub fn work(&mut self, r: &mut Rng) {
        let shape = r.below(SHAPES.len() as u64) as usize;
        let Some(mut lab) = self.lab(r) else { return };
        let top = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 288 } else { 96 };
        let mut marks = vec![24usize, 36, 48, 72, 96, 144, 192, 288];
        marks.retain(|m| *m <= top);
        let mut seen: Vec<(usize, Effort)> = vec![];
        let base = match self.measure(r, &lab) {
            Ok(e) => e,
            Err(e) => return self.fail(&["C16", "C17", "C01"], format!("using a new contract fails: {e}")),
        };
        let mut level = 0;
        while lab.size < top {
            if let Err(e) = self.grow(r, &mut lab, shape, level) {
                return self.fail(&["C16", "C17", "C01"], format!("building a {} fails: {e}", SHAPES[shape]));
            }
            level += 1;
            let Some(m) = marks.first().copied() else { break };
            if lab.size < m {
                continue;
            }
            marks.retain(|m| *m > lab.size);
            let now = match self.measure(r, &lab) {
                Ok(e) => e,
                Err(e) => return self.fail(&["C16", "C17", "C01"], format!("using a {} of {} operations fails: {e}", SHAPES[shape], lab.ops)),
            };
            seen.push((lab.size, now));
            self.count("efforts measured");
            if let Some(msg) = excess(&base, &seen, shape) {
                return self.fail(&["C16"], format!("{}: {msg}", SHAPES[shape]));
            }
        }
        self.count(SHAPES[shape]);
    }

    fn lab(&mut self, r: &mut Rng) -> Option<Lab> {
        let mut stock = Stock::in_memory();
        stock.import_kit(self.kit(true).validate().ok()?).ok()?;
        let base = stock.clone_no_persistence();
        let mut plan = IssuePlan { rich: true, salt: r.next(), ..Default::default() };
        plan.spec = Some(Self::spec(r));
        plan.tags = (r.bytes32(), r.bytes32());
        let method = Self::pick_method(r);
        let mut coins = vec![];
        for _ in 0..1 + r.below(3) {
            let o = self.chain.fund(r);
            let value = 1 << 40;
            plan.items.push((Self::gseal(r, o, method), Item::Asset(value)));
            coins.push(Coin { seal: XChain::Bitcoin(OutputSeal::new(method, o)), value });
        }
        let (schema, iface) = self.schema_of(true);
        let b = stock.contract_builder(rgbstd::Identity::from("ssi:issuer"), schema, iface).ok()?;
        let c = plan.build(b).ok()?;
        let id = c.contract_id();
        let known = Known { txs: Default::default(), own: Cell::new(0), calls: Cell::new(0) };
        stock.import_contract(c, &known).ok()?;
        Some(Lab { stock, base, id, known, coins, ops: 0, size: 0, method })
    }

    /// One transaction with operations, each of which takes the coins and makes as many new ones.
    fn spend(&mut self, r: &mut Rng, lab: &mut Lab, jobs: &[(Vec<Coin>, usize)]) -> Result<(), String> {
        let mut infos = vec![];
        let mut inputs: Vec<Outpoint> = vec![];
        let mut made: Vec<(CloseMethod, u32, u64)> = vec![];
        let mut vout = 3u32;
        for (coins, outs) in jobs {
            let seals: Vec<XOutputSeal> = coins.iter().map(|c| c.seal).collect();
            inputs.extend(seals.iter().filter_map(xoutpoint));
            let map = lab.stock.contract_assignments_for(lab.id, seals.iter().copied()).map_err(|e| e.to_string())?;
            let mut t = lab.stock.transition_builder(lab.id, "SimAsset", Some("transfer")).map_err(|e| e.to_string())?;
            let mut sum = 0u64;
            for (o, st) in map.into_values().flatten() {
                if let PersistedState::Amount(v, ..) = &st {
                    sum += u64::from(*v);
                }
                t = t.add_input(o, st).map_err(|e| e.to_string())?;
            }
            for n in 0..*outs {
                let v = sum / (*outs - n) as u64;
                sum -= v;
                let seal = GraphSeal::with_blinded_vout(lab.method, Vout::from_u32(vout), r.next());
                t = t
                    .add_fungible_state_raw(OS_ASSET, BuilderSeal::Revealed(XChain::Bitcoin(seal)), v, random_blinding(r))
                    .map_err(|e| e.to_string())?;
                made.push((lab.method, vout, v));
                vout += 1;
            }
            let t = t.complete_transition().map_err(|e| e.to_string())?;
            infos.push(TransitionInfo::new(t, seals).map_err(|e| e.to_string())?);
        }
        let bundles = self.bundle_up(&infos, &inputs);
        let pack = Pack {
            author: 0,
            inputs,
            bundles,
            host: internal_pk(r),
            extra: (3..vout).map(|_| spk_wpkh(r)).collect(),
            payments: vec![],
            change: [spk_wpkh(r)],
        };
        let full = r.chance(1, 2);
        let (tx, fascia): (Tx, Fascia) = self.anchor(r, &pack, full).ok_or("no anchor")?;
        let txid = tx.txid();
        lab.known.txs.insert(txid, tx);
        lab.stock.consume_fascia(fascia, &lab.known).map_err(|e| e.to_string())?;
        for (m, v, value) in made {
            lab.coins.push(Coin { seal: XChain::Bitcoin(OutputSeal::new(m, Outpoint::new(txid, Vout::from_u32(v)))), value });
        }
        lab.ops += jobs.len();
        lab.size += jobs.iter().map(|(i, o)| 1 + i.len() + o).sum::<usize>();
        Ok(())
    }

    fn grow(&mut self, r: &mut Rng, lab: &mut Lab, shape: usize, level: usize) -> Result<(), String> {
        let take = |coins: &mut Vec<Coin>, n: usize| -> Vec<Coin> {
            let n = n.min(coins.len());
            coins.drain(..n).collect()
        };
        let all = lab.coins.len();
        let jobs: Vec<(Vec<Coin>, usize)> = match shape {
            0 => vec![(take(&mut lab.coins, 1), 1)],
            // one becomes two, two become one
            1 if level % 2 == 0 => {
                let a = take(&mut lab.coins, all);
                vec![(a, 2)]
            }
            1 => vec![(take(&mut lab.coins, 2), 1)],
            // each operation takes two and makes two
            2 => vec![(take(&mut lab.coins, 2), 2)],
            // many from one, each moved alone, then collected
            3 if level % 16 == 0 => {
                let a = take(&mut lab.coins, all);
                vec![(a, 14)]
            }
            3 if level % 16 == 15 => {
                let a = take(&mut lab.coins, all);
                vec![(a, 1)]
            }
            3 => vec![(take(&mut lab.coins, 1), 1)],
            // doubling, later halving
            4 if (level / 12) % 2 == 0 => vec![(take(&mut lab.coins, 1), 2)],
            4 => vec![(take(&mut lab.coins, 2), 1)],
            // several operations at once
            5 if all < 8 => vec![(take(&mut lab.coins, 1), 3)],
            5 => (0..4).map(|_| (take(&mut lab.coins, 2), 2)).collect(),
            // one operation takes everything and makes more
            7 => {
                let a = take(&mut lab.coins, all);
                vec![(a, 1 + 3 * all / 2)]
            }
            _ => {
                let mut jobs = vec![];
                for _ in 0..1 + r.below(3) {
                    r.shuffle(&mut lab.coins);
                    let k = 1 + r.below(3) as usize;
                    let c = take(&mut lab.coins, k);
                    if c.is_empty() {
                        break;
                    }
                    jobs.push((c, 1 + r.below(3) as usize));
                }
                jobs
            }
        };
        self.spend(r, lab, &jobs)
    }

    fn measure(&mut self, r: &mut Rng, lab: &Lab) -> Result<Effort, String> {
        let mut e = Effort::new();
        // everything in being is to be consigned: the whole history counts
        let outs: Vec<XOutputSeal> = lab.coins.iter().map(|c| c.seal).collect();
        let mut run = |what: &'static str, f: &mut dyn FnMut() -> Result<(), String>| -> Result<(), String> {
            let (a, own, calls) = (sys::work(), lab.known.own.get(), lab.known.calls.get());
            match guard(f) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(format!("{what}: {e}")),
                Err(p) => return Err(format!("{what} aborts: {p}")),
            }
            e.insert(what, (sys::work() - a - (lab.known.own.get() - own), lab.known.calls.get() - calls));
            Ok(())
        };
        let mut t = None;
        run("consigning", &mut || {
            t = Some(lab.stock.transfer(lab.id, outs.clone(), None).map_err(|e| e.to_string())?);
            Ok(())
        })?;
        let t = t.expect("made");
        let mut v = None;
        let mut x = Some(t.clone());
        run("validating", &mut || {
            v = Some(x.take().expect("once").validate(&lab.known, true).map_err(|(s, _)| format!("{s:?}"))?);
            Ok(())
        })?;
        let v = v.expect("valid");
        let mut fresh = lab.base.clone_no_persistence();
        let mut x = Some(v.clone());
        run("accepting", &mut || fresh.accept_transfer(x.take().expect("once"), &lab.known).map(|_| ()).map_err(|e| e.to_string()))?;
        let mut x = Some(v);
        run("accepting again", &mut || fresh.accept_transfer(x.take().expect("once"), &lab.known).map(|_| ()).map_err(|e| e.to_string()))?;
        run("exporting", &mut || lab.stock.export_contract(lab.id).map(|_| ()).map_err(|e| e.to_string()))?;
        run("updating witnesses", &mut || fresh.update_witnesses(&lab.known, 0).map(|_| ()).map_err(|e| e.to_string()))?;
        run("listing owned state", &mut || {
            let i = fresh.contract_iface(lab.id, "SimAsset").map_err(|e| e.to_string())?;
            let n = i.fungible("asset", &rgbstd::interface::FilterIncludeAll).map_err(|e| e.to_string())?.count();
            if n < lab.coins.len() {
                return Err(format!("{n} allocations instead of {}", lab.coins.len()));
            }
            Ok(())
        })?;
        let n = r.below(lab.coins.len() as u64) as usize;
        let coin = lab.coins[n];
        let secret = GraphSeal::with_blinding(lab.method, Txid::from(r.bytes32()), Vout::from_u32(0), r.next()).conceal();
        let inv = RgbInvoiceBuilder::with(lab.id, XChainNet::with(ChainNet::BitcoinRegtest, Beneficiary::BlindedSeal(secret)))
            .set_interface("SimAsset")
            .set_amount_raw(1 + coin.value / 2)
            .finish();
        run("composing", &mut || {
            fresh.compose(&inv, [coin.seal], lab.method, None::<Vout>, |_, _, _| Some(Vout::from_u32(1))).map(|_| ()).map_err(|e| e.to_string())
        })?;
        Ok(e)
    }
}

/// Effort may grow a little faster than the history, but not like its square.
fn excess(base: &Effort, seen: &[(usize, Effort)], shape: usize) -> Option<String> {
    let (m, now) = seen.last()?;
    for (k, then) in &seen[..seen.len() - 1] {
        for (what, (w, c)) in now {
            // The validator (a dependency) hashes an operation once for each output of it which is spent
            let power = if *what == "validating" && [3, 7].contains(&shape) { 2.2 } else { 1.5 };
            let f = (*m as f64 / *k as f64).powf(power).max(3.0);
            let (w0, c0) = then.get(what).copied().unwrap_or((*w, *c));
            let (wb, cb) = base.get(what).copied().unwrap_or_default();
            if w.saturating_sub(wb) as f64 > f * w0.saturating_sub(wb) as f64 + 2000.0 {
                return Some(format!("{what} takes {w} units with {m} items of history and {w0} with {k}"));
            }
            if c.saturating_sub(cb) as f64 > f * c0.saturating_sub(cb) as f64 + 4.0 {
                return Some(format!("{what} asks for witnesses {c} times with {m} items of history and {c0} times with {k}"));
            }
        }
    }
    None
}
