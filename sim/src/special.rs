//! Steps which exercise one property in depth.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::path::PathBuf;

use amplify::confinement::Confined;
use bp::Vout;
use commit_verify::Conceal;
use nonasync::persistence::CloneNoPersistence;
use rgbinvoice::{Allocation, RgbInvoice};
use rgbstd::containers::{ClientBundle, Consignment, PubWitness, WitnessBundle};
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::Stock;
use rgbstd::{Assign, Assignments, ContractId, GraphSeal, Operation, TransitionBundle, TypedAssigns, XChain, XOutputSeal};

use crate::oracle;
use crate::rng::{mix, Rng};
use crate::steps::K;
use crate::sys::DiskFault;
use crate::truth::{ser, txid_of, xoutpoint};
use crate::world::{brief, decode_contract, decode_transfer, guard, kind_name, random_blinding, Fault, IssuePlan, MsgKind, What, World};

impl World {
    pub fn exec_special(&mut self, r: &mut Rng, k: K) {
        if matches!(k, K::Container | K::InvX | K::Twin | K::IssueX | K::Short | K::Hostile | K::Order | K::Work | K::SaveLoad) {
            self.fault = Fault::None;
        }
        match k {
            K::Container => self.container(r),
            K::InvX => self.inv_x(r),
            K::Conceal => self.conceal(r),
            K::Short => self.short(r),
            K::Secret => self.secret(r),
            K::Twin => self.twin(r),
            K::IssueX => self.issue_x(r),
            K::SaveLoad => self.save_load(r),
            K::Kits => self.kits_step(r),
            K::Hostile => self.hostile(r),
            K::Forge => self.forge(r),
            K::Order => self.order(r),
            K::Work => self.work(r),
            _ => {}
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // Partially concealed data

    /// Somebody passes on a consignment of which a part is concealed again.
    fn conceal(&mut self, r: &mut Rng) {
        let list: Vec<usize> = (0..self.sent.len()).filter(|n| self.sent[*n].intact && self.sent[*n].kind != MsgKind::Kit).collect();
        let Some(n) = r.pick(&list).copied() else { return };
        let m = self.sent[n].clone();
        let to = if r.chance(1, 2) { m.to } else { self.any_wallet(r) };
        if self.wallets[to].offline {
            return;
        }
        let twice = r.chance(1, 2);
        if m.kind == MsgKind::Contract {
            let Ok(Ok(c)) = guard(|| decode_contract(&m.bytes, m.armored)) else { return };
            let x = self.hide(r, &c);
            self.count("concealed copies passed on");
            self.take_consignment(to, x, false, "importing a contract with concealed parts");
            if twice && self.viol.is_none() {
                self.take_consignment(to, c, true, "importing a contract");
            }
        } else {
            let Ok(Ok(t)) = guard(|| decode_transfer(&m.bytes, m.armored)) else { return };
            let x = self.hide(r, &t);
            self.count("concealed copies passed on");
            self.take_consignment(to, x, false, "accepting a transfer with concealed parts");
            if twice && self.viol.is_none() {
                self.take_consignment(to, t, true, "accepting a transfer");
            }
        }
    }

    /// A copy of the consignment with seals of unspent assignments concealed, and with other forms of witnesses.
    pub fn hide<const T: bool>(&self, r: &mut Rng, c: &Consignment<T>) -> Consignment<T> {
        let mut c = c.clone();
        let mut spent = BTreeSet::new();
        for wb in c.bundles.iter() {
            for t in wb.known_transitions() {
                spent.extend(t.inputs.iter().map(|i| i.prev_out));
            }
        }
        let share = [(1, 8), (1, 2), (1, 1)][r.below(3) as usize];
        let gid = c.genesis.id();
        if r.chance(2, 3) {
            hide_seals(&mut c.genesis.assignments, |ty, no| {
                !spent.contains(&rgbstd::Opout::new(gid, ty, no)) && r.chance(share.0, share.1)
            });
        }
        let hide_tr = r.chance(2, 3);
        let wit_form = r.below(4);
        let mut set = BTreeSet::new();
        for wb in c.bundles.iter() {
            let mut pw = wb.pub_witness.clone();
            let flip = match wit_form {
                0 => false,
                1 => r.chance(1, 2),
                _ => true,
            };
            if flip {
                if let (Some(txid), XChain::Bitcoin(w)) = (txid_of(wb.witness_id()), &mut pw) {
                    *w = match (&*w, self.chain.txs.get(&txid)) {
                        (PubWitness::Txid(_), Some(e)) if wit_form != 3 => PubWitness::Tx(e.tx.clone()),
                        _ => PubWitness::Txid(txid),
                    };
                }
            }
            let mut parts = vec![];
            for (anchor, mut b) in wb.anchored_bundles.clone().into_iter() {
                if hide_tr {
                    let ids: Vec<_> = b.known_transitions.keys().copied().collect();
                    let mut known = b.known_transitions.clone().release();
                    for id in ids {
                        let t = known.get_mut(&id).unwrap();
                        hide_seals(&mut t.assignments, |ty, no| {
                            !spent.contains(&rgbstd::Opout::new(id, ty, no)) && r.chance(share.0, share.1)
                        });
                    }
                    b = TransitionBundle {
                        close_method: b.close_method,
                        input_map: b.input_map.clone(),
                        known_transitions: Confined::try_from(known).expect("same number"),
                    };
                }
                parts.push(ClientBundle::new(anchor.mpc_proof, anchor.dbc_proof, b));
            }
            let mut it = parts.into_iter();
            let mut nwb = WitnessBundle::with(pw, it.next().expect("at least one"));
            if let Some(p) = it.next() {
                nwb = nwb.into_double(p).expect("same methods");
            }
            set.insert(nwb);
        }
        c.bundles = Confined::try_from(set).expect("same number");
        c
    }

    // ---------------------------------------------------------------------------------------------------------
    // C03: inputs which do not cover the invoice

    fn short(&mut self, r: &mut Rng) {
        let Some((w, c, what)) = self.payable(r) else { return };
        let Some(sel) = self.coin_select(r, w, c, &what, &Default::default()) else { return };
        let (_, ty) = kind_name(&what);
        let on: Vec<_> = self
            .wallets[w]
            .know
            .owned(&self.truth, c)
            .into_keys()
            .filter(|(o, s, _)| o.ty == ty && xoutpoint(s).is_some_and(|o| sel.contains(&o)))
            .collect();
        let sum: u64 = on.iter().map(|x| x.2.amount).sum();
        let more = |r: &mut Rng| match r.below(4) {
            0 => sum + 1,
            1 => u64::MAX,
            2 => sum.saturating_mul(2).saturating_add(1),
            _ => sum + 1 + r.below(1000),
        };
        let what = match what {
            What::Asset(_) => What::Asset(more(r)),
            What::Bonus(_) => What::Bonus(more(r)),
            What::Token(a) => {
                let mut b = Allocation::with(7 + r.below(3) as u32, 1 + r.below(3));
                if r.chance(1, 2) {
                    // the same token, another fraction
                    b = Allocation::with(u32::from_le_bytes(ser(&a)[..4].try_into().unwrap()), 10 + r.below(5));
                }
                What::Token(b)
            }
        };
        let Some(n) = self.invoice(r, w, c, what) else { return };
        self.invs[n].used = true;
        let mut inv = self.invs[n].inv.clone();
        inv.expiry = None;
        let vout = self.invs[n].blind.is_none().then(|| Vout::from_u32(3));
        let prev = self.prev_seals(w, &sel);
        self.sync_clock(w);
        let stock = &self.wallets[w].stock;
        let method = Self::pick_method(r);
        let res = guard(|| stock.compose(&inv, prev, method, vout, |_, _, _| Some(Vout::from_u32(1))).map(|_| ()).map_err(|e| e.to_string()));
        self.count("payments without cover tried");
        match res {
            Ok(Ok(())) => self.fail(&["C03"], "an invoice which the inputs can't cover is composed"),
            Ok(Err(_)) => {}
            Err(p) => self.fail(&["C03", "C17"], format!("composing without cover aborts: {p}")),
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // C18: secrets stored late, seals used more than once

    fn secret(&mut self, r: &mut Rng) {
        let Some((payer, c, what)) = self.payable(r) else { return };
        let payee = self.any_wallet(r);
        let old: Vec<XChain<GraphSeal>> = self.invs.iter().filter(|i| i.payee == payee).filter_map(|i| i.blind).collect();
        let late = r.chance(1, 2);
        let seal = match r.pick(&old).copied() {
            Some(s) if r.chance(1, 2) => s,
            _ => {
                let utxos = self.utxos(payee);
                let o = match r.pick(&utxos).copied() {
                    Some(o) if r.chance(1, 2) => o,
                    _ => self.fund(r, payee),
                };
                let m = Self::pick_method(r);
                let s = self.new_secret(r, payee, o, m);
                if !late && !self.store_secret(payee, s) {
                    return;
                }
                s
            }
        };
        let Some(n) = self.invoice_to(r, payee, c, what, Some(seal)) else { return };
        let Some(txid) = self.pay(r, payer, &[n]) else { return };
        self.count("payments to given seals");
        if r.chance(4, 5) {
            self.chain.broadcast(txid);
        }
        if self.viol.is_some() {
            return;
        }
        let before = self.net.len();
        self.send_transfers(r, txid);
        if self.viol.is_some() || self.net.len() == before {
            return;
        }
        self.private(payer, seal, payee);
        if r.chance(1, 3) {
            return;
        }
        let m = self.net[before].clone();
        if self.wallets[payee].offline {
            return;
        }
        if r.chance(1, 2) {
            self.net.remove(before);
        }
        self.deliver(&m);
        if self.viol.is_none() {
            self.check_state(payee, &["C18", "C02"]);
        }
        if late && self.viol.is_none() && r.chance(2, 3) {
            if !self.store_secret(payee, seal) {
                return;
            }
            if self.deliver(&m) {
                self.count("secrets stored late");
            }
        }
    }

    /// The payer's stock and exports do not tell the output behind a seal which only the payee knows.
    fn private(&mut self, payer: usize, seal: XChain<GraphSeal>, payee: usize) {
        if payer == payee {
            return;
        }
        let XChain::Bitcoin(s) = seal else { return };
        // Once spent by the payee, the seal is a part of the public history
        let secret = seal.conceal();
        let shown = self.wallets[payer].know.ops.iter().any(|(id, k)| {
            k.seals.iter().any(|x| self.truth.ops.get(id).and_then(|o| o.outs.get(x)).is_some_and(|o| o.secret == secret))
        });
        if shown {
            return;
        }
        let blinding = s.blinding.to_le_bytes();
        let stock = &self.wallets[payer].stock;
        let bytes = [ser(stock.as_stash_provider()), ser(stock.as_state_provider()), ser(stock.as_index_provider())].concat();
        if bytes.windows(8).any(|x| x == blinding) {
            self.fail(&["C18"], "stock of the payer tells the blinding of a seal it was not shown");
        }
        self.count("payers searched for secrets");
    }

    // ---------------------------------------------------------------------------------------------------------
    // C12: the same again

    fn twin(&mut self, r: &mut Rng) {
        let w = self.any_wallet(r);
        let a = self.wallets[w].stock.clone_no_persistence();
        let b = match self.through_disk(r, w) {
            Some(b) => b,
            None => return,
        };
        // exports
        let seed = r.next();
        let contracts: Vec<ContractId> = self.wallets[w].know.contracts.iter().copied().collect();
        let seals: Vec<XOutputSeal> = match r.pick(&contracts) {
            Some(c) => self.wallets[w].know.owned(&self.truth, *c).into_keys().map(|x| x.1).collect(),
            None => vec![],
        };
        let outs: Vec<XOutputSeal> = seals.into_iter().filter(|_| r.chance(1, 2)).collect();
        let secrets: Vec<_> = self.pays.iter().filter(|p| p.payer == w).filter_map(|p| p.blind.map(|b| b.conceal())).collect();
        let secret = r.pick(&secrets).copied();
        let contract = r.pick(&contracts).copied();
        let schemata = [self.kits.rich.schema_id(), self.kits.plain.schema_id()];
        let exports = |s: &Stock| -> Vec<String> {
            let mut v = vec![];
            if let Some(c) = contract {
                v.push(match s.export_contract(c) {
                    Ok(x) => format!("{} {}", x.consignment_id(), oracle::hash(&ser(&x))),
                    Err(e) => e.to_string(),
                });
                v.push(match s.transfer(c, &outs, secret) {
                    Ok(x) => format!("{} {}", x.consignment_id(), oracle::hash(&ser(&x))),
                    Err(e) => e.to_string(),
                });
            }
            for id in schemata {
                v.push(match s.export_schema(id) {
                    Ok(x) => oracle::hash(&ser(&x.split().0)),
                    Err(e) => e.to_string(),
                });
            }
            v
        };
        // composition
        let mut job = None;
        if let Some((p, c, what)) = self.payable(r) {
            if p == w {
                if let Some(sel) = self.coin_select(r, w, c, &what, &Default::default()) {
                    if let Some(n) = self.invoice(r, w, c, what) {
                        let mut inv = self.invs[n].inv.clone();
                        inv.expiry = None;
                        self.invs[n].used = true;
                        let prev = self.prev_seals(w, &sel);
                        let vout = self.invs[n].blind.is_none().then(|| Vout::from_u32(3));
                        job = Some((inv, prev, vout, Self::pick_method(r)));
                    }
                }
            }
        }
        let prio = r.next();
        let compose = |s: &Stock, job: &(RgbInvoice, Vec<XOutputSeal>, Option<Vout>, bp::seals::txout::CloseMethod)| -> (Vec<String>, bool) {
            let rng = RefCell::new(Rng::new(mix(seed)));
            let res = s.compose_deterministic(
                &job.0,
                job.1.iter().copied(),
                job.3,
                job.2,
                prio,
                |_, _, _| Some(Vout::from_u32(1)),
                |_, _| random_blinding(&mut rng.borrow_mut()),
                |_, _| rng.borrow_mut().next(),
            );
            match res {
                Ok(batch) => {
                    let mut same = true;
                    let v = batch
                        .into_iter()
                        .map(|i| {
                            same &= i.id == i.transition.id();
                            format!("{} {} {:?} {:?}", i.id, oracle::hash(&ser(&i.transition)), i.method, i.inputs)
                        })
                        .collect();
                    (v, same)
                }
                Err(e) => (vec![e.to_string()], true),
            }
        };
        let mut seen: Option<(Vec<String>, Vec<String>)> = None;
        for (n, s) in [0usize, 0, 1, 2].into_iter().enumerate() {
            // Everything which is up to chance differs
            let e = r.next();
            self.sys().entropy = Rng::new(e);
            self.now += r.below(100_000) as i64;
            self.sync_clock(w);
            let stock = match s {
                0 => &self.wallets[w].stock,
                1 => &a,
                _ => &b,
            };
            let res = guard(|| (exports(stock), job.as_ref().map(|j| compose(stock, j))));
            match res {
                Err(p) => return self.fail(&["C12", "C17"], format!("deterministic composition or export aborts: {p}")),
                Ok((ex, comp)) => {
                    if comp.as_ref().is_some_and(|c| !c.1) {
                        return self.fail(&["C12"], "a composed transition is announced under another identifier");
                    }
                    let got = (ex, comp.map(|c| c.0).unwrap_or_default());
                    match &seen {
                        None => seen = Some(got),
                        Some(x) if *x == got => {}
                        Some(x) => {
                            let what = if x.0 != got.0 { "exports" } else { "deterministic composition" };
                            let place = ["", "on the same stock", "on a copy of the stock", "on the stock saved and loaded"][n];
                            return self.fail(&["C12"], format!("{what} repeated {place} differ"));
                        }
                    }
                }
            }
        }
        self.count("compositions and exports repeated");
    }

    /// The stock saved aside and loaded again.
    fn through_disk(&mut self, r: &mut Rng, w: usize) -> Option<Stock> {
        let dir = format!("/simfs/aside{:x}", r.below(1 << 30));
        let mut copy = self.wallets[w].stock.clone_no_persistence();
        let auto = r.chance(1, 2);
        let res = guard(|| -> Result<Stock, String> {
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            copy.make_persistent(store, auto).map_err(|e| e.to_string())?;
            copy.store().map_err(|e| e.to_string())?;
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            Stock::load(store, auto).map_err(|e| e.to_string())
        });
        match res {
            Ok(Ok(s)) => Some(s),
            Ok(Err(e)) => {
                self.fail(&["C10"], format!("saving a copy aside and loading it fails: {e}"));
                None
            }
            Err(p) => {
                self.fail(&["C10", "C17"], format!("saving a copy aside and loading it aborts: {p}"));
                None
            }
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // C10: saving and loading

    fn save_load(&mut self, r: &mut Rng) {
        let w = self.any_wallet(r);
        let Some(dir) = self.wallets[w].dir.clone() else { return };
        let kind = [DiskFault::Short, DiskFault::Eintr, DiskFault::Eio, DiskFault::Enospc][r.below(4) as usize];
        let soft = matches!(kind, DiskFault::Short | DiskFault::Eintr);
        let bits = r.below(12);
        let pos = r.below(1 << bits);
        let on_save = r.chance(1, 2);
        let faulty = r.chance(3, 4);
        let from = [None, Some("stash"), Some("state"), Some("index")][r.below(4) as usize];
        let want = match self.probe(&self.wallets[w].stock) {
            Ok(d) => d,
            Err(e) => return self.fail(&["C10", "C02"], e),
        };
        let exports = |s: &Stock, contracts: &BTreeSet<ContractId>| -> Vec<String> {
            contracts
                .iter()
                .map(|c| match s.export_contract(*c) {
                    Ok(x) => oracle::hash(&ser(&x)),
                    Err(e) => e.to_string(),
                })
                .collect()
        };
        let contracts = self.wallets[w].know.contracts.clone();
        let want_ex = match guard(|| exports(&self.wallets[w].stock, &contracts)) {
            Ok(x) => x,
            Err(p) => return self.fail(&["C10", "C17"], format!("export aborts: {p}")),
        };
        if faulty && on_save {
            match from {
                None => self.sys().arm([(pos, kind)].into_iter().collect()),
                Some(name) => self.sys().arm_from(name, [(pos, kind)].into_iter().collect()),
            }
        }
        let stock = &mut self.wallets[w].stock;
        let res = guard(|| stock.store().map_err(|e| e.to_string()));
        let hit = self.sys().plan_hit;
        self.sys().disarm();
        if faulty && on_save && hit {
            *self.fired.entry(Fault::Disk(0, kind).name()).or_default() += 1;
        }
        match res {
            Ok(Ok(())) => {
                self.wallets[w].saved = self.wallets[w].know.clone();
                self.count("saves");
            }
            Ok(Err(_)) if faulty && on_save && hit && !soft => {
                self.count("failed saves reported");
                match self.probe(&self.wallets[w].stock) {
                    Ok(d) => {
                        if let Some(d) = oracle::diff(&want, &d) {
                            self.fail(&["C09", "C10"], format!("failed saving has changed the stock: {d}"));
                        }
                    }
                    Err(e) => self.fail(&["C09", "C10"], e),
                }
                // The cause is gone
                let stock = &mut self.wallets[w].stock;
                match guard(|| stock.store().map_err(|e| e.to_string())) {
                    Ok(Ok(())) => self.wallets[w].saved = self.wallets[w].know.clone(),
                    Ok(Err(e)) => return self.fail(&["C09", "C10"], format!("saving again fails: {e}")),
                    Err(p) => return self.fail(&["C09", "C10", "C17"], format!("saving again aborts: {p}")),
                }
            }
            Ok(Err(e)) => return self.fail(&["C10", "C09"], format!("saving fails: {e}")),
            Err(p) => return self.fail(&["C10", "C09", "C17"], format!("saving aborts: {p}")),
        }
        let auto = r.chance(1, 2);
        if faulty && !on_save {
            match from {
                None => self.sys().arm([(pos, kind)].into_iter().collect()),
                Some(name) => self.sys().arm_from(name, [(pos, kind)].into_iter().collect()),
            }
        }
        let res = guard(|| {
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            Stock::load(store, auto).map_err(|e| e.to_string())
        });
        let hit = self.sys().plan_hit;
        self.sys().disarm();
        if faulty && !on_save && hit {
            *self.fired.entry(Fault::Disk(0, kind).name()).or_default() += 1;
        }
        match res {
            Ok(Ok(s)) => {
                self.count("loads compared");
                match self.probe(&s) {
                    Ok(d) => {
                        if let Some(d) = oracle::diff(&want, &d) {
                            return self.fail(&["C10"], format!("loaded stock is not the one saved: {d}"));
                        }
                    }
                    Err(e) => return self.fail(&["C10"], format!("loaded stock: {e}")),
                }
                match guard(|| exports(&s, &contracts)) {
                    Ok(x) if x == want_ex => {}
                    Ok(_) => return self.fail(&["C10", "C12"], "exports of the loaded stock differ"),
                    Err(p) => return self.fail(&["C10", "C17"], format!("export from the loaded stock aborts: {p}")),
                }
            }
            Ok(Err(_)) if faulty && !on_save && hit && !soft => self.count("failed loads reported"),
            Ok(Err(e)) => return self.fail(&["C10"], format!("loading fails: {e}")),
            Err(p) => return self.fail(&["C10", "C17"], format!("loading aborts: {p}")),
        }
        if r.chance(1, 3) {
            self.partial_files(r, w, &want);
        }
    }

    /// A store of which a file is missing, cut or doubled must not load as if nothing happened.
    fn partial_files(&mut self, r: &mut Rng, w: usize, want: &BTreeSet<String>) {
        let dir = format!("/simfs/part{:x}", r.below(1 << 30));
        let mut copy = self.wallets[w].stock.clone_no_persistence();
        let names = ["stash.dat", "state.dat", "index.dat"];
        let name = names[r.below(3) as usize];
        let path = format!("{dir}/{name}");
        let how = r.below(3);
        let at = r.next();
        let res = guard(|| -> Result<Option<Stock>, String> {
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            copy.make_persistent(store, false).map_err(|e| e.to_string())?;
            copy.store().map_err(|e| e.to_string())?;
            let data = std::fs::read(&path).map_err(|e| e.to_string())?;
            match how {
                0 => std::fs::remove_file(&path).map_err(|e| e.to_string())?,
                _ => {
                    let keep = (at % data.len() as u64) as usize;
                    std::fs::write(&path, &data[..keep]).map_err(|e| e.to_string())?
                }
            }
            let store = FsBinStore::new(PathBuf::from(&dir)).map_err(|e| e.to_string())?;
            Ok(Stock::load(store, false).ok())
        });
        match res {
            Ok(Ok(Some(s))) => {
                let same = self.probe(&s).ok().is_some_and(|d| oracle::diff(want, &d).is_none());
                if !same {
                    self.fail(&["C10"], format!("a stock is loaded with {name} {}", if how == 0 { "missing" } else { "cut" }));
                }
            }
            Ok(Ok(None)) => self.count("incomplete stores refused"),
            Ok(Err(e)) => self.fail(&["C10"], format!("saving aside fails: {e}")),
            Err(p) => self.fail(&["C10", "C17"], format!("loading an incomplete store aborts: {p}")),
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // C13: issuing

    fn issue_x(&mut self, r: &mut Rng) {
        let w = self.any_wallet(r);
        let rich = r.chance(3, 4);
        if !self.wallets[w].know.kits.contains(&rich) && !self.import_kit(w, rich) {
            return;
        }
        let mut seals = vec![];
        for _ in 0..1 + r.below(3) {
            let utxos = self.utxos(w);
            let o = match r.pick(&utxos).copied() {
                Some(o) if r.chance(2, 3) => o,
                _ => self.fund(r, w),
            };
            seals.push((o, Self::pick_method(r)));
        }
        let mut plan = Self::plan(r, rich, &seals);
        plan.mainnet = r.chance(1, 3);
        plan.det = r.chance(1, 2);
        plan.liquid = r.chance(1, 4);
        plan.late = r.chance(1, 2);
        plan.salt = r.next();
        plan.timestamp = match r.below(4) {
            0 => 0,
            1 => self.now,
            2 => -(r.below(1 << 33) as i64),
            _ => r.below(1 << 40) as i64,
        };
        let (schema_id, iface) = self.schema_of(rich);
        self.sync_clock(w);
        let clock = self.now + self.wallets[w].skew_s;
        let stock = &self.wallets[w].stock;
        let kits = &self.kits;
        let build = |p: &IssuePlan| {
            guard(|| -> Result<_, String> {
                let issuer = rgbstd::Identity::from("ssi:issuer");
                let mut b = stock.contract_builder(issuer.clone(), schema_id, iface).map_err(|e| e.to_string())?;
                if p.det {
                    let types = b.type_system().clone();
                    let (i, s, ii) = if p.rich {
                        (&kits.asset, &kits.rich, &kits.rich_impl)
                    } else {
                        (&kits.base, &kits.plain, &kits.plain_impl)
                    };
                    let scripts =
                        amplify::confinement::Confined::from_checked([(kits.lib.id(), kits.lib.clone())].into_iter().collect());
                    b = rgbstd::interface::ContractBuilder::deterministic(issuer, i.clone(), s.clone(), ii.clone(), types, scripts);
                }
                p.build(b)
            })
        };
        let c = match build(&plan) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return self.fail(&["C13"], format!("issuing a sound contract is refused: {e}")),
            Err(p) => return self.fail(&["C13", "C17"], format!("issuing a sound contract aborts: {p}")),
        };
        let again = plan.det.then(|| build(&plan));
        let inner = c.clone().split().0;
        if let Some(msg) = plan.check(&inner, clock) {
            return self.fail(&["C13"], msg);
        }
        if inner.genesis.issuer != rgbstd::Identity::from("ssi:issuer") {
            return self.fail(&["C13"], "contract names another issuer");
        }
        match again {
            Some(Ok(Ok(d))) => {
                let d = d.split().0;
                if d.genesis.contract_id() != inner.genesis.contract_id() || ser(&d) != ser(&inner) {
                    return self.fail(&["C13"], "deterministic issue of the same data gives another contract");
                }
            }
            Some(_) => return self.fail(&["C13"], "deterministic issue fails when repeated"),
            None => {}
        }
        self.count("contracts issued aside");
        // A contract for the main network does not validate as one for test networks, and the other way round
        let testnet = !plan.mainnet;
        let r1 = {
            let x = inner.clone();
            self.call(w, |_, rs| x.validate(&rs, testnet).map(|_| ()).map_err(|(s, _)| format!("{s:?}")))
        };
        match r1 {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return self.fail(&["C13"], format!("issued contract does not validate: {}", brief(&e))),
            Err(p) => return self.fail(&["C13", "C17"], format!("validation of an issued contract aborts: {p}")),
        }
        // Taken in aside, it must report what was put in
        let mut aside = self.wallets[w].stock.clone_no_persistence();
        let id = inner.genesis.contract_id();
        let res = self.call(w, |_, rs| aside.import_contract(c, rs).map(|_| ()).map_err(|e| e.to_string()));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return self.fail(&["C13"], format!("issued contract is not imported: {e}")),
            Err(p) => return self.fail(&["C13", "C17"], format!("import of an issued contract aborts: {p}")),
        }
        let op = crate::truth::Op::of_genesis(&inner.genesis);
        let mut want: Vec<String> = op
            .outs
            .iter()
            .filter_map(|((ty, no), o)| {
                let seal = crate::truth::out_seal(o.seal.as_ref()?, None)?;
                Some(format!("{} {no} {seal} {:?}", ty, o.st.as_ref()?))
            })
            .collect();
        want.sort();
        match guard(|| oracle::reported(&aside, id)) {
            Ok(Ok(list)) => {
                let mut got: Vec<String> =
                    list.into_iter().map(|((o, seal, st), _)| format!("{} {} {seal} {st:?}", o.ty, o.no)).collect();
                got.sort();
                if got != want {
                    return self.fail(&["C13"], format!("imported contract reports {} assignments, {} were issued", got.len(), want.len()));
                }
            }
            Ok(Err(e)) => return self.fail(&["C13"], e),
            Err(p) => return self.fail(&["C13", "C17"], format!("state of an issued contract can't be read: {p}")),
        }
        let texts = |v: &[rgbstd::stl::Details]| -> BTreeSet<Vec<u8>> { v.iter().map(ser).collect() };
        if rich {
            for (ty, put) in [(crate::schema::GS_NOTE, &plan.notes), (crate::schema::GS_LOG, &plan.logs)] {
                match guard(|| oracle::reported_globals(&aside, id, ty)) {
                    Ok(Ok(list)) => {
                        let got: BTreeSet<Vec<u8>> = list.into_iter().collect();
                        let max = oracle::global_types(true).into_iter().find(|x| x.0 == ty).map(|x| x.1).unwrap_or(0);
                        let want = texts(put);
                        if want.len() <= max && got != want {
                            return self.fail(&["C13"], format!("imported contract reports {} global values, {} were issued", got.len(), want.len()));
                        }
                    }
                    Ok(Err(e)) => return self.fail(&["C13"], e),
                    Err(p) => return self.fail(&["C13", "C17"], format!("global state of an issued contract can't be read: {p}")),
                }
            }
        }
        if r.chance(1, 2) {
            self.issue_wrong(r, w, &plan);
        }
    }

    /// Data which the schema or the interface do not allow.
    fn issue_wrong(&mut self, r: &mut Rng, w: usize, plan: &IssuePlan) {
        let rich = plan.rich;
        let (schema_id, iface) = self.schema_of(rich);
        let o = self.fund(r, w);
        let m = Self::pick_method(r);
        let seal = Self::gseal(r, o, m);
        let text = Self::text(r, "x");
        let stock = &self.wallets[w].stock;
        let way = r.below(16);
        let far = rgbstd::XChain::Liquid(*seal.as_reduced_unsafe());
        let what = [
            "global state of an unknown name",
            "fungible state of an unknown name",
            "data under the name of a fungible state",
            "fungible state under the name of data",
            "no mandatory global state",
            "a single global value given twice",
            "an unknown interface",
            "an unknown schema",
            "an asset tag of an unknown name",
            "rights under the name of a fungible state",
            "a global value of a wrong type",
            "metadata of an unknown name",
            "an asset tag given after the assets",
            "assets on a layer which is not named",
            "rights or data on a layer which is not named",
            "metadata of a wrong type",
        ][way as usize];
        let tags = plan.tags;
        let spec = plan.spec.clone();
        let res = guard(|| -> Result<(), String> {
            fn e(e: impl std::fmt::Display) -> String { e.to_string() }
            let sid = if way == 7 { rgbstd::SchemaId::from([7u8; 32]) } else { schema_id };
            let name = if way == 6 { "NoSuch" } else { iface };
            let mut b = stock.contract_builder(rgbstd::Identity::default(), sid, name).map_err(e)?;
            if way == 8 {
                b = b.add_asset_tag("nothing", rgbstd::AssetTag::from(tags.0)).map_err(e)?;
            }
            b = b.add_asset_tag("asset", rgbstd::AssetTag::from(tags.0)).map_err(e)?;
            if rich {
                b = b.add_asset_tag("bonus", rgbstd::AssetTag::from(tags.1)).map_err(e)?;
            }
            match way {
                0 => b = b.add_global_state("nothing", text.clone()).map_err(e)?,
                1 => b = b.add_fungible_state("nothing", seal, 5u64).map_err(e)?,
                2 => b = b.add_data("asset", seal, Allocation::with(0, 1)).map_err(e)?,
                3 => b = b.add_fungible_state("token", seal, 5u64).map_err(e)?,
                9 => b = b.add_rights("asset", seal).map_err(e)?,
                11 => b = b.add_metadata("nothing", text.clone()).map_err(e)?,
                12 => {
                    b = b.add_fungible_state("asset", seal, 5u64).map_err(e)?;
                    b = b.add_asset_tag("asset", rgbstd::AssetTag::from(tags.1)).map_err(e)?;
                }
                13 => b = b.add_fungible_state("asset", far, 5u64).map_err(e)?,
                14 if !rich => b = b.add_fungible_state("asset", far, 5u64).map_err(e)?,
                14 => match tags.0[0] % 3 {
                    0 => b = b.add_rights("right", far).map_err(e)?,
                    1 => b = b.add_data("token", far, Allocation::with(0, 1)).map_err(e)?,
                    _ => b = b.add_attachment("file", far, crate::world::attach(tags.0)).map_err(e)?,
                },
                15 if rich => b = b.add_metadata("memo", Allocation::with(1, 1)).map_err(e)?,
                _ => {}
            }
            if way == 10 {
                b = b.add_global_state("spec", Allocation::with(1, 1)).map_err(e)?;
            } else if way != 4 {
                b = b.add_global_state("spec", spec.clone().expect("set")).map_err(e)?;
            }
            if way == 5 {
                b = b.add_global_state("spec", spec.clone().expect("set")).map_err(e)?;
            }
            if !rich {
                b = match way {
                    15 => b.add_metadata("memo", Allocation::with(1, 1)).map_err(e)?,
                    _ => b.add_metadata("memo", text.clone()).map_err(e)?,
                };
            }
            b = b.add_fungible_state("asset", seal, 100u64).map_err(e)?;
            b.issue_contract().map(|_| ()).map_err(e)
        });
        self.count("unsound contracts tried");
        match res {
            Ok(Err(_)) => {}
            Ok(Ok(())) => self.fail(&["C13"], format!("a contract with {what} is issued")),
            Err(p) => self.fail(&["C13", "C17"], format!("issuing a contract with {what} aborts: {p}")),
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // C05: the same data in another order

    fn order(&mut self, r: &mut Rng) {
        let mut seen = BTreeSet::new();
        let mut items = vec![];
        let mut with_contract = BTreeSet::new();
        for m in self.sent.iter().filter(|m| m.intact && m.kind != MsgKind::Kit) {
            if !seen.insert(crate::rng::Digest::of(&m.bytes)) || r.chance(1, 3) {
                continue;
            }
            if m.kind == MsgKind::Contract {
                let Ok(Ok(c)) = guard(|| decode_contract(&m.bytes, m.armored)) else { continue };
                if self.verifiable(&c, 99) {
                    with_contract.insert(c.genesis.contract_id());
                    if r.chance(1, 2) {
                        items.push(Item::Contract(self.hide(r, &c)));
                    }
                    items.push(Item::Contract(c));
                }
            } else {
                let Ok(Ok(t)) = guard(|| decode_transfer(&m.bytes, m.armored)) else { continue };
                if self.verifiable(&t, 99) {
                    with_contract.insert(t.genesis.contract_id());
                    if r.chance(1, 2) {
                        items.push(Item::Transfer(self.hide(r, &t)));
                    }
                    items.push(Item::Transfer(t));
                }
            }
            if items.len() > 16 {
                break;
            }
        }
        for f in &self.fascias {
            let Some(txid) = txid_of(f.witness_id()) else { continue };
            if self.chain.visible(txid, 99)
                && r.chance(1, 2)
                && f.clone().into_bundles().into_iter().all(|(c, _)| with_contract.contains(&c))
            {
                items.push(Item::Fascia(f.clone()));
            }
        }
        if items.len() < 2 {
            return;
        }
        let secrets: Vec<XChain<GraphSeal>> =
            self.wallets.iter().flat_map(|w| w.secrets.values().copied()).filter(|_| r.chance(1, 2)).collect();
        let mut dumps: Vec<(BTreeSet<String>, Vec<String>)> = vec![];
        let kits = [self.kit(true), self.kit(false)];
        for round in 0..2 + r.below(2) {
            let mut order: Vec<usize> = (0..items.len()).collect();
            if round > 0 {
                for n in 0..items.len() {
                    if r.chance(1, 4) {
                        order.push(n);
                    }
                }
                r.shuffle(&mut order);
            }
            let mut first: Vec<usize> = (0..secrets.len() + 2).collect();
            r.shuffle(&mut first);
            let mut stock = Stock::in_memory();
            let res = guard(|| -> Result<(), String> {
                for n in first {
                    match n {
                        0 | 1 => {
                            let kit = kits[n].clone().validate().map_err(|_| "invalid kit".to_string())?;
                            stock.import_kit(kit).map_err(|e| format!("kit: {e}"))?;
                        }
                        n => {
                            stock.store_secret_seal(secrets[n - 2]).map_err(|e| format!("secret: {e}"))?;
                        }
                    }
                }
                let mut late = vec![];
                let mut known = BTreeSet::new();
                let mut queue: std::collections::VecDeque<usize> = order.into();
                while let Some(n) = queue.pop_front() {
                    let rs = crate::chain::Resolver::new(&self.chain, 99);
                    match &items[n] {
                        Item::Contract(c) => {
                            known.insert(c.genesis.contract_id());
                            let v = c.clone().validate(&&rs, true).map_err(|(s, _)| format!("contract: {}", brief(&format!("{s:?}"))))?;
                            stock.import_contract(v, &rs).map_err(|e| format!("contract: {e}"))?;
                        }
                        Item::Transfer(c) => {
                            known.insert(c.genesis.contract_id());
                            let v = c.clone().validate(&&rs, true).map_err(|(s, _)| format!("transfer: {}", brief(&format!("{s:?}"))))?;
                            stock.accept_transfer(v, &rs).map_err(|e| format!("transfer: {e}"))?;
                        }
                        Item::Fascia(f) => {
                            if f.clone().into_bundles().into_iter().all(|(c, _)| known.contains(&c)) {
                                stock.consume_fascia(f.clone(), &rs).map_err(|e| format!("own operations: {e}"))?;
                            } else {
                                late.push(n);
                            }
                        }
                    }
                    if queue.is_empty() && !late.is_empty() {
                        queue.extend(late.drain(..));
                    }
                }
                let rs = crate::chain::Resolver::new(&self.chain, 99);
                stock.update_witnesses(&rs, 0).map_err(|e| format!("update: {e}"))?;
                Ok(())
            });
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return self.fail(&["C05", "C01"], format!("valid data is refused in some order: {e}")),
                Err(p) => return self.fail(&["C05", "C17"], format!("taking valid data in some order aborts: {p}")),
            }
            let d = match self.probe(&stock) {
                Ok(d) => d,
                Err(e) => return self.fail(&["C05"], e),
            };
            let terminals: BTreeSet<_> = self.pays.iter().filter_map(|p| p.blind.map(|b| (p.contract, b.conceal()))).collect();
            let ex = guard(|| {
                let mut v = vec![];
                for c in &with_contract {
                    v.push(match stock.export_contract(*c) {
                        Ok(x) => oracle::hash(&ser(&x)),
                        Err(e) => e.to_string(),
                    });
                }
                for (c, t) in &terminals {
                    v.push(match stock.transfer(*c, [], Some(*t)) {
                        Ok(x) => oracle::hash(&ser(&x)),
                        Err(e) => e.to_string(),
                    });
                }
                v
            });
            match ex {
                Ok(ex) => dumps.push((d, ex)),
                Err(p) => return self.fail(&["C05", "C17"], format!("exports abort: {p}")),
            }
        }
        self.count("stocks filled in different orders");
        for (d, ex) in &dumps[1..] {
            if let Some(x) = oracle::diff(&dumps[0].0, d) {
                return self.fail(&["C05"], format!("the same data in another order leaves another stock: {x}"));
            }
            if *ex != dumps[0].1 {
                return self.fail(&["C05"], "the same data in another order is exported differently");
            }
        }
    }

}

enum Item {
    Contract(Consignment<false>),
    Transfer(Consignment<true>),
    Fascia(rgbstd::containers::Fascia),
}

fn hide_seals<S: rgbstd::ExposedSeal>(a: &mut Assignments<S>, mut hide: impl FnMut(rgbstd::AssignmentType, u16) -> bool) {
    fn each<St: rgbstd::ExposedState, S: rgbstd::ExposedSeal>(
        v: &mut amplify::confinement::SmallVec<Assign<St, S>>,
        mut hide: impl FnMut(u16) -> bool,
    ) {
        for (no, x) in v.iter_mut().enumerate() {
            if let Assign::Revealed { seal, state, lock } = x {
                if hide(no as u16) {
                    *x = Assign::ConfidentialSeal { seal: seal.conceal(), state: state.clone(), lock: *lock };
                }
            }
        }
    }
    let mut map = (**a).clone().release();
    for (ty, t) in map.iter_mut() {
        let ty = *ty;
        match t {
            TypedAssigns::Declarative(v) => each(v, |no| hide(ty, no)),
            TypedAssigns::Fungible(v) => each(v, |no| hide(ty, no)),
            TypedAssigns::Structured(v) => each(v, |no| hide(ty, no)),
            TypedAssigns::Attachment(v) => each(v, |no| hide(ty, no)),
        }
    }
    *a = Assignments::from(Confined::try_from(map).expect("same number"));
}
