//! C17: unusual requests. Whatever is asked, the answer is a result or an error, and an error changes nothing.

use amplify::confinement::Confined;
use bp::seals::txout::CloseMethod;
use bp::{Outpoint, Vout};
use commit_verify::Conceal;
use nonasync::persistence::CloneNoPersistence;
use rgbinvoice::{Allocation, InvoiceState, NonFungible, RgbInvoice};
use rgbstd::containers::{BuilderSeal, Consignment};
use rgbstd::interface::FilterIncludeAll;
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::vm::ContractStateAccess;
use rgbstd::{AssignmentType, ContractId, GlobalStateType, Identity, OpId, Operation, Opout, SchemaId, XChain, XOutputSeal};

use crate::chain::Resolver;
use crate::oracle;
use crate::rng::Rng;
use crate::truth::{xop, xoutpoint};
use crate::world::{decode_contract, guard, random_blinding, vout_seal, MsgKind, World};

const NAMES: [&str; 12] =
    ["asset", "bonus", "token", "memo", "right", "file", "spec", "note", "log", "noSuch", "transfer", "issue"];
const IFACES: [&str; 4] = ["SimAsset", "SimBase", "NoSuch", "RGB20"];

fn e(e: impl std::fmt::Display) -> String { e.to_string() }

impl World {
    pub fn hostile(&mut self, r: &mut Rng) {
        let w = self.any_wallet(r);
        let contracts: Vec<ContractId> = self.wallets[w].know.contracts.iter().copied().collect();
        let c = match r.pick(&contracts) {
            Some(c) if r.chance(5, 6) => *c,
            _ => ContractId::from(r.bytes32()),
        };
        let way = r.below(8);
        self.sync_clock(w);
        let (what, res) = match way {
            0 => ("composition", self.hostile_compose(r, w, c)),
            1 => ("a builder of operations", self.hostile_builder(r, w, c)),
            2 => ("a view of the state", self.hostile_views(r, w, c)),
            3 => ("a lookup", self.hostile_lookup(r, w, c)),
            4 => ("a contract without interfaces", self.bare_contract(r)),
            5 => ("an export", self.hostile_export(r, w, c)),
            _ => ("taking data", self.hostile_take(r, w)),
        };
        self.count("unusual requests");
        match res {
            Ok(Ok(_)) => {}
            Ok(Err(m)) => self.fail(&["C17", "C09"], format!("{what}: {m}")),
            Err(p) => self.fail(&["C17"], format!("{what} aborts: {p}")),
        }
    }

    fn any_seals(&self, r: &mut Rng, w: usize, c: ContractId) -> Vec<XOutputSeal> {
        let mut own: Vec<XOutputSeal> = self.wallets[w].know.owned(&self.truth, c).into_keys().map(|x| x.1).collect();
        let mut all = vec![];
        for _ in 0..r.below(4) {
            if let (Some(s), true) = (r.pick(&own).copied(), r.chance(3, 4)) {
                all.push(s);
                if r.chance(1, 3) {
                    all.push(s);
                }
                if r.chance(1, 3) {
                    // the same output by another method
                    if let Some(o) = xoutpoint(&s) {
                        let m = Self::pick_method(r);
                        all.push(XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(m, o)));
                    }
                }
            } else {
                let o = Outpoint::new(bp::Txid::from(r.bytes32()), Vout::from_u32(r.below(3) as u32));
                all.push(XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(Self::pick_method(r), o)));
            }
        }
        if r.chance(1, 8) {
            all.append(&mut own);
        }
        all
    }

    fn hostile_compose(&mut self, r: &mut Rng, w: usize, c: ContractId) -> Result<Result<bool, String>, String> {
        let kinds: Vec<usize> = (0..self.invs.len()).collect();
        let Some(n) = r.pick(&kinds).copied() else { return Ok(Ok(false)) };
        let mut inv: RgbInvoice = self.invs[n].inv.clone();
        for _ in 0..1 + r.below(3) {
            match r.below(9) {
                0 => inv.contract = r.chance(1, 2).then_some(c),
                1 => inv.iface = r.pick(&IFACES).map(|x| (*x).into()),
                2 => inv.iface = None,
                3 => inv.operation = r.pick(&NAMES).map(|x| (*x).into()),
                4 => inv.assignment = r.pick(&NAMES).map(|x| (*x).into()),
                5 => inv.assignment = None,
                6 => {
                    inv.owned_state = match r.below(7) {
                        0 => InvoiceState::Void,
                        1 => InvoiceState::Amount(rgbstd::Amount::from(0u64)),
                        2 => InvoiceState::Amount(rgbstd::Amount::from(u64::MAX)),
                        3 => InvoiceState::Amount(rgbstd::Amount::from(1u64)),
                        4 => InvoiceState::Data(NonFungible::RGB21(Allocation::with(u32::MAX, u64::MAX))),
                        5 => InvoiceState::Attach(rgbstd::AttachId::from(r.bytes32())),
                        _ => InvoiceState::Data(NonFungible::RGB21(Allocation::with(0, 0))),
                    }
                }
                7 => inv.expiry = [None, Some(i64::MIN), Some(i64::MAX), Some(0)][r.below(4) as usize],
                _ => {}
            }
        }
        let prev = self.any_seals(r, w, c);
        let vout = [None, Some(Vout::from_u32(0)), Some(Vout::from_u32(u32::MAX))][r.below(3) as usize];
        let alloc = r.below(3);
        let method = Self::pick_method(r);
        let stock = &self.wallets[w].stock;
        let res = guard(|| {
            stock
                .compose(&inv, prev, method, vout, |_, _, _| match alloc {
                    0 => None,
                    1 => Some(Vout::from_u32(u32::MAX)),
                    _ => Some(Vout::from_u32(1)),
                })
                .map(|_| true)
                .map_err(e)
        })?;
        Ok(Ok(res.unwrap_or(false)))
    }

    fn hostile_builder(&mut self, r: &mut Rng, w: usize, c: ContractId) -> Result<Result<bool, String>, String> {
        let iface = *r.pick(&IFACES).unwrap();
        let op = r.chance(2, 3).then(|| *r.pick(&NAMES).unwrap());
        let blank = r.chance(1, 3);
        let seals = self.any_seals(r, w, c);
        let mut sub = r.fork();
        let text = Self::text(r, "x");
        let stock = &self.wallets[w].stock;
        let res = guard(|| -> Result<(), String> {
            let mut b =
                if blank { stock.blank_builder(c, iface).map_err(e)? } else { stock.transition_builder(c, iface, op).map_err(e)? };
            let mut known: Vec<(Opout, PersistedState)> = vec![];
            if let Ok(l) = stock.contract_assignments_for(c, seals) {
                known.extend(l.into_values().flatten());
            }
            known.sort_by_key(|x| x.0);
            for _ in 0..1 + sub.below(8) {
                let name = *sub.pick(&NAMES).unwrap();
                let seal: BuilderSeal<_> = vout_seal(&mut sub);
                let seal = if sub.chance(1, 3) {
                    match seal {
                        BuilderSeal::Revealed(s) => BuilderSeal::Concealed(s.conceal()),
                        s => s,
                    }
                } else {
                    seal
                };
                let amount = [0, 1, 1000, u64::MAX, u64::MAX - 1][sub.below(5) as usize];
                let keep = b.clone();
                let kind = sub.below(13);
                let ty = AssignmentType::with(sub.below(12) as u16);
                let next = match kind {
                    0 => match sub.pick(&known).cloned() {
                        Some((o, s)) => b.add_input(o, s).map_err(e),
                        None => b
                            .add_input(Opout::new(OpId::from(sub.bytes32()), ty, sub.below(3) as u16), PersistedState::Void)
                            .map_err(e),
                    },
                    1 => b.add_fungible_state(name, seal, amount).map_err(e),
                    2 => b.add_data(name, seal, Allocation::with(amount as u32, amount)).map_err(e),
                    3 => b.add_rights(name, seal).map_err(e),
                    4 => b.add_global_state(name, text.clone()).map_err(e),
                    5 => b.add_metadata(name, text.clone()).map_err(e),
                    6 => b.add_fungible_default_state(seal, amount).map_err(e),
                    7 => b.add_data_default(seal, text.clone()).map_err(e),
                    8 => b.add_asset_tag(name, rgbstd::AssetTag::from(sub.bytes32())).map_err(e),
                    9 => match sub.pick(&known).cloned() {
                        Some((o, s)) => {
                            let t = if sub.chance(1, 2) { o.ty } else { ty };
                            b.add_owned_state_raw(t, seal, s).map_err(e)
                        }
                        None => b.add_owned_state_raw(ty, seal, PersistedState::Void).map_err(e),
                    },
                    10 => b.add_fungible_state_raw(ty, seal, amount, random_blinding(&mut sub)).map_err(e),
                    11 => b.add_data_raw(ty, seal, Allocation::with(1, amount), amount).map_err(e),
                    _ => {
                        let _ = b.asset_tag(name);
                        let _ = b.default_assignment().map(|_| ());
                        let _ = b.assignments_type(&name.into());
                        let _ = b.global_type(&name.into());
                        let _ = b.valency_type(&name.into());
                        Ok(b.set_nonce(amount))
                    }
                };
                b = next.unwrap_or(keep);
            }
            b.complete_transition().map(|_| ()).map_err(e)
        })?;
        Ok(Ok(res.is_ok()))
    }

    fn hostile_views(&mut self, r: &mut Rng, w: usize, c: ContractId) -> Result<Result<bool, String>, String> {
        let iface = *r.pick(&IFACES).unwrap();
        let mut sub = r.fork();
        let stock = &self.wallets[w].stock;
        guard(|| -> bool {
            let Ok(view) = stock.contract_iface(c, iface) else { return false };
            for _ in 0..4 {
                let name = *sub.pick(&NAMES).unwrap();
                match sub.below(9) {
                    0 => drop(view.fungible(name, FilterIncludeAll).map(|i| i.count())),
                    1 => drop(view.data(name, FilterIncludeAll).map(|i| i.count())),
                    2 => drop(view.rights(name, FilterIncludeAll).map(|i| i.count())),
                    3 => drop(view.attachments(name, FilterIncludeAll).map(|i| i.count())),
                    4 => drop(view.global(name).map(|i| i.count())),
                    5 => drop(view.allocations(&FilterIncludeAll).count()),
                    6 => drop(view.history(&FilterIncludeAll, &FilterIncludeAll).len()),
                    7 => drop(view.history_fungible(&FilterIncludeAll, &FilterIncludeAll).len()),
                    _ => drop(view.witness_info(XChain::Bitcoin(bp::Txid::from(sub.bytes32())))),
                }
                if name == "memo" {
                    drop(view.history_data(&FilterIncludeAll, &FilterIncludeAll).len());
                    drop(view.history_rights(&FilterIncludeAll, &FilterIncludeAll).len());
                    drop(view.history_attach(&FilterIncludeAll, &FilterIncludeAll).len());
                }
            }
            true
        })
        .map(Ok)
    }

    fn hostile_lookup(&mut self, r: &mut Rng, w: usize, c: ContractId) -> Result<Result<bool, String>, String> {
        let seals = self.any_seals(r, w, c);
        let mut sub = r.fork();
        let stock = &self.wallets[w].stock;
        guard(|| -> bool {
            match sub.below(10) {
                0 => stock.contract_info(c).is_ok(),
                1 => stock.contract_state(c).map(|s| {
                    let t = GlobalStateType::with(sub.below(40) as u16);
                    let _ = s.global(t).map(|mut i| i.size());
                    let o = Outpoint::new(bp::Txid::from(sub.bytes32()), Vout::from_u32(0));
                    let a = AssignmentType::with(sub.below(12) as u16);
                    let _ = s.rights(xop(o), a) + s.fungible(xop(o), a).count() as u32 + s.data(xop(o), a).count() as u32
                        + s.attach(xop(o), a).count() as u32;
                }).is_ok(),
                2 => stock.contract_assignments_for(c, seals).is_ok(),
                3 => stock.contracts_assigning(seals).map(|i| i.count()).is_ok(),
                4 => stock.iface(*sub.pick(&IFACES).unwrap()).is_ok(),
                5 => stock.schema(SchemaId::from(sub.bytes32())).is_ok(),
                6 => stock.contract_builder(Identity::from("x"), SchemaId::from(sub.bytes32()), *sub.pick(&IFACES).unwrap()).is_ok(),
                7 => stock.contracts().map(|i| i.count()).is_ok(),
                8 => stock.ifaces().map(|i| i.count()).is_ok(),
                _ => stock.schemata().map(|i| i.count()).is_ok(),
            }
        })
        .map(Ok)
    }

    fn hostile_export(&mut self, r: &mut Rng, w: usize, c: ContractId) -> Result<Result<bool, String>, String> {
        let seals = self.any_seals(r, w, c);
        let old: Vec<_> = self.invs.iter().filter_map(|i| i.blind.map(|b| b.conceal())).collect();
        let secret = r.pick(&old).copied();
        let way = r.below(3);
        let id = r.bytes32();
        let stock = &self.wallets[w].stock;
        guard(|| match way {
            0 => stock.export_contract(c).is_ok(),
            1 => stock.export_schema(SchemaId::from(id)).is_ok(),
            _ => stock.transfer(c, seals, secret).is_ok(),
        })
        .map(Ok)
    }

    /// A contract known without any implementation of an interface.
    fn bare_contract(&mut self, r: &mut Rng) -> Result<Result<bool, String>, String> {
        let list: Vec<usize> = (0..self.sent.len()).filter(|n| self.sent[*n].intact && self.sent[*n].kind == MsgKind::Contract).collect();
        let Some(n) = r.pick(&list).copied() else { return Ok(Ok(false)) };
        let m = self.sent[n].clone();
        let Ok(Ok(mut c)) = guard(|| decode_contract(&m.bytes, m.armored)) else { return Ok(Ok(false)) };
        if !self.verifiable(&c, 99) {
            return Ok(Ok(false));
        }
        let left = r.below(3);
        let mut ifaces = c.ifaces.clone().release();
        while ifaces.len() as u64 > left {
            ifaces.pop_last();
        }
        c.ifaces = Confined::try_from(ifaces).expect("fewer");
        let id = c.genesis.contract_id();
        let schema_id = c.genesis.schema_id;
        let kits = [r.chance(1, 3), r.chance(1, 3)];
        let part = r.chance(1, 2);
        let kits: Vec<_> = [self.kit(true), self.kit(false)]
            .into_iter()
            .zip(kits)
            .filter(|x| x.1)
            .map(|(mut k, _)| {
                if part {
                    k.iimpls = Default::default();
                }
                k
            })
            .collect();
        let mut sub = r.fork();
        let utxos: Vec<Outpoint> = self.utxo_order.clone();
        let invs: Vec<RgbInvoice> = self.invs.iter().map(|i| i.inv.clone()).collect();
        let chain = &self.chain;
        let res = guard(|| -> Result<bool, String> {
            let mut stock = Stock::in_memory();
            for k in kits {
                let v = k.validate().map_err(|_| "invalid kit".to_string())?;
                stock.import_kit(v).map_err(e)?;
            }
            let rs = Resolver::new(chain, 99);
            let Ok(v) = c.validate(&&rs, true) else { return Ok(false) };
            if stock.import_contract(v, &rs).is_err() {
                return Ok(false);
            }
            for iface in IFACES {
                let _ = stock.blank_builder(id, iface).map(|b| b.complete_transition().map(|_| ()));
                let _ = stock.transition_builder(id, iface, None::<&str>).map(|_| ());
                let _ = stock.transition_builder(id, iface, Some("transfer")).map(|_| ());
                let _ = stock.contract_iface(id, iface).map(|_| ());
                let _ = stock.contract_builder(Identity::from("x"), schema_id, iface).map(|_| ());
            }
            if let Some(inv) = sub.pick(&invs) {
                let mut inv = inv.clone();
                inv.contract = Some(id);
                inv.expiry = None;
                let prev: Vec<XOutputSeal> = utxos
                    .iter()
                    .map(|o| XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(CloseMethod::TapretFirst, *o)))
                    .collect();
                let _ = stock.compose(&inv, prev, CloseMethod::OpretFirst, None::<Vout>, |_, _, _| Some(Vout::from_u32(1))).map(|_| ());
            }
            let _ = stock.export_contract(id).map(|_| ());
            let _ = stock.contracts().map(|i| i.count());
            let _ = oracle::dump(&stock)?;
            Ok(true)
        })?;
        Ok(res)
    }

    /// Data out of place, taken aside.
    fn hostile_take(&mut self, r: &mut Rng, w: usize) -> Result<Result<bool, String>, String> {
        let way = r.below(5);
        let mut aside = if r.chance(1, 3) { Stock::in_memory() } else { self.wallets[w].stock.clone_no_persistence() };
        let before = match self.probe(&aside) {
            Ok(d) => d,
            Err(m) => return Ok(Err(m)),
        };
        let rs = Resolver::new(&self.chain, 99);
        let res: Result<Result<bool, String>, String> = match way {
            // operations of somebody else, in any order
            0 => {
                let Some(f) = r.pick(&self.fascias).cloned() else { return Ok(Ok(false)) };
                guard(|| aside.consume_fascia(f, &rs).map(|_| true).map_err(e))
            }
            1 => {
                let mut kit = self.kit(r.chance(1, 2));
                match r.below(4) {
                    0 => kit.types = Default::default(),
                    1 => kit.ifaces = Default::default(),
                    2 => kit.schemata = Default::default(),
                    _ => {
                        kit = rgbstd::containers::Kit::default();
                    }
                }
                let Ok(v) = kit.validate() else { return Ok(Ok(false)) };
                guard(|| aside.import_kit(v).map(|_| true).map_err(e))
            }
            2 => {
                let h = [0, 1, u32::MAX][r.below(3) as usize];
                guard(|| aside.update_witnesses(&rs, h).map(|_| true).map_err(e))
            }
            3 => {
                // a contract stripped of the parts it needs
                let list: Vec<usize> =
                    (0..self.sent.len()).filter(|n| self.sent[*n].intact && self.sent[*n].kind == MsgKind::Contract).collect();
                let Some(n) = r.pick(&list).copied() else { return Ok(Ok(false)) };
                let m = &self.sent[n];
                let Ok(Ok(c)) = guard(|| decode_contract(&m.bytes, m.armored)) else { return Ok(Ok(false)) };
                let mut c: Consignment<false> = c;
                for _ in 0..1 + r.below(2) {
                    match r.below(4) {
                        0 => c.scripts = Default::default(),
                        1 => c.bundles = Default::default(),
                        2 => c.ifaces = Default::default(),
                        _ => {
                            c.schema.owned_types = Default::default();
                        }
                    }
                }
                guard(|| {
                    let v = c.validate(&&rs, true).map_err(|_| "invalid".to_string())?;
                    aside.import_contract(v, &rs).map(|_| true).map_err(e)
                })
            }
            _ => {
                let o = Outpoint::new(bp::Txid::from(r.bytes32()), Vout::from_u32(r.below(3) as u32));
                let seal = XChain::Bitcoin(rgbstd::GraphSeal::with_blinding(Self::pick_method(r), o.txid, o.vout, r.next()));
                guard(|| aside.store_secret_seal(seal).map_err(e))
            }
        };
        match res? {
            Ok(x) => {
                if let Err(m) = self.probe(&aside) {
                    return Ok(Err(format!("afterwards {m}")));
                }
                Ok(Ok(x))
            }
            Err(_) => match self.probe(&aside) {
                Ok(d) => match oracle::diff(&before, &d) {
                    Some(d) => Ok(Err(format!("a refusal has changed the stock: {d}"))),
                    None => Ok(Ok(false)),
                },
                Err(m) => Ok(Err(format!("after a refusal {m}"))),
            },
        }
    }
}
