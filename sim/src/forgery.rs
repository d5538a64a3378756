//! C04: data which was never agreed upon, and history with parts missing or exchanged.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use bp::seals::txout::CloseMethod;
use bp::{Outpoint, Vout};
use commit_verify::mpc::MerkleProof;
use commit_verify::Conceal;
use nonasync::persistence::CloneNoPersistence;
use rgbstd::containers::{BuilderSeal, ClientBundle, Consignment, PubWitness, Transfer, TransitionInfo, WitnessBundle};
use rgbstd::persistence::{PersistedState, StashReadProvider};
use rgbstd::validation::DbcProof;
use rgbstd::{
    Assign, Assignments, ContractId, Operation, Opout, RevealedValue, Transition, TransitionBundle, TxoSeal, TypedAssigns,
    Vin, XChain, XOutputSeal,
};

use crate::chain::{internal_pk, spk_wpkh, Resolver};
use crate::rng::Rng;
use crate::schema::{OS_ASSET, TS_TRANSFER};
use crate::truth::{ser, xoutpoint};
use crate::world::{brief, decode_contract, decode_transfer, guard, random_blinding, MsgKind, Pack, World};

#[derive(Clone)]
struct Part {
    mpc_proof: MerkleProof,
    dbc_proof: DbcProof,
    bundle: TransitionBundle,
}

type Parts = Vec<(PubWitness, Vec<Part>)>;

fn parts<const T: bool>(c: &Consignment<T>) -> Parts {
    c.bundles
        .iter()
        .map(|wb| {
            let XChain::Bitcoin(pw) = &wb.pub_witness else { unreachable!("no other chains") };
            let list =
                wb.anchored_bundles.clone().into_iter().map(|(a, b)| Part { mpc_proof: a.mpc_proof, dbc_proof: a.dbc_proof, bundle: b }).collect();
            (pw.clone(), list)
        })
        .collect()
}

fn put<const T: bool>(c: &mut Consignment<T>, p: Parts) {
    let mut set = BTreeSet::new();
    for (pw, list) in p {
        let mut it = list.into_iter().map(|p| ClientBundle::new(p.mpc_proof, p.dbc_proof, p.bundle));
        let Some(first) = it.next() else { continue };
        let mut wb = WitnessBundle::with(XChain::Bitcoin(pw), first);
        if let Some(p) = it.next() {
            let Ok(d) = wb.into_double(p) else { continue };
            wb = d;
        }
        set.insert(wb);
    }
    c.bundles = Confined::try_from(set).expect("few");
}

/// Changes an amount of the transition.
fn inflate(t: &mut Transition, r: &mut Rng) -> bool {
    let mut map = (*t.assignments).clone().release();
    let mut done = false;
    for (ty, ta) in map.iter_mut() {
        if *ty != OS_ASSET {
            continue;
        }
        if let TypedAssigns::Fungible(v) = ta {
            let n = r.below(v.len() as u64) as usize;
            let by = 1 + r.below(1 << 20);
            let change = |s: &RevealedValue| RevealedValue::with_blinding(s.value.as_u64().wrapping_add(by), s.blinding, s.tag);
            let mut list: Vec<_> = v.iter().cloned().collect();
            match &mut list[n] {
                Assign::Revealed { state, .. } | Assign::ConfidentialSeal { state, .. } => {
                    *state = change(state);
                    done = true;
                }
                _ => {}
            }
            *v = Confined::try_from(list).expect("same number");
        }
        if done {
            break;
        }
    }
    t.assignments = Assignments::from(Confined::try_from(map).expect("same number"));
    done
}

impl World {
    pub fn forge(&mut self, r: &mut Rng) {
        if r.chance(1, 3) {
            self.dishonest(r)
        } else {
            self.tamper(r)
        }
    }

    // ---------------------------------------------------------------------------------------------------------
    // A payer who breaks the rules

    fn dishonest(&mut self, r: &mut Rng) {
        let Some((payer, c, what)) = self.payable(r) else { return };
        let payee = self.any_wallet(r);
        let way = r.below(5);
        if way == 2 && payee == payer {
            return;
        }
        let Some(sel) = self.coin_select(r, payer, c, &what, &Default::default()) else { return };
        let Some(n) = self.invoice(r, payee, c, what) else { return };
        self.invs[n].used = true;
        let vout = Vout::from_u32(3);
        let Some(mut infos) = self.compose(r, payer, n, &sel, vout) else { return };
        if self.viol.is_some() {
            return;
        }
        let mut inputs = sel.clone();
        let inv = self.invs[n].clone();
        let mut bad = None;
        match way {
            0 => {
                let list: Vec<usize> = (0..infos.len())
                    .filter(|i| infos[*i].transition.contract_id == c && infos[*i].transition.transition_type == TS_TRANSFER)
                    .filter(|i| infos[*i].transition.assignments.get(&OS_ASSET).is_some())
                    .collect();
                let Some(i) = r.pick(&list).copied() else { return };
                let mut t = infos[i].transition.clone();
                if !inflate(&mut t, r) || Operation::id(&t) == Operation::id(&infos[i].transition) {
                    return;
                }
                bad = Some(Operation::id(&t));
                let seals: Vec<XOutputSeal> = infos[i]
                    .inputs
                    .iter()
                    .map(|o| {
                        let o: Outpoint = xoutpoint_of(o);
                        XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(infos[i].method, o))
                    })
                    .collect();
                let Ok(info) = TransitionInfo::new(t, seals) else { return };
                infos[i] = info;
            }
            // other coins are spent
            1 => {
                for o in inputs.iter_mut() {
                    *o = self.fund(r, payer);
                }
            }
            // somebody else's assignment is spent along
            3 => {
                let mut own: Vec<(Opout, XOutputSeal, u64)> = vec![];
                let mut other: Vec<(Opout, u64)> = vec![];
                for (o, s, st) in self.wallets[payer].know.owned(&self.truth, c).into_keys() {
                    if o.ty != OS_ASSET {
                        continue;
                    }
                    let Some(p) = xoutpoint(&s) else { continue };
                    if sel.contains(&p) {
                        own.push((o, s, st.amount));
                    } else {
                        other.push((o, st.amount));
                    }
                }
                let (Some(a), Some(b)) = (r.pick(&own).copied(), r.pick(&other).copied()) else { return };
                let seal = BuilderSeal::Revealed(XChain::Bitcoin(rgbstd::GraphSeal::with_blinded_vout(a.1.method(), vout, r.next())));
                let mut sub = r.fork();
                let stock = &self.wallets[payer].stock;
                let built = guard(|| -> Result<Transition, String> {
                    let outs = stock
                        .contract_assignments_for(c, self.wallets[payer].know.owned(&self.truth, c).into_keys().map(|k| k.1))
                        .map_err(|e| e.to_string())?;
                    let all: BTreeMap<Opout, PersistedState> = outs.into_values().flatten().collect();
                    let mut t = stock.transition_builder(c, "SimAsset", Some("transfer")).map_err(|e| e.to_string())?;
                    let mut sum = 0u64;
                    for o in [a.0, b.0] {
                        let st = all.get(&o).cloned().ok_or("unknown")?;
                        if let PersistedState::Amount(v, ..) = &st {
                            sum += u64::from(*v);
                        }
                        t = t.add_input(o, st).map_err(|e| e.to_string())?;
                    }
                    t = t.add_fungible_state_raw(OS_ASSET, seal, sum, random_blinding(&mut sub)).map_err(|e| e.to_string())?;
                    t.complete_transition().map_err(|e| e.to_string())
                });
                let Ok(Ok(t)) = built else { return };
                let Ok(info) = TransitionInfo::new(t, [a.1]) else { return };
                infos = vec![info];
            }
            _ => {}
        }
        let order: Vec<Outpoint> = sel.clone();
        let bundles = self.bundle_up(&infos, &order);
        let pack = Pack {
            author: payer,
            inputs,
            bundles,
            host: internal_pk(r),
            extra: vec![inv.spk.clone()],
            payments: vec![],
            change: [spk_wpkh(r)],
        };
        let full = r.chance(1, 2);
        let Some((tx, fascia)) = self.anchor(r, &pack, full) else { return };
        let txid = self.chain.add(tx, payer);
        if way != 2 {
            self.chain.broadcast(txid);
        }
        if way != 2 && !self.chain.visible(txid, payee) {
            return;
        }
        let mut aside = self.wallets[payer].stock.clone_no_persistence();
        let outputs: Vec<XOutputSeal> = if way == 3 || inv.blind.is_none() {
            [CloseMethod::OpretFirst, CloseMethod::TapretFirst]
                .into_iter()
                .filter(|m| *m == inv.method || way == 3)
                .map(|m| XChain::Bitcoin(bp::seals::txout::ExplicitSeal::new(m, Outpoint::new(txid, vout))))
                .take(1)
                .collect()
        } else {
            vec![]
        };
        let secret = if way == 3 { None } else { inv.blind.map(|s| s.conceal()) };
        let made = {
            let rs = Resolver::new(&self.chain, payer);
            guard(|| -> Result<Transfer, String> {
                aside.consume_fascia(fascia, &rs).map_err(|e| e.to_string())?;
                aside.transfer(c, outputs, secret).map_err(|e| e.to_string())
            })
        };
        let Ok(Ok(mut t)) = made else {
            self.count("forged payments not consigned");
            return;
        };
        let forged: BTreeSet<_> = pack.bundles.values().flatten().map(|b| b.bundle_id()).collect();
        let carried = t.bundles.iter().any(|wb| wb.anchored_bundles.bundles().any(|b| forged.contains(&b.bundle_id())));
        let faulty = bad.is_none() || t.bundles.iter().any(|wb| wb.known_transitions().any(|t| Some(Operation::id(t)) == bad));
        if !carried || !faulty {
            return;
        }
        if way == 4 {
            // The same way without a fault: shows that the others fail for the fault
            if !self.verifiable(&t, payee) {
                return;
            }
            let rs = Resolver::new(&self.chain, payee);
            match guard(|| t.validate(&&rs, true).map(|_| ()).map_err(|(s, _)| brief(&format!("{s:?}")))) {
                Ok(Ok(())) => self.count("honest payments of the same making valid"),
                Ok(Err(e)) => self.fail(&["C01"], format!("an honest payment fails validation: {e}")),
                Err(p) => self.fail(&["C04", "C17"], format!("validation aborts: {p}")),
            }
            return;
        }
        if way == 0 && r.chance(1, 3) {
            t.scripts = Default::default();
            self.count("inflated payments without scripts");
        }
        self.note(format!("  dishonest {way}"));
        self.count(["inflated payments", "payments without spending", "unpublished payments", "stolen payments"][way as usize]);
        self.take_consignment(payee, t, false, "accepting a forged payment");
    }

    // ---------------------------------------------------------------------------------------------------------
    // A messenger who alters what they carry

    fn tamper(&mut self, r: &mut Rng) {
        let list: Vec<usize> = (0..self.sent.len()).filter(|n| self.sent[*n].intact && self.sent[*n].kind != MsgKind::Kit).collect();
        let Some(n) = r.pick(&list).copied() else { return };
        let m = self.sent[n].clone();
        let to = if r.chance(1, 2) { m.to } else { self.any_wallet(r) };
        if m.kind == MsgKind::Contract {
            let Ok(Ok(c)) = guard(|| decode_contract(&m.bytes, m.armored)) else { return };
            let c: Consignment<false> = c;
            self.tampered(r, to, c)
        } else {
            let Ok(Ok(c)) = guard(|| decode_transfer(&m.bytes, m.armored)) else { return };
            let c: Consignment<true> = c;
            self.tampered(r, to, c)
        }
    }

    fn tampered<const T: bool>(&mut self, r: &mut Rng, to: usize, c: Consignment<T>)
    where rgbstd::containers::ValidConsignment<T>: crate::world::Take + Clone {
        if !self.verifiable(&c, to) {
            return;
        }
        let mut x = c.clone();
        let mut p = parts(&c);
        let spent: BTreeSet<Opout> =
            c.bundles.iter().flat_map(|wb| wb.known_transitions().flat_map(|t| t.inputs.iter().map(|i| i.prev_out))).collect();
        // Bundles with an operation whose state another operation of the consignment spends
        let needed: Vec<(usize, usize)> = p
            .iter()
            .enumerate()
            .flat_map(|(i, (_, l))| l.iter().enumerate().map(move |(j, b)| (i, j, b)))
            .filter(|(_, _, b)| b.bundle.known_transitions.keys().any(|id| spent.iter().any(|o| o.op == *id)))
            .map(|(i, j, _)| (i, j))
            .collect();
        let all: Vec<(usize, usize)> = p.iter().enumerate().flat_map(|(i, (_, l))| (0..l.len()).map(move |j| (i, j))).collect();
        let others: Vec<ContractId> = self.truth.geneses.keys().copied().filter(|x| *x != c.genesis.contract_id()).collect();
        let way = r.below(17);
        let what = match way {
            0 => {
                let Some((i, j)) = r.pick(&needed).copied() else { return };
                p[i].1.remove(j);
                put(&mut x, p);
                "a part of the history missing"
            }
            1 => {
                let Some((i, j)) = r.pick(&needed).copied() else { return };
                let b = &mut p[i].1[j].bundle;
                let mut known = b.known_transitions.clone().release();
                let Some(id) = known.keys().copied().find(|id| spent.iter().any(|o| o.op == *id)) else { return };
                known.remove(&id);
                let Ok(known) = Confined::try_from(known) else { return };
                *b = TransitionBundle { close_method: b.close_method, input_map: b.input_map.clone(), known_transitions: known };
                put(&mut x, p);
                "an operation of the history missing"
            }
            2 => {
                let Some(o) = r.pick(&others).copied() else { return };
                if p.is_empty() {
                    return;
                }
                let Some(g) = self.wallets.iter().find_map(|w| w.stock.as_stash_provider().genesis(o).ok().cloned()) else { return };
                x.genesis = g;
                "the genesis of another contract"
            }
            3 | 4 => {
                // exchange of proofs
                if all.len() < 2 {
                    return;
                }
                let (a, b) = (*r.pick(&all).unwrap(), *r.pick(&all).unwrap());
                let (pa, pb) = (p[a.0].1[a.1].clone(), p[b.0].1[b.1].clone());
                if a == b || pa.bundle.close_method != pb.bundle.close_method {
                    return;
                }
                if way == 3 {
                    if ser(&pa.mpc_proof) == ser(&pb.mpc_proof) && ser(&pa.dbc_proof) == ser(&pb.dbc_proof) {
                        return;
                    }
                    p[a.0].1[a.1] = Part { bundle: pa.bundle.clone(), ..pb.clone() };
                } else {
                    if a.0 == b.0 || pa.bundle.bundle_id() == pb.bundle.bundle_id() {
                        return;
                    }
                    p[a.0].1[a.1] = Part { bundle: pb.bundle.clone(), ..pa.clone() };
                    p[b.0].1[b.1] = Part { bundle: pa.bundle.clone(), ..pb.clone() };
                }
                put(&mut x, p);
                "proofs or bundles exchanged"
            }
            5 => {
                // another transaction
                if p.is_empty() {
                    return;
                }
                let i = r.below(p.len() as u64) as usize;
                let own = p[i].0.txid();
                let txs: Vec<_> = self.chain.order.iter().copied().filter(|t| *t != own && self.chain.visible(*t, to)).collect();
                let Some(t) = r.pick(&txs).copied() else { return };
                if p.iter().any(|(w, _)| w.txid() == t) {
                    return;
                }
                if p[i].1.iter().any(|b| self.truth.anchored.get(&b.bundle.bundle_id()).is_some_and(|s| s.contains(&t))) {
                    return;
                }
                p[i].0 = if r.chance(1, 2) { PubWitness::Txid(t) } else { PubWitness::Tx(self.chain.txs[&t].tx.clone()) };
                put(&mut x, p);
                "another witness transaction"
            }
            6 | 7 => {
                let Some((i, j)) = r.pick(&all).copied() else { return };
                let b = &mut p[i].1[j].bundle;
                let mut known = b.known_transitions.clone().release();
                let ids: Vec<_> = known.keys().copied().collect();
                let Some(id) = r.pick(&ids).copied() else { return };
                let mut t = known.remove(&id).unwrap();
                if r.chance(1, 3) {
                    t.nonce = t.nonce.wrapping_sub(1 + r.below(5));
                } else if !inflate(&mut t, r) {
                    return;
                }
                let mut map = b.input_map.clone();
                if way == 6 {
                    known.insert(id, t);
                } else {
                    let new = t.id();
                    let mut m = (*map).clone().release();
                    for v in m.values_mut() {
                        if *v == id {
                            *v = new;
                        }
                    }
                    map = rgbstd::InputMap::from(Confined::try_from(m).expect("same number"));
                    known.insert(new, t);
                }
                *b = TransitionBundle {
                    close_method: b.close_method,
                    input_map: map,
                    known_transitions: Confined::try_from(known).expect("same number"),
                };
                put(&mut x, p);
                "an altered operation"
            }
            8 => {
                x.schema = if ser(&x.schema) == ser(&self.kits.rich) { self.kits.plain.clone() } else { self.kits.rich.clone() };
                "another schema"
            }
            9 => {
                // parts of another contract
                let src: Vec<usize> = (0..self.sent.len())
                    .filter(|n| self.sent[*n].intact && matches!(self.sent[*n].kind, MsgKind::Transfer(_)))
                    .collect();
                let Some(n) = r.pick(&src).copied() else { return };
                let m = self.sent[n].clone();
                let Ok(Ok(o)) = guard(|| decode_transfer(&m.bytes, m.armored)) else { return };
                if o.genesis.contract_id() == x.genesis.contract_id() {
                    return;
                }
                let q = parts(&o);
                let Some(b) = r.pick(&q).cloned() else { return };
                if p.iter().any(|(w, _)| w.txid() == b.0.txid()) {
                    return;
                }
                p.push(b);
                put(&mut x, p);
                "operations of another contract"
            }
            10 => {
                let Some((i, j)) = r.pick(&all).copied() else { return };
                let b = &mut p[i].1[j].bundle;
                let mut m = (*b.input_map).clone().release();
                let Some(v) = m.keys().next().copied() else { return };
                let id = m.remove(&v).unwrap();
                m.insert(Vin::from_u32(v.to_u32() + 1 + r.below(3) as u32), id);
                b.input_map = rgbstd::InputMap::from(Confined::try_from(m).expect("not empty"));
                put(&mut x, p);
                "another input map"
            }
            11 => {
                if p.is_empty() {
                    return;
                }
                if inflate_genesis(&mut x, r) {
                    "an altered genesis"
                } else {
                    return;
                }
            }
            12 => {
                // validated for the other network
                let rs = Resolver::new(&self.chain, to);
                let mainnet = !x.genesis.testnet;
                let res = guard(|| x.validate(&&rs, mainnet).is_ok());
                self.count("tampered consignments");
                return match res {
                    Ok(false) => {}
                    Ok(true) => self.fail(&["C04"], "a contract of another network passes validation"),
                    Err(p) => self.fail(&["C04", "C17"], format!("validation aborts: {p}")),
                };
            }
            13 => {
                // the same bundle a second time, in another form or under another transaction
                let Some((i, j)) = r.pick(&all).copied() else { return };
                let mut part = p[i].1[j].clone();
                let own = p[i].0.txid();
                let mut txid = own;
                if r.chance(1, 2) {
                    let txs: Vec<_> = self.chain.order.iter().copied().filter(|t| self.chain.visible(*t, to)).collect();
                    txid = *r.pick(&txs).unwrap_or(&own);
                }
                if p.iter().any(|(w, _)| w.txid() == txid && txid != own) {
                    return;
                }
                let genuine = self.truth.anchored.get(&part.bundle.bundle_id()).is_some_and(|s| s.contains(&txid));
                if r.chance(2, 3) || genuine {
                    let mut known = part.bundle.known_transitions.clone().release();
                    let ids: Vec<_> = known.keys().copied().collect();
                    let Some(id) = r.pick(&ids).copied() else { return };
                    let mut t = known.remove(&id).unwrap();
                    if !inflate(&mut t, r) {
                        t.nonce = t.nonce.wrapping_sub(1 + r.below(5));
                    }
                    known.insert(if r.chance(1, 2) { id } else { t.id() }, t);
                    part.bundle = TransitionBundle {
                        close_method: part.bundle.close_method,
                        input_map: part.bundle.input_map.clone(),
                        known_transitions: Confined::try_from(known).expect("same number"),
                    };
                }
                let pw = match &p[i].0 {
                    PubWitness::Tx(_) if txid == own => PubWitness::Txid(own),
                    _ if txid == own => PubWitness::Tx(self.chain.txs[&own].tx.clone()),
                    _ if r.chance(1, 2) => PubWitness::Txid(txid),
                    _ => PubWitness::Tx(self.chain.txs[&txid].tx.clone()),
                };
                p.push((pw, vec![part]));
                put(&mut x, p);
                "a bundle repeated with other content"
            }
            14 => {
                // an operation to which the transaction does not commit
                let Some((i, j)) = r.pick(&all).copied() else { return };
                let b = &mut p[i].1[j].bundle;
                let mut known = b.known_transitions.clone().release();
                let ids: Vec<_> = known.keys().copied().collect();
                let Some(id) = r.pick(&ids).copied() else { return };
                let mut t = known[&id].clone();
                t.nonce = t.nonce.wrapping_sub(1 + r.below(5));
                known.insert(t.id(), t);
                let Ok(known) = Confined::try_from(known) else { return };
                *b = TransitionBundle { close_method: b.close_method, input_map: b.input_map.clone(), known_transitions: known };
                put(&mut x, p);
                "an operation added to a bundle"
            }
            15 => {
                let mut e = rgbstd::Extension {
                    ffv: Default::default(),
                    contract_id: x.genesis.contract_id(),
                    nonce: r.next(),
                    extension_type: rgbstd::ExtensionType::with(r.below(3) as u16),
                    metadata: Default::default(),
                    globals: Default::default(),
                    assignments: Default::default(),
                    redeemed: Default::default(),
                    valencies: Default::default(),
                    validator: Default::default(),
                    witness: Default::default(),
                };
                if r.chance(1, 2) {
                    e.assignments = x.genesis.assignments.clone();
                }
                x.extensions = Confined::try_from(BTreeSet::from([e])).expect("one");
                "an extension nothing refers to"
            }
            _ => {
                if x.scripts.is_empty() {
                    return;
                }
                x.scripts = Default::default();
                let scripted = c.bundles.iter().any(|wb| wb.known_transitions().any(|t| t.transition_type == TS_TRANSFER));
                if !scripted {
                    return;
                }
                "scripts missing"
            }
        };
        if ser(&x) == ser(&c) {
            return;
        }
        self.count("tampered consignments");
        let rs = Resolver::new(&self.chain, to);
        let y = x.clone();
        match guard(|| y.validate(&&rs, true).is_ok()) {
            Ok(true) => return self.fail(&["C04"], format!("a consignment with {what} passes validation")),
            Ok(false) => {}
            Err(p) => return self.fail(&["C04", "C17"], format!("validation of a consignment with {what} aborts: {p}")),
        }
    }
}

fn inflate_genesis<const T: bool>(c: &mut Consignment<T>, r: &mut Rng) -> bool {
    let mut map = (*c.genesis.assignments).clone().release();
    for ta in map.values_mut() {
        if let TypedAssigns::Fungible(v) = ta {
            let mut list: Vec<_> = v.iter().cloned().collect();
            let n = r.below(list.len() as u64) as usize;
            if let Assign::Revealed { state, .. } | Assign::ConfidentialSeal { state, .. } = &mut list[n] {
                *state = RevealedValue::with_blinding(state.value.as_u64().wrapping_add(1), state.blinding, state.tag);
                *v = Confined::try_from(list).expect("same number");
                c.genesis.assignments = Assignments::from(Confined::try_from(map).expect("same number"));
                return true;
            }
        }
    }
    false
}

fn xoutpoint_of(o: &rgbstd::XOutpoint) -> Outpoint {
    match **o {
        XChain::Bitcoin(o) => o,
        _ => unreachable!("no other chains"),
    }
}
