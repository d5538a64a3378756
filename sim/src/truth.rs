//! Ground truth about contract operations and the reference model of what a wallet knows.

use std::collections::{BTreeMap, BTreeSet};

use amplify::Wrapper;
use bp::seals::txout::CloseMethod;
use bp::{Outpoint, Txid};
use commit_verify::Conceal;
use rgbstd::containers::{Consignment, Fascia};
use rgbstd::vm::{GlobalOrd, WitnessOrd};
use rgbstd::{
    Assign, AssignmentType, Assignments, BundleId, ContractId, ExposedSeal, Genesis, GlobalStateType, GraphSeal, OpId,
    Operation, Opout, OutputSeal, SecretSeal, Transition, TransitionType, TypedAssigns, XChain, XOutpoint, XOutputSeal,
    XWitnessId,
};
use strict_encoding::{StrictEncode, StrictWriter};

/// Canonical owned state: a kind, the amount (fungible only) and the full serialized state.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct St {
    pub kind: u8,
    pub amount: u64,
    pub bytes: Vec<u8>,
}

impl St {
    pub fn void() -> St { St { kind: 0, amount: 0, bytes: vec![] } }
    pub fn value(v: &rgbstd::RevealedValue) -> St {
        St { kind: 1, amount: v.value.into(), bytes: ser(v) }
    }
    pub fn data(v: &rgbstd::RevealedData) -> St { St { kind: 2, amount: 0, bytes: ser(v) } }
    pub fn attach(v: &rgbstd::RevealedAttach) -> St { St { kind: 3, amount: 0, bytes: ser(v) } }
    /// Meaning of the state without its blinding.
    pub fn essence(&self) -> (u8, u64, Vec<u8>) {
        match self.kind {
            1 => (1, self.amount, vec![]),
            // salts come last: u128 for data, u64 for attachments
            2 => (2, 0, self.bytes[..self.bytes.len() - 16].to_vec()),
            3 => (3, 0, self.bytes[..self.bytes.len() - 8].to_vec()),
            _ => (0, 0, vec![]),
        }
    }
}

pub fn ser<T: StrictEncode>(v: &T) -> Vec<u8> {
    v.strict_encode(StrictWriter::in_memory::<{ u32::MAX as usize }>())
        .expect("in-memory serialization")
        .unbox()
        .unconfine()
}

#[derive(Clone, Debug)]
pub struct Out {
    pub secret: XChain<SecretSeal>,
    /// Known as soon as anybody in the world has revealed it.
    pub seal: Option<XChain<GraphSeal>>,
    pub st: Option<St>,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub id: OpId,
    pub contract: ContractId,
    /// `None` for genesis.
    pub ty: Option<TransitionType>,
    pub nonce: u64,
    pub globals: BTreeMap<GlobalStateType, Vec<Vec<u8>>>,
    pub meta: BTreeMap<u16, Vec<u8>>,
    pub inputs: Vec<Opout>,
    pub outs: BTreeMap<(AssignmentType, u16), Out>,
}

fn outs<Seal: ExposedSeal>(
    a: &Assignments<Seal>,
    up: impl Fn(XChain<Seal>) -> XChain<GraphSeal>,
) -> BTreeMap<(AssignmentType, u16), Out> {
    fn one<S: rgbstd::ExposedState, Seal: ExposedSeal>(
        a: &Assign<S, Seal>,
        st: impl Fn(&S) -> St,
        up: &impl Fn(XChain<Seal>) -> XChain<GraphSeal>,
    ) -> Out {
        Out {
            secret: a.to_confidential_seal(),
            seal: a.revealed_seal().map(up),
            st: a.as_revealed_state().map(st),
        }
    }
    let mut r = BTreeMap::new();
    for (ty, list) in a.iter() {
        let v: Vec<Out> = match list {
            TypedAssigns::Declarative(l) => l.iter().map(|a| one(a, |_| St::void(), &up)).collect(),
            TypedAssigns::Fungible(l) => l.iter().map(|a| one(a, St::value, &up)).collect(),
            TypedAssigns::Structured(l) => l.iter().map(|a| one(a, St::data, &up)).collect(),
            TypedAssigns::Attachment(l) => l.iter().map(|a| one(a, St::attach, &up)).collect(),
        };
        for (no, o) in v.into_iter().enumerate() {
            r.insert((*ty, no as u16), o);
        }
    }
    r
}

impl Op {
    pub fn of_genesis(g: &Genesis) -> Op {
        Op {
            id: OpId::copy_from_slice(g.contract_id().as_slice()).unwrap(),
            contract: g.contract_id(),
            ty: None,
            nonce: 0,
            globals: globals(&g.globals),
            meta: g.metadata.iter().map(|(k, v)| (k.to_inner(), v.as_unconfined().to_vec())).collect(),
            inputs: vec![],
            outs: outs(&g.assignments, |s| s.transmutate()),
        }
    }

    pub fn of_transition(t: &Transition) -> Op {
        Op {
            id: t.id(),
            contract: t.contract_id,
            ty: Some(t.transition_type),
            nonce: t.nonce,
            globals: globals(&t.globals),
            meta: t.metadata.iter().map(|(k, v)| (k.to_inner(), v.as_unconfined().to_vec())).collect(),
            inputs: t.inputs.iter().map(|i| i.prev_out).collect(),
            outs: outs(&t.assignments, |s| s),
        }
    }

    /// Number of outputs whose seal and state are both revealed in this copy of the operation.
    pub fn revealed(&self) -> BTreeSet<(AssignmentType, u16)> {
        self.outs
            .iter()
            .filter(|(_, o)| o.seal.is_some() && o.st.is_some())
            .map(|(k, _)| *k)
            .collect()
    }
}

fn globals(g: &rgbstd::GlobalState) -> BTreeMap<GlobalStateType, Vec<Vec<u8>>> {
    g.iter()
        .map(|(t, v)| (*t, v.iter().map(|d| d.as_slice().to_vec()).collect()))
        .collect()
}

pub fn out_seal(seal: &XChain<GraphSeal>, wit: Option<Txid>) -> Option<XOutputSeal> {
    match wit {
        Some(w) => seal.try_to_output_seal(XChain::Bitcoin(w)).ok(),
        None => {
            let XChain::Bitcoin(s) = seal else { return None };
            let bp::seals::txout::TxPtr::Txid(txid) = s.txid else { return None };
            Some(XChain::Bitcoin(OutputSeal::new(s.method, Outpoint::new(txid, s.vout))))
        }
    }
}

pub fn xoutpoint(seal: &XOutputSeal) -> Option<Outpoint> {
    match seal {
        XChain::Bitcoin(s) => Some(Outpoint::new(s.txid, s.vout)),
        _ => None,
    }
}
pub fn xop(o: Outpoint) -> XOutpoint { XOutpoint::from(XChain::Bitcoin(o)) }

pub fn txid_of(id: XWitnessId) -> Option<Txid> {
    match id {
        XChain::Bitcoin(t) => Some(t),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub struct BundleT {
    pub id: BundleId,
    pub contract: ContractId,
    pub method: CloseMethod,
    pub ops: BTreeSet<OpId>,
}

/// Everything that authentically exists in the simulated world.
#[derive(Clone, Default)]
pub struct Truth {
    pub ops: BTreeMap<OpId, Op>,
    pub geneses: BTreeMap<ContractId, OpId>,
    pub contract_order: Vec<ContractId>,
    pub bundles: BTreeMap<BundleId, BundleT>,
    pub op_bundle: BTreeMap<OpId, BundleId>,
    /// Authentic witnesses of every bundle.
    pub anchored: BTreeMap<BundleId, BTreeSet<Txid>>,
    /// Which schema a contract uses: true for the rich one.
    pub rich: BTreeMap<ContractId, bool>,
}

impl Truth {
    pub fn learn(&mut self, op: Op) {
        match self.ops.get_mut(&op.id) {
            None => {
                self.ops.insert(op.id, op);
            }
            Some(old) => {
                for (k, o) in op.outs {
                    if let Some(x) = old.outs.get_mut(&k) {
                        if x.seal.is_none() {
                            x.seal = o.seal;
                        }
                        if x.st.is_none() {
                            x.st = o.st;
                        }
                    }
                }
            }
        }
    }

    pub fn reveal_secret(&mut self, seal: XChain<GraphSeal>) {
        let secret = seal.conceal();
        for op in self.ops.values_mut() {
            for o in op.outs.values_mut() {
                if o.secret == secret {
                    o.seal = Some(seal);
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct KOp {
    /// Outputs of which both the seal and the state are known.
    pub revealed: BTreeSet<(AssignmentType, u16)>,
    /// Outputs of which at least the seal is known.
    pub seals: BTreeSet<(AssignmentType, u16)>,
    pub wit: BTreeSet<Txid>,
}

/// What one wallet must know, given everything it has successfully taken in.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Know {
    pub contracts: BTreeSet<ContractId>,
    pub ops: BTreeMap<OpId, KOp>,
    pub bundles: BTreeMap<BundleId, BTreeSet<Txid>>,
    pub ords: BTreeMap<Txid, WitnessOrd>,
    pub secrets: BTreeSet<XChain<SecretSeal>>,
    /// Witnesses given as complete transactions.
    pub full: BTreeSet<Txid>,
    /// Schema kits imported (true for the rich one).
    pub kits: BTreeSet<bool>,
    /// Interfaces, schemata, supplements and signatures taken.
    pub extras: BTreeSet<String>,
}

pub fn is_full(w: &rgbstd::containers::XPubWitness) -> bool {
    matches!(w, XChain::Bitcoin(rgbstd::containers::PubWitness::Tx(_)))
}

pub type OwnedKey = (Opout, XOutputSeal, St);

impl Know {
    fn add_op(&mut self, op: &Op, wit: Option<Txid>) {
        let k = self.ops.entry(op.id).or_default();
        k.revealed.extend(op.revealed());
        k.seals.extend(op.outs.iter().filter(|(_, o)| o.seal.is_some()).map(|(k, _)| *k));
        k.wit.extend(wit);
    }

    /// Updates the model with an authentic consignment. `ord` answers as the wallet's resolver.
    pub fn take<const T: bool>(
        &mut self,
        truth: &Truth,
        c: &Consignment<T>,
        secrets: &BTreeMap<XChain<SecretSeal>, XChain<GraphSeal>>,
        ord: impl Fn(Txid) -> Option<WitnessOrd>,
    ) {
        let g = Op::of_genesis(&c.genesis);
        self.contracts.insert(g.contract);
        self.add_op(&g, None);
        let mut again = BTreeSet::new();
        for wb in c.bundles.iter() {
            let Some(txid) = txid_of(wb.witness_id()) else { continue };
            again.extend(wb.anchored_bundles.bundles().map(|b| b.bundle_id()).filter(|b| self.bundles.contains_key(b)));
            if is_full(&wb.pub_witness) {
                self.full.insert(txid);
            }
            for b in wb.anchored_bundles.bundles() {
                let id = b.bundle_id();
                self.bundles.entry(id).or_default().insert(txid);
                if let Some(o) = ord(txid) {
                    self.ords.insert(txid, o);
                }
                for t in b.known_transitions.values() {
                    let op = Op::of_transition(t);
                    self.add_op(&op, Some(txid));
                    // Seals the wallet owns and which the sender listed as terminals get revealed
                    if let Some(secret) = c.terminals.get(&id) {
                        if secrets.contains_key(secret) {
                            for (k, o) in &op.outs {
                                if o.secret == *secret {
                                    let kop = self.ops.get_mut(&op.id).unwrap();
                                    kop.seals.insert(*k);
                                    if o.st.is_some() {
                                        kop.revealed.insert(*k);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        self.merge(truth, again, ord);
    }

    /// Whatever is known of a bundle holds for each of the witnesses it is anchored to.
    fn merge(&mut self, truth: &Truth, bundles: BTreeSet<BundleId>, ord: impl Fn(Txid) -> Option<WitnessOrd>) {
        for b in bundles {
            let wit = self.bundles[&b].clone();
            for w in &wit {
                if let Some(o) = ord(*w) {
                    self.ords.insert(*w, o);
                }
            }
            for (id, k) in self.ops.iter_mut() {
                if truth.op_bundle.get(id) == Some(&b) {
                    k.wit.extend(wit.iter().copied());
                }
            }
        }
    }

    pub fn take_fascia(&mut self, truth: &Truth, f: &Fascia, ord: impl Fn(Txid) -> Option<WitnessOrd>) {
        let Some(txid) = txid_of(f.witness_id()) else { return };
        if is_full(&f.witness) {
            self.full.insert(txid);
        }
        let mut again = BTreeSet::new();
        for (_, b) in f.clone().into_bundles() {
            if self.bundles.contains_key(&b.bundle_id()) {
                again.insert(b.bundle_id());
            }
            self.bundles.entry(b.bundle_id()).or_default().insert(txid);
            if let Some(o) = ord(txid) {
                self.ords.insert(txid, o);
            }
            for t in b.known_transitions.values() {
                self.add_op(&Op::of_transition(t), Some(txid));
            }
        }
        self.merge(truth, again, ord);
    }

    pub fn valid(&self, w: Txid) -> bool { self.ords.get(&w).map(|o| o.is_valid()).unwrap_or(false) }

    /// Owned state of the contract: every assignment with the witnesses under which it is valid.
    pub fn owned(&self, truth: &Truth, contract: ContractId) -> BTreeMap<OwnedKey, BTreeSet<Option<Txid>>> {
        let mut r: BTreeMap<OwnedKey, BTreeSet<Option<Txid>>> = BTreeMap::new();
        for (id, k) in &self.ops {
            let Some(op) = truth.ops.get(id) else { continue };
            if op.contract != contract {
                continue;
            }
            for (ty, no) in &k.revealed {
                let o = &op.outs[&(*ty, *no)];
                let (Some(seal), Some(st)) = (&o.seal, &o.st) else { continue };
                let opout = Opout::new(*id, *ty, *no);
                if op.ty.is_none() {
                    if let Some(s) = out_seal(seal, None) {
                        r.entry((opout, s, st.clone())).or_default().insert(None);
                    }
                } else {
                    for w in k.wit.iter().filter(|w| self.valid(**w)) {
                        if let Some(s) = out_seal(seal, Some(*w)) {
                            r.entry((opout, s, st.clone())).or_default().insert(Some(*w));
                        }
                    }
                }
            }
        }
        r
    }

    /// Global state in force, in consensus order, oldest first.
    pub fn globals(&self, truth: &Truth, contract: ContractId, ty: GlobalStateType, limit: usize) -> Vec<Vec<u8>> {
        let mut v: Vec<(GlobalOrd, &Vec<u8>)> = vec![];
        for (id, k) in &self.ops {
            let Some(op) = truth.ops.get(id) else { continue };
            let (Some(list), true) = (op.globals.get(&ty), op.contract == contract) else { continue };
            let ord = match op.ty {
                None => None,
                // One operation anchored by several valid witnesses counts once, at its earliest position
                Some(t) => {
                    let Some(o) = k.wit.iter().filter(|w| self.valid(**w)).map(|w| self.ords[w]).min() else {
                        continue;
                    };
                    Some((t, o))
                }
            };
            for (idx, val) in list.iter().enumerate() {
                let g = match ord {
                    None => GlobalOrd::genesis(idx as u16),
                    Some((t, o)) => GlobalOrd::transition(*id, idx as u16, t, op.nonce, o),
                };
                v.push((g, val));
            }
        }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let skip = v.len().saturating_sub(limit);
        v.into_iter().skip(skip).map(|(_, d)| d.clone()).collect()
    }

    /// Whether the wallet can assemble a consignment for the operation: every ancestor is known
    /// and has at least one witness known to be valid.
    pub fn consignable(&self, truth: &Truth, op: OpId) -> bool {
        let mut q = vec![op];
        let mut seen = BTreeSet::new();
        while let Some(id) = q.pop() {
            if !seen.insert(id) {
                continue;
            }
            let (Some(o), Some(k)) = (truth.ops.get(&id), self.ops.get(&id)) else { return false };
            if o.ty.is_none() {
                continue;
            }
            let Some(b) = truth.op_bundle.get(&id) else { return false };
            let Some(w) = self.bundles.get(b) else { return false };
            if !w.iter().any(|w| self.valid(*w)) || k.wit.is_empty() {
                return false;
            }
            q.extend(o.inputs.iter().map(|i| i.op));
            // A bundle is consigned as a whole
            q.extend(self.ops.keys().filter(|i| truth.op_bundle.get(*i) == Some(b)).copied());
        }
        true
    }

    /// All ancestors (including the operation itself, excluding genesis).
    pub fn ancestors(truth: &Truth, from: impl IntoIterator<Item = OpId>) -> BTreeSet<OpId> {
        let mut q: Vec<OpId> = from.into_iter().collect();
        let mut seen = BTreeSet::new();
        while let Some(id) = q.pop() {
            let Some(o) = truth.ops.get(&id) else { continue };
            if o.ty.is_none() || !seen.insert(id) {
                continue;
            }
            q.extend(o.inputs.iter().map(|i| i.op));
        }
        seen
    }
}
