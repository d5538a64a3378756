//! Comparison of what a stock reports with the reference model, and observable dumps of a stock.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use bp::{Outpoint, Txid};
use commit_verify::Conceal;
use commit_verify::mpc::MerkleBlock;
use rgbstd::containers::{AnchorSet, Consignment, ContentId, ContentRef, ContentSigs, Kit, PubWitness, Supplement};
use rgbstd::OutputAssignment;
use rgbstd::interface::{FilterExclude, FilterIncludeAll};
use rgbstd::persistence::{ContractStateRead, IndexReadProvider, StashReadProvider, Stock};
use rgbstd::vm::{ContractStateAccess, WitnessOrd};
use rgbstd::{ContractId, GlobalStateType, OpId, Operation, Opout, SecretSeal, XChain, XOutpoint, XOutputSeal};

use crate::rng::{Digest, Rng};
use crate::schema;
use crate::truth::{out_seal, ser, txid_of, xop, xoutpoint, Op, OwnedKey, St};
use crate::world::{guard, st_of, What, World};

pub type Reported = Vec<(OwnedKey, Option<Txid>)>;

fn push<'a, S: rgbstd::KnownState + 'a>(
    v: &mut Reported,
    it: impl Iterator<Item = &'a OutputAssignment<S>>,
    f: impl Fn(&S) -> St,
) {
    for a in it {
        v.push(((a.opout, a.seal, f(&a.state)), a.witness.and_then(txid_of)));
    }
}

pub fn reported(stock: &Stock, c: ContractId) -> Result<Reported, String> {
    let s = stock.contract_state(c).map_err(|e| e.to_string())?;
    let mut v = vec![];
    push(&mut v, s.rights_all(), |_| St::void());
    push(&mut v, s.fungible_all(), St::value);
    push(&mut v, s.data_all(), St::data);
    push(&mut v, s.attach_all(), St::attach);
    Ok(v)
}

pub fn reported_globals(stock: &Stock, c: ContractId, ty: GlobalStateType) -> Result<Vec<Vec<u8>>, String> {
    use std::borrow::Borrow;
    let s = stock.contract_state(c).map_err(|e| e.to_string())?;
    let g = s.global(ty).map_err(|e| e.to_string())?;
    let r = g
        .map(|d| {
            let d: &rgbstd::DataState = d.borrow();
            d.as_slice().to_vec()
        })
        .collect();
    Ok(r)
}

pub fn global_types(rich: bool) -> Vec<(GlobalStateType, usize)> {
    if rich {
        vec![
            (schema::GS_SPEC, 1),
            (schema::GS_NOTE, schema::NOTE_LIMIT as usize),
            (schema::GS_LOG, schema::LOG_LIMIT as usize),
        ]
    } else {
        vec![(schema::GS_SPEC, 1)]
    }
}

pub fn hash(b: &[u8]) -> String { format!("{:016x}", Digest::of(b)) }

/// Everything a stock reports, as comparable lines.
pub fn dump(stock: &Stock) -> Result<BTreeSet<String>, String> {
    guard(|| dump_inner(stock)).map_err(|p| format!("reading the stock aborts: {p}"))?
}

fn dump_inner(stock: &Stock) -> Result<BTreeSet<String>, String> {
    fn e(e: impl std::fmt::Display) -> String { e.to_string() }
    let mut r = BTreeSet::new();
    let stash = stock.as_stash_provider();
    let index = stock.as_index_provider();
    r.extend(content(stock)?);
    r.insert(format!("types {}", hash(&ser(stash.type_system().map_err(e)?))));
    let mut contracts = BTreeSet::new();
    for i in stock.contracts().map_err(e)? {
        contracts.insert(i.id);
    }
    let mut wits = vec![];
    for id in stash.witness_ids().map_err(e)? {
        wits.push(id);
        let w = stash.witness(id).map_err(e)?;
        // The entropy of merkle trees is of use to nobody and is merged in the dependency by order of arrival
        let anchors = match &w.anchors {
            AnchorSet::Tapret(t) => vec![(block(&t.mpc_proof), ser(&t.dbc_proof))],
            AnchorSet::Opret(o) => vec![(block(&o.mpc_proof), ser(&o.dbc_proof))],
            AnchorSet::Double { tapret: t, opret: o } => {
                vec![(block(&t.mpc_proof), ser(&t.dbc_proof)), (block(&o.mpc_proof), ser(&o.dbc_proof))]
            }
        };
        let anchors: Vec<u8> = anchors.into_iter().flat_map(|(a, b)| [a, b].concat()).collect();
        r.insert(format!("witness {id} {}", hash(&[ser(&w.public), anchors].concat())));
    }
    for c in contracts {
        r.insert(format!("contract {c} {}", hash(&ser(stash.genesis(c).map_err(e)?))));
        let st = stock.contract_state(c).map_err(e)?;
        for id in &wits {
            if let Some(o) = st.witness_ord(*id) {
                r.insert(format!("ord {id} {o:?}"));
            }
        }
        let rich = stash.genesis(c).map_err(e)?.asset_tags.len() > 1;
        let mut n: BTreeMap<String, u32> = BTreeMap::new();
        for ((o, seal, st), _) in reported(stock, c)? {
            *n.entry(format!("own {c} {o} {seal} {} {}", st.kind, hash(&st.bytes))).or_default() += 1;
        }
        for (k, v) in n {
            r.insert(format!("{k} x{v}"));
        }
        for (ty, _) in global_types(rich) {
            for (n, v) in reported_globals(stock, c, ty)?.into_iter().enumerate() {
                r.insert(format!("glob {c} {ty} {n} {}", hash(&v)));
            }
        }
        r.insert(format!("public {c} {:?}", index.public_opouts(c).map_err(e)?));
    }
    for id in stash.bundle_ids().map_err(e)? {
        let b = stash.bundle(id).map_err(e)?;
        r.insert(format!("bundle {id} {}", hash(&ser(b))));
        for op in b.known_transitions.keys() {
            let at = index.bundle_id_for_op(*op).map(|b| b.to_string()).unwrap_or_else(|_| s!("nowhere"));
            r.insert(format!("op {op} in {at}"));
        }
        match index.bundle_info(id) {
            Ok((w, c)) => {
                let w: BTreeSet<_> = w.map(|x| x.to_string()).collect();
                r.insert(format!("anchors {id} {c} {w:?}"));
            }
            Err(_) => {
                r.insert(format!("anchors {id} none"));
            }
        }
    }
    for s in stash.secret_seals().map_err(e)? {
        r.insert(format!("secret {}", hash(&ser(&s))));
    }
    for (id, c) in stash.taprets().map_err(e)? {
        r.insert(format!("tapret {id} {c}"));
    }
    Ok(r)
}

fn block(b: &MerkleBlock) -> Vec<u8> {
    let mut v = ser(b);
    v.truncate(v.len() - if b.entropy().is_some() { 9 } else { 1 });
    v
}

/// Interfaces, schemata and implementations with what is said about them.
fn content(stock: &Stock) -> Result<BTreeSet<String>, String> {
    fn e(e: impl std::fmt::Display) -> String { e.to_string() }
    let mut r = BTreeSet::new();
    let stash = stock.as_stash_provider();
    for i in stash.ifaces().map_err(e)? {
        r.insert(format!("iface {} {}", i.name, hash(&ser(i))));
    }
    for s in stash.schemata().map_err(e)? {
        r.insert(format!("schema {} {}", s.schema.name, hash(&ser(&s.schema))));
        for (n, i) in s.iimpls.iter() {
            r.insert(format!("impl {} for {} {}", n, s.schema.name, hash(&ser(i))));
        }
    }
    let mut content = vec![];
    for i in stash.ifaces().map_err(e)? {
        content.push((ContentRef::Iface(i.iface_id()), ContentId::Iface(i.iface_id())));
    }
    for s in stash.schemata().map_err(e)? {
        content.push((ContentRef::Schema(s.schema.schema_id()), ContentId::Schema(s.schema.schema_id())));
        for i in s.iimpls.values() {
            content.push((ContentRef::IfaceImpl(i.impl_id()), ContentId::IfaceImpl(i.impl_id())));
        }
    }
    for g in stash.geneses().map_err(e)? {
        let id = g.contract_id();
        content.push((ContentRef::Genesis(id), ContentId::Genesis(id)));
    }
    for (re, id) in content {
        for s in stash.supplements(re).map_err(e)? {
            r.insert(suppl_line(&s));
        }
        if let Some(s) = stash.sigs_for(&id).map_err(e)? {
            r.extend(sig_lines(&id, s));
        }
    }
    Ok(r)
}

fn suppl_line(s: &Supplement) -> String { format!("supplement {}", hash(&ser(s))) }

fn sig_lines(id: &ContentId, s: &ContentSigs) -> Vec<String> {
    s.iter().map(|(who, blob)| format!("signature {who} {}", hash(&[ser(id), ser(blob)].concat()))).collect()
}

/// What a stock must know after taking a kit.
pub fn kit_lines(kit: &Kit) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for i in kit.ifaces.iter() {
        r.insert(format!("iface {} {}", i.name, hash(&ser(i))));
    }
    for s in kit.schemata.iter() {
        r.insert(format!("schema {} {}", s.name, hash(&ser(s))));
    }
    for s in kit.supplements.iter() {
        r.insert(suppl_line(s));
    }
    for (id, s) in kit.signatures.iter() {
        r.extend(sig_lines(id, s));
    }
    r
}

/// What a stock must know after taking a consignment, besides the operations.
pub fn consignment_lines<const T: bool>(c: &Consignment<T>) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    r.insert(format!("schema {} {}", c.schema.name, hash(&ser(&c.schema))));
    for (i, m) in c.ifaces.iter() {
        r.insert(format!("iface {} {}", i.name, hash(&ser(i))));
        r.insert(format!("impl {} for {} {}", i.name, c.schema.name, hash(&ser(m))));
    }
    for s in c.supplements.iter() {
        r.insert(suppl_line(s));
    }
    for (id, s) in c.signatures.iter() {
        r.extend(sig_lines(id, s));
    }
    r
}

pub fn diff(a: &BTreeSet<String>, b: &BTreeSet<String>) -> Option<String> {
    let lost: Vec<_> = a.difference(b).collect();
    let new: Vec<_> = b.difference(a).collect();
    if lost.is_empty() && new.is_empty() {
        return None;
    }
    let kinds = |l: &[&String]| {
        let mut m: BTreeMap<&str, usize> = BTreeMap::new();
        for x in l {
            *m.entry(x.split(' ').next().unwrap()).or_default() += 1;
        }
        m.iter().map(|(k, v)| format!("{v} {k}")).collect::<Vec<_>>().join(", ")
    };
    Some(format!("gone: [{}], appeared: [{}]", kinds(&lost), kinds(&new)))
}

impl World {
    /// All a stock tells, including the answers to questions which can't be derived from its own data.
    pub fn probe(&self, stock: &Stock) -> Result<BTreeSet<String>, String> {
        let mut r = dump(stock)?;
        let secrets: BTreeSet<XChain<SecretSeal>> = self
            .pays
            .iter()
            .filter_map(|p| p.blind.map(|b| b.conceal()))
            .chain(self.wallets.iter().flat_map(|w| w.secrets.keys().copied()))
            .collect();
        let more = guard(|| -> Result<Vec<String>, String> {
            let index = stock.as_index_provider();
            let mut v = vec![];
            for s in secrets {
                let o = index.opouts_by_terminals([s]).map_err(|e| e.to_string())?;
                if !o.is_empty() {
                    v.push(format!("terminals {s} {o:?}"));
                }
            }
            for c in stock.contracts().map_err(|e| e.to_string())?.map(|i| i.id).collect::<Vec<_>>() {
                for o in &self.utxo_order {
                    if let Ok(x) = index.opouts_by_outputs(c, [xop(*o)]) {
                        v.push(format!("outputs {c} {o} {x:?}"));
                    }
                }
            }
            let lib = self.kits.lib.id();
            v.push(format!("lib {}", stock.as_stash_provider().lib(lib).is_ok()));
            Ok(v)
        });
        match more {
            Ok(Ok(v)) => r.extend(v),
            Ok(Err(e)) => return Err(e),
            Err(p) => return Err(format!("asking the stock aborts: {p}")),
        }
        Ok(r)
    }

    /// C02: raw state against the model.
    pub fn check_state(&mut self, w: usize, props: &[&'static str]) {
        let r = guard(|| self.check_state_inner(w));
        match r {
            Ok(Ok(n)) => {
                *self.stats.entry("state items compared").or_default() += n;
            }
            Ok(Err(m)) => self.fail(props, format!("wallet {w}: {m}")),
            Err(p) => {
                let mut all = props.to_vec();
                all.extend(["C17", "C19"]);
                self.fail(&all, format!("wallet {w}: reading the contract state aborts: {p}"))
            }
        }
    }

    fn check_state_inner(&self, w: usize) -> Result<u64, String> {
        let wal = &self.wallets[w];
        let mut n = 0;
        let got: BTreeSet<ContractId> =
            wal.stock.contracts().map_err(|e| e.to_string())?.map(|i| i.id).collect();
        if got != wal.know.contracts {
            return Err(format!("{} contracts are listed, {} are known", got.len(), wal.know.contracts.len()));
        }
        for c in &wal.know.contracts {
            let model = wal.know.owned(&self.truth, *c);
            let list = reported(&wal.stock, *c)?;
            let mut seen = BTreeSet::new();
            for (k, wit) in &list {
                n += 1;
                let Some(set) = model.get(k) else {
                    let why = if model.keys().any(|m| m.0 == k.0) { "with other content" } else { "which must not be there" };
                    return Err(format!("state {} of kind {} is reported {why}", k.0.ty, k.2.kind));
                };
                if !seen.insert(k.clone()) {
                    return Err(format!("state of type {} is reported twice", k.0.ty));
                }
                if !set.contains(wit) {
                    return Err(format!("state of type {} is reported under a wrong witness", k.0.ty));
                }
            }
            if let Some((k, _)) = model.iter().find(|(k, _)| !seen.contains(*k)) {
                return Err(format!("state of type {} and kind {} is not reported", k.0.ty, k.2.kind));
            }
            let st = wal.stock.contract_state(*c).map_err(|e| e.to_string())?;
            // Point queries
            let mut points: BTreeMap<(Outpoint, rgbstd::AssignmentType), Vec<St>> = BTreeMap::new();
            for (o, s, st) in model.keys() {
                points.entry((xoutpoint(s).unwrap(), o.ty)).or_default().push(st.clone());
            }
            for ((o, ty), list) in points {
                let x: XOutpoint = xop(o);
                let mut got: Vec<(u8, u64, Vec<u8>)> = vec![];
                for _ in 0..st.rights(x, ty) {
                    got.push((0, 0, vec![]));
                }
                for v in st.fungible(x, ty) {
                    got.push((1, v.into(), vec![]));
                }
                for d in st.data(x, ty) {
                    use std::borrow::Borrow;
                    let d: &rgbstd::DataState = d.borrow();
                    got.push(St::data(&rgbstd::RevealedData::with_salt(d.clone(), 0)).essence());
                }
                for d in st.attach(x, ty) {
                    use std::borrow::Borrow;
                    let d: &rgbstd::AttachState = d.borrow();
                    got.push(St::attach(&rgbstd::RevealedAttach { file: d.clone(), salt: 0 }).essence());
                }
                let mut want: Vec<_> = list.iter().map(|s| s.essence()).collect();
                got.sort();
                want.sort();
                if got != want {
                    return Err(format!("output has {} items of type {ty} instead of {}", got.len(), want.len()));
                }
            }
            for (ty, limit) in global_types(self.truth.rich[c]) {
                let want = wal.know.globals(&self.truth, *c, ty, limit);
                let got = reported_globals(&wal.stock, *c, ty)?;
                n += got.len() as u64;
                if got != want {
                    let (mut a, mut b) = (got.clone(), want.clone());
                    a.sort();
                    b.sort();
                    let how = if a == b { "in a wrong order".to_string() } else { format!("{} instead of {}", got.len(), want.len()) };
                    return Err(format!("global values of type {ty} are reported {how}"));
                }
            }
            for (txid, ord) in &wal.know.ords {
                // The contract tells only about witnesses under which it has any state to report
                let here = wal.know.ops.iter().any(|(id, k)| {
                    k.wit.contains(txid)
                        && self.truth.ops.get(id).is_some_and(|o| {
                            o.contract == *c && (!k.revealed.is_empty() || o.globals.values().any(|g| !g.is_empty()))
                        })
                });
                if !here {
                    continue;
                }
                let got = st.witness_ord(XChain::Bitcoin(*txid));
                let want = Some(*ord).filter(|o| *o != WitnessOrd::Archived);
                if got.filter(|o| *o != WitnessOrd::Archived) != want {
                    return Err(format!("witness has status {got:?} instead of {want:?}"));
                }
            }
        }
        Ok(n)
    }

    /// C06: everything known must be in the stash and retrievable.
    pub fn check_known(&mut self, w: usize, props: &[&'static str]) {
        let r = guard(|| self.check_known_inner(w));
        match r {
            Ok(Ok(n)) => {
                *self.stats.entry("known items looked up").or_default() += n;
            }
            Ok(Err(m)) => self.fail(props, format!("wallet {w}: {m}")),
            Err(p) => self.fail(props, format!("wallet {w}: reading the stash aborts: {p}")),
        }
    }

    fn check_known_inner(&self, w: usize) -> Result<u64, String> {
        let wal = &self.wallets[w];
        let stash = wal.stock.as_stash_provider();
        let index = wal.stock.as_index_provider();
        let mut n = 0;
        for (id, k) in &wal.know.ops {
            n += 1;
            let Some(op) = self.truth.ops.get(id) else { continue };
            let have = if op.ty.is_none() {
                Op::of_genesis(stash.genesis(op.contract).map_err(|e| format!("genesis is lost: {e}"))?)
            } else {
                let b = self.truth.op_bundle[id];
                let at = index.bundle_id_for_op(*id).map_err(|_| s!("operation is lost from the index"))?;
                if at != b {
                    return Err(s!("operation is attributed to another bundle"));
                }
                let bundle = stash.bundle(b).map_err(|_| s!("bundle is lost"))?;
                let Some(t) = bundle.known_transitions.get(id) else {
                    return Err(s!("known transition is lost from its bundle"));
                };
                if t.id() != *id {
                    return Err(s!("transition changed its identity"));
                }
                Op::of_transition(t)
            };
            let rev = have.revealed();
            if let Some(lost) = k.revealed.difference(&rev).next() {
                return Err(format!("revealed state of type {} is concealed again", lost.0));
            }
            for key in &rev {
                let (a, b) = (&have.outs[key], &op.outs[key]);
                if a.secret != b.secret || (b.st.is_some() && a.st != b.st) {
                    return Err(s!("revealed state has changed"));
                }
            }
        }
        if !wal.know.extras.is_empty() {
            let have = content(&wal.stock)?;
            if let Some(l) = wal.know.extras.difference(&have).next() {
                return Err(format!("{} is lost", l.split(' ').next().unwrap()));
            }
            n += wal.know.extras.len() as u64;
        }
        for (b, wits) in &wal.know.bundles {
            let (it, c) = index.bundle_info(*b).map_err(|_| s!("bundle is lost from the index"))?;
            let got: BTreeSet<Txid> = it.filter_map(txid_of).collect();
            if let Some(_lost) = wits.difference(&got).next() {
                return Err(s!("witness of a known bundle is lost"));
            }
            if c != self.truth.bundles[b].contract {
                return Err(s!("bundle is attributed to another contract"));
            }
            for t in wits {
                n += 1;
                let sw = stash.witness(XChain::Bitcoin(*t)).map_err(|_| s!("seal witness is lost"))?;
                if wal.know.full.contains(t) {
                    if let XChain::Bitcoin(PubWitness::Txid(_)) = &sw.public {
                        return Err(s!("known witness transaction is forgotten"));
                    }
                }
                if !sw.anchors.known_bundle_ids().any(|id| id == *b) {
                    return Err(s!("known bundle is not named by the proofs of its witness"));
                }
                let method = self.truth.bundles[b].method;
                if !crate::world::anchors_bundle(&sw.anchors, method, *b) {
                    return Err(s!("proof of a known bundle is lost"));
                }
            }
        }
        for s in &wal.know.secrets {
            n += 1;
            match stash.seal_secret(*s) {
                Ok(Some(_)) => {}
                _ => return Err(s!("secret of a blinded seal is lost")),
            }
        }
        for rich in &wal.know.kits {
            n += 1;
            let (sch, impls): (_, Vec<&rgbstd::interface::IfaceImpl>) = if *rich {
                (&self.kits.rich, vec![&self.kits.rich_impl, &self.kits.rich_base_impl])
            } else {
                (&self.kits.plain, vec![&self.kits.plain_impl])
            };
            let got = stash.schema(sch.schema_id()).map_err(|_| s!("known schema is lost"))?;
            for i in impls {
                if !got.iimpls.values().any(|x| ser(x) == ser(i)) {
                    return Err(s!("known interface implementation is lost"));
                }
                if stash.iface(i.iface_id).is_err() {
                    return Err(s!("known interface is lost"));
                }
            }
        }
        Ok(n)
    }

    /// All outpoints the wallet has seen any seal on, with the assignments (valid or not).
    pub fn seals_of(&self, w: usize) -> BTreeMap<Outpoint, BTreeSet<(ContractId, Opout)>> {
        let mut r: BTreeMap<Outpoint, BTreeSet<(ContractId, Opout)>> = BTreeMap::new();
        for (id, k) in &self.wallets[w].know.ops {
            let Some(op) = self.truth.ops.get(id) else { continue };
            for key in k.seals.union(&k.revealed) {
                let Some(seal) = &op.outs[key].seal else { continue };
                let wits: Vec<Option<Txid>> =
                    if op.ty.is_none() { vec![None] } else { k.wit.iter().map(|t| Some(*t)).collect() };
                for t in wits {
                    if let Some(s) = out_seal(seal, t) {
                        r.entry(xoutpoint(&s).unwrap()).or_default().insert((op.contract, Opout::new(*id, key.0, key.1)));
                    }
                }
            }
        }
        r
    }

    /// C15: lookups by outpoints.
    pub fn check_lookup(&mut self, rng: &mut Rng, w: usize) {
        let seals = self.seals_of(w);
        let mut pool: Vec<Outpoint> = seals.keys().copied().collect();
        for o in self.utxo_order.iter().take(4) {
            if !pool.contains(o) {
                pool.push(*o);
            }
        }
        let mut sets: Vec<Vec<Outpoint>> = vec![];
        for _ in 0..3 {
            let n = 1 + rng.below(4) as usize;
            sets.push((0..n).filter_map(|_| rng.pick(&pool).copied()).collect());
        }
        sets.push(pool.clone());
        for set in sets {
            let stock = &self.wallets[w].stock;
            let r = guard(|| {
                stock
                    .contracts_assigning(set.iter().map(|o| xop(*o)))
                    .map(|i| i.collect::<Vec<ContractId>>())
                    .map_err(|e| e.to_string())
            });
            self.count("outpoint lookups");
            let want: BTreeSet<ContractId> =
                set.iter().filter_map(|o| seals.get(o)).flatten().map(|x| x.0).collect();
            match r {
                Ok(Ok(list)) => {
                    let got: BTreeSet<ContractId> = list.iter().copied().collect();
                    if got != want {
                        self.fail(
                            &["C15"],
                            format!("outputs belong to {} contracts but {} are named", want.len(), got.len()),
                        );
                    }
                }
                Ok(Err(e)) => self.fail(&["C15"], format!("contract lookup fails: {e}")),
                Err(p) => self.fail(&["C15", "C17"], format!("contract lookup aborts: {p}")),
            }
            for c in self.wallets[w].know.contracts.clone() {
                let os: BTreeSet<Outpoint> = set.iter().copied().collect();
                let want: BTreeSet<OwnedKey> = self.wallets[w]
                    .know
                    .owned(&self.truth, c)
                    .into_keys()
                    .filter(|(_, s, _)| os.contains(&xoutpoint(s).unwrap()))
                    .collect();
                let stock = &self.wallets[w].stock;
                let r = guard(|| {
                    stock.contract_assignments_for(c, set.iter().map(|o| xop(*o))).map_err(|e| e.to_string())
                });
                match r {
                    Ok(Ok(m)) => {
                        let got: BTreeSet<OwnedKey> = m
                            .into_iter()
                            .flat_map(|(s, l)| l.into_iter().map(move |(o, st)| (o, s, st_of(&st))))
                            .collect();
                        if got != want {
                            self.fail(
                                &["C15"],
                                format!("outputs hold {} assignments but {} are listed", want.len(), got.len()),
                            );
                        }
                    }
                    Ok(Err(e)) => self.fail(&["C15"], format!("assignment lookup fails: {e}")),
                    Err(p) => self.fail(&["C15", "C17"], format!("assignment lookup aborts: {p}")),
                }
                // Opouts assigned to the outputs, whether or not currently valid
                let set: BTreeSet<Outpoint> = set
                    .iter()
                    .copied()
                    .filter(|o| seals.get(o).map(|l| l.iter().any(|x| x.0 == c)).unwrap_or(false))
                    .collect();
                let want: BTreeSet<Opout> = set
                    .iter()
                    .filter_map(|o| seals.get(o))
                    .flatten()
                    .filter(|x| x.0 == c)
                    .map(|x| x.1)
                    .collect();
                let index = self.wallets[w].stock.as_index_provider();
                let r = guard(|| index.opouts_by_outputs(c, set.iter().map(|o| xop(*o))).map_err(|e| e.to_string()));
                match r {
                    Ok(Ok(got)) => {
                        if got != want {
                            self.fail(
                                &["C15"],
                                format!("outputs were given {} assignments but {} are found", want.len(), got.len()),
                            );
                        }
                    }
                    Ok(Err(e)) => self.fail(&["C15"], format!("opout lookup fails: {e}")),
                    Err(p) => self.fail(&["C15", "C17"], format!("opout lookup aborts: {p}")),
                }
            }
        }
    }

    /// C15/C06: export of a transfer for an output of the wallet's choice is complete.
    pub fn check_export(&mut self, rng: &mut Rng, w: usize, props: &[&'static str]) {
        let seals = self.seals_of(w);
        let pool: Vec<Outpoint> = seals.keys().copied().collect();
        let mut pick: BTreeSet<Outpoint> = BTreeSet::new();
        for _ in 0..1 + rng.below(2) {
            if let Some(o) = rng.pick(&pool) {
                pick.insert(*o);
            }
        }
        let contracts: Vec<ContractId> = self.wallets[w].know.contracts.iter().copied().collect();
        let Some(c) = rng.pick(&contracts).copied() else { return };
        pick.retain(|o| seals[o].iter().any(|x| x.0 == c));
        let ops: BTreeSet<OpId> =
            pick.iter().flat_map(|o| seals[o].iter()).filter(|x| x.0 == c).map(|x| x.1.op).collect();
        let need = crate::truth::Know::ancestors(&self.truth, ops.iter().copied());
        let can = ops.iter().all(|o| self.wallets[w].know.consignable(&self.truth, *o));
        let outputs: Vec<XOutputSeal> = pick
            .iter()
            .map(|o| {
                XChain::Bitcoin(rgbstd::OutputSeal::new(World::pick_method(rng), *o))
            })
            .collect();
        let stock = &self.wallets[w].stock;
        let r = guard(|| stock.transfer(c, outputs, None).map_err(|e| e.to_string()));
        self.count("exports checked");
        match r {
            Ok(Ok(t)) => {
                if !can {
                    return;
                }
                let have: BTreeSet<OpId> =
                    t.bundles.iter().flat_map(|wb| wb.known_transitions().map(|t| t.id()).collect::<Vec<_>>()).collect();
                if need.difference(&have).next().is_some() {
                    self.fail(props, "exported transfer lacks operations which assigned state to the output");
                    return;
                }
                // a stranger who sees the same chain finds it valid
                let visible = self.verifiable(&t, w);
                let saved = std::mem::take(&mut self.fault);
                let r = self.call(w, |_, r| t.validate(&r, true).map(|_| ()).map_err(|(s, _)| format!("{s:?}")));
                self.fault = saved;
                match r {
                    Ok(Err(e)) if visible => {
                        self.fail(props, format!("exported transfer is invalid: {}", crate::world::brief(&e)))
                    }
                    Err(p) => self.fail(props, format!("validating an exported transfer aborts: {p}")),
                    _ => {}
                }
            }
            Ok(Err(e)) => {
                if can {
                    self.fail(props, format!("export of a known output is refused: {e}"));
                }
            }
            Err(p) => {
                let mut all = props.to_vec();
                all.push("C17");
                self.fail(&all, format!("export of a known output aborts: {p}"))
            }
        }
    }

    /// C19: interface views.
    pub fn check_views(&mut self, rng: &mut Rng, w: usize) {
        for c in self.wallets[w].know.contracts.clone() {
            let rich = self.truth.rich[&c];
            let model = self.wallets[w].know.owned(&self.truth, c);
            let pool: Vec<Outpoint> = model.keys().map(|k| xoutpoint(&k.1).unwrap()).collect();
            let mut set: BTreeSet<XOutpoint> = BTreeSet::new();
            for _ in 0..rng.below(4) {
                if let Some(o) = rng.pick(&pool) {
                    set.insert(xop(*o));
                }
            }
            let mode = rng.below(11);
            let single = set.iter().next().copied();
            let pass = |o: &Outpoint| match mode {
                0 => true,
                1 => set.contains(&xop(*o)),
                2 => !set.contains(&xop(*o)),
                3 => single.map(|s| s == xop(*o)).unwrap_or(true),
                4 => single.map(|s| s == xop(*o)).unwrap_or(false),
                _ => set.contains(&xop(*o)),
            };
            let nowhere = xop(Outpoint::new(Txid::from([0xAB; 32]), 7));
            let list: Vec<XOutpoint> = set.iter().rev().copied().collect();
            let hashed: HashSet<XOutpoint> = set.iter().copied().collect();
            let map: BTreeMap<XOutpoint, ()> = set.iter().map(|o| (*o, ())).collect();
            let hashmap: HashMap<XOutpoint, ()> = set.iter().map(|o| (*o, ())).collect();
            // an array holds any number of equal members
            let array: [XOutpoint; 3] = {
                let o = list.last().copied().unwrap_or(nowhere);
                [o, list.first().copied().unwrap_or(o), list.get(1).copied().unwrap_or(o)]
            };
            // transactions "of the wallet": a seeded half of them
            let salt = rng.next();
            let ours = |t: &Txid| {
                use amplify::ByteArray;
                Digest::of(&[&t.to_byte_array()[..], &salt.to_le_bytes()].concat()) % 2 == 0
            };
            let stock = &self.wallets[w].stock;
            let iface_name = if rich && rng.chance(2, 3) { "SimAsset" } else { "SimBase" };
            let know = &self.wallets[w].know;
            let truth = &self.truth;
            let set2 = &set;
            let r = guard(|| -> Result<u64, String> {
                let iface = stock.contract_iface(c, iface_name).map_err(|e| e.to_string())?;
                let mut n = 0u64;
                let names: Vec<(&'static str, rgbstd::AssignmentType)> = if iface_name == "SimAsset" {
                    vec![
                        ("asset", schema::OS_ASSET),
                        ("bonus", schema::OS_BONUS),
                        ("token", schema::OS_TOKEN),
                        ("memo", schema::OS_MEMO),
                        ("right", schema::OS_RIGHT),
                        ("file", schema::OS_FILE),
                    ]
                } else {
                    vec![("asset", schema::OS_ASSET)]
                };
                for (name, ty) in &names {
                    macro_rules! view {
                        ($m:ident, $f:expr) => {{
                            let f = $f;
                            let v: Vec<(Opout, XOutputSeal, (u8, u64, Vec<u8>), Option<Txid>)> = match mode {
                                0 => iface.$m(*name, FilterIncludeAll).map_err(|e| e.to_string())?.map(f).collect(),
                                1 => iface.$m(*name, set2.clone()).map_err(|e| e.to_string())?.map(f).collect(),
                                2 => iface
                                    .$m(*name, FilterExclude(set2.clone()))
                                    .map_err(|e| e.to_string())?
                                    .map(f)
                                    .collect(),
                                3 => iface.$m(*name, single).map_err(|e| e.to_string())?.map(f).collect(),
                                4 => iface
                                    .$m(*name, single.map(|o| [o]).unwrap_or([nowhere]))
                                    .map_err(|e| e.to_string())?
                                    .map(f)
                                    .collect(),
                                5 => iface.$m(*name, list.clone()).map_err(|e| e.to_string())?.map(f).collect(),
                                6 => iface.$m(*name, &list[..]).map_err(|e| e.to_string())?.map(f).collect(),
                                7 => iface.$m(*name, hashed.clone()).map_err(|e| e.to_string())?.map(f).collect(),
                                8 => iface.$m(*name, map.clone()).map_err(|e| e.to_string())?.map(f).collect(),
                                9 => iface.$m(*name, hashmap.clone()).map_err(|e| e.to_string())?.map(f).collect(),
                                _ => iface.$m(*name, Some(array)).map_err(|e| e.to_string())?.map(f).collect(),
                            };
                            v
                        }};
                    }
                    let wit = |w: Option<rgbstd::XWitnessId>| w.and_then(txid_of);
                    let got: Vec<(Opout, XOutputSeal, (u8, u64, Vec<u8>), Option<Txid>)> = match *name {
                        "asset" | "bonus" => view!(fungible, |a: rgbstd::interface::FungibleAllocation| {
                            (a.opout, a.seal, (1u8, a.state.value(), vec![]), wit(a.witness))
                        }),
                        "token" | "memo" => view!(data, |a: rgbstd::interface::DataAllocation| {
                            let e = St::data(&rgbstd::RevealedData::with_salt(a.state.clone(), 0)).essence();
                            (a.opout, a.seal, e, wit(a.witness))
                        }),
                        "right" => view!(rights, |a: rgbstd::interface::RightsAllocation| {
                            (a.opout, a.seal, (0u8, 0, vec![]), wit(a.witness))
                        }),
                        _ => view!(attachments, |a: rgbstd::interface::AttachAllocation| {
                            let e = St::attach(&rgbstd::RevealedAttach { file: a.state.clone(), salt: 0 }).essence();
                            (a.opout, a.seal, e, wit(a.witness))
                        }),
                    };
                    n += got.len() as u64 + 1;
                    let mut g: Vec<_> = got.iter().map(|x| (x.0, x.1, x.2.clone())).collect();
                    let mut m: Vec<_> = model
                        .keys()
                        .filter(|k| k.0.ty == *ty && pass(&xoutpoint(&k.1).unwrap()))
                        .map(|k| (k.0, k.1, k.2.essence()))
                        .collect();
                    g.sort();
                    m.sort();
                    if g != m {
                        return Err(format!("view of '{name}' has {} items instead of {}", g.len(), m.len()));
                    }
                    let foreign = got.iter().any(|x| {
                        let all: BTreeSet<_> =
                            model.iter().filter(|(k, _)| k.0 == x.0 && k.1 == x.1).flat_map(|(_, w)| w.clone()).collect();
                        !all.contains(&x.3)
                    });
                    if foreign {
                        return Err(format!("view of '{name}' names a wrong witness"));
                    }
                }
                let mut g: Vec<_> = iface
                    .allocations(&Pass(&pass))
                    .map(|a| (a.opout, a.seal, essence(a.state)))
                    .collect();
                let mut m: Vec<_> = model
                    .keys()
                    .filter(|k| pass(&xoutpoint(&k.1).unwrap()))
                    .map(|k| (k.0, k.1, k.2.essence()))
                    .collect();
                g.sort();
                m.sort();
                if g != m {
                    return Err(format!("there are {} allocations instead of {}", g.len(), m.len()));
                }
                if let Some(o) = single {
                    let k = iface.outpoint_allocations(o).count();
                    let m = model.keys().filter(|k| xop(xoutpoint(&k.1).unwrap()) == o).count();
                    if k != m {
                        return Err(format!("output has {k} allocations instead of {m}"));
                    }
                }
                let globs: Vec<(&'static str, GlobalStateType, usize)> = if iface_name == "SimAsset" {
                    vec![
                        ("spec", schema::GS_SPEC, 1),
                        ("note", schema::GS_NOTE, schema::NOTE_LIMIT as usize),
                        ("log", schema::GS_LOG, schema::LOG_LIMIT as usize),
                    ]
                } else {
                    vec![("spec", schema::GS_SPEC, 1)]
                };
                for (name, ty, limit) in globs {
                    let got: Vec<strict_types::StrictVal> = iface.global(name).map_err(|e| e.to_string())?.collect();
                    let want = know.globals(truth, c, ty, limit);
                    n += 1;
                    if got.len() != want.len() {
                        return Err(format!("'{name}' has {} values instead of {}", got.len(), want.len()));
                    }
                    if ty != schema::GS_SPEC {
                        for (g, w) in got.iter().zip(&want) {
                            let text = g.unwrap_string();
                            if w.len() < 2 || text.as_bytes() != &w[2..] && text.as_bytes() != &w[1..] {
                                return Err(format!("'{name}' has a wrong value"));
                            }
                        }
                    }
                }
                if iface.global("nonexistent").is_ok() {
                    return Err(s!("unknown global name gives values"));
                }
                // History
                let filter = Pass(&pass);
                let wf = OurWitness(&ours);
                let hist = iface.history(&filter, &wf);
                n += hist.len() as u64;
                let want = history_model(&model, &pass, &ours, know);
                let mut got: Vec<HistLine> = hist
                    .into_iter()
                    .map(|o| HistLine {
                        dir: format!("{:?}", o.direction),
                        ty: o.ty,
                        ops: o.opids,
                        state: essence(o.state),
                        to: o.to,
                        wit: o.witness.and_then(|w| txid_of(w.id)),
                        ord: o.witness.map(|w| format!("{:?}", w.ord)),
                    })
                    .collect();
                got.sort();
                // the same assignment may be valid under several witnesses: skip the comparison then
                if model.values().all(|s| s.len() <= 1) && got != want {
                    let first = want.iter().find(|x| !got.contains(x)).map(|x| format!("missing {} of type {}", x.dir, x.ty));
                    return Err(format!(
                        "history has {} entries instead of {}; {}",
                        got.len(),
                        want.len(),
                        first.unwrap_or_else(|| s!("superfluous entry"))
                    ));
                }
                Ok(n)
            });
            match r {
                Ok(Ok(n)) => *self.stats.entry("view items compared").or_default() += n,
                Ok(Err(m)) => {
                    self.fail(&["C19"], format!("wallet {w}, {iface_name}: {m}"));
                    return;
                }
                Err(p) => {
                    self.fail(&["C19", "C17"], format!("wallet {w}: view aborts: {p}"));
                    return;
                }
            }
        }
        if rng.chance(1, 3) {
            self.check_classes(w);
            self.check_lists(w);
        }
    }

    /// C01: the payee's stock shows the payment after taking the transfer.
    pub fn check_arrival(&mut self, p: usize, txid: Txid) {
        let pay = self.pays[p].clone();
        let w = pay.payee;
        let (_, ty) = crate::world::kind_name(&pay.what);
        let stock = &self.wallets[w].stock;
        let list = match guard(|| reported(stock, pay.contract)) {
            Ok(Ok(l)) => l,
            Ok(Err(e)) => {
                self.fail(&["C01", "C18"], format!("contract of an accepted payment is not known: {e}"));
                return;
            }
            Err(e) => {
                self.fail(&["C01", "C17"], format!("reading state of an accepted payment aborts: {e}"));
                return;
            }
        };
        if !self.wallets[w].know.valid(txid) {
            return;
        }
        let here: Option<Outpoint> = match (pay.blind, pay.vout) {
            (Some(s), _) => out_seal(&s, Some(txid)).and_then(|s| xoutpoint(&s)),
            (None, Some(v)) => Some(Outpoint::new(txid, v)),
            _ => None,
        };
        let mut items: Vec<&St> = vec![];
        for ((o, s, st), _) in &list {
            if xoutpoint(s) == here && pay.ops.contains(&o.op) {
                // change of the same operation may sit on another seal of the same output only for self-payments
                if o.ty == ty && self.is_payee_out(&pay, o) {
                    items.push(st);
                }
            }
        }
        let ok = match &pay.what {
            What::Asset(v) | What::Bonus(v) => items.iter().map(|s| s.amount as u128).sum::<u128>() == *v as u128,
            What::Token(a) => items.len() == 1 && items[0].essence().2 == crate::world::token_essence(*a),
        };
        self.count("payments arrived");
        if !ok {
            self.fail(
                &["C01", "C18"],
                format!("accepted payment of {:?} shows up as {} items", pay.what, items.len()),
            );
        }
    }

    pub fn is_payee_out(&self, pay: &crate::world::Payment, o: &Opout) -> bool {
        let Some(op) = self.truth.ops.get(&o.op) else { return false };
        let Some(out) = op.outs.get(&(o.ty, o.no)) else { return false };
        match (pay.blind, pay.vout) {
            (Some(s), _) => {
                use commit_verify::Conceal;
                out.secret == s.conceal()
            }
            (None, Some(v)) => matches!(&out.seal, Some(XChain::Bitcoin(s)) if s.vout == v),
            _ => false,
        }
    }
}

fn essence(s: rgbstd::interface::AllocatedState) -> (u8, u64, Vec<u8>) {
    use rgbstd::interface::AllocatedState as A;
    match s {
        A::Void => (0, 0, vec![]),
        A::Amount(a) => (1, a.value(), vec![]),
        A::Data(d) => St::data(&rgbstd::RevealedData::with_salt(d, 0)).essence(),
        A::Attachment(a) => St::attach(&rgbstd::RevealedAttach { file: a, salt: 0 }).essence(),
    }
}

#[derive(Clone)]
pub struct Pass<'a, F: Fn(&Outpoint) -> bool>(&'a F);
impl<F: Fn(&Outpoint) -> bool> rgbstd::interface::AssignmentsFilter for Pass<'_, F> {
    fn should_include(&self, o: impl Into<XOutpoint>, _: Option<rgbstd::XWitnessId>) -> bool {
        use amplify::Wrapper;
        let o: XOutpoint = o.into();
        match o.into_inner() {
            XChain::Bitcoin(o) => (self.0)(&o),
            _ => false,
        }
    }
}
#[derive(Clone)]
pub struct OurWitness<'a, F: Fn(&Txid) -> bool>(&'a F);
impl<F: Fn(&Txid) -> bool> rgbstd::interface::AssignmentsFilter for OurWitness<'_, F> {
    fn should_include(&self, _: impl Into<XOutpoint>, w: Option<rgbstd::XWitnessId>) -> bool {
        w.and_then(txid_of).map(|t| (self.0)(&t)).unwrap_or(false)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct HistLine {
    pub dir: String,
    pub ty: rgbstd::AssignmentType,
    pub ops: BTreeSet<OpId>,
    pub state: (u8, u64, Vec<u8>),
    pub to: BTreeSet<XOutputSeal>,
    pub wit: Option<Txid>,
    pub ord: Option<String>,
}

fn history_model(
    model: &BTreeMap<OwnedKey, BTreeSet<Option<Txid>>>,
    pass: &impl Fn(&Outpoint) -> bool,
    ours: &impl Fn(&Txid) -> bool,
    know: &crate::truth::Know,
) -> Vec<HistLine> {
    // group by (type, witness); fungible groups are summed up, other kinds are listed one by one
    let mut groups: BTreeMap<(rgbstd::AssignmentType, Option<Txid>), Vec<(&OwnedKey, bool)>> = BTreeMap::new();
    for (k, wits) in model {
        let Some(wit) = wits.iter().next() else { continue };
        groups.entry((k.0.ty, *wit)).or_default().push((k, pass(&xoutpoint(&k.1).unwrap())));
    }
    let mut r = vec![];
    for ((ty, wit), list) in groups {
        let own: Vec<&OwnedKey> = list.iter().filter(|x| x.1).map(|x| x.0).collect();
        let ext: Vec<&OwnedKey> = list.iter().filter(|x| !x.1).map(|x| x.0).collect();
        let (dir, items) = match wit {
            None => ("Issued", own),
            Some(t) if ours(&t) => ("Sent", ext),
            Some(_) => ("Received", own),
        };
        if items.is_empty() {
            continue;
        }
        let ord = wit.map(|t| format!("{:?}", know.ords[&t]));
        let fungible = items[0].2.kind == 1;
        let mut line = |l: &[&OwnedKey]| {
            let state = if fungible {
                (1, l.iter().map(|k| k.2.amount).sum::<u64>(), vec![])
            } else {
                l[0].2.essence()
            };
            r.push(HistLine {
                dir: dir.to_string(),
                ty,
                ops: l.iter().map(|k| k.0.op).collect(),
                state,
                to: l.iter().map(|k| k.1).collect(),
                wit,
                ord: ord.clone(),
            });
        };
        if fungible {
            line(&items);
        } else {
            for i in items {
                line(&[i]);
            }
        }
    }
    r.sort();
    r
}
