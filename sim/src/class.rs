//! Interface classes, the typed way to the contracts of an interface (C19).

use std::collections::BTreeSet;
use std::sync::OnceLock;

use amplify::s;
use rgbstd::containers::{ContentRef, SupplItem, SupplSub};
use rgbstd::interface::{ContractIface, FilterIncludeAll, Iface, IfaceClass, IfaceId, IfaceRef, IfaceWrapper};
use rgbstd::persistence::StashReadProvider;
use rgbstd::persistence::ContractStateRead;
use rgbstd::{ContractId, Operation, SchemaId, WitnessInfo, XWitnessId};

use crate::world::{guard, World};

// The ids of the two interfaces; classes need them as constants.
const ASSET_ID: [u8; 32] = [
    44, 119, 188, 142, 74, 37, 153, 159, 96, 183, 60, 216, 181, 152, 110, 118, 255, 0, 137, 86, 79, 215, 55, 176, 19, 248, 126,
    209, 98, 8, 198, 165,
];
const BASE_ID: [u8; 32] = [
    22, 236, 87, 104, 6, 84, 3, 96, 88, 25, 7, 18, 134, 226, 126, 171, 215, 180, 202, 127, 66, 64, 150, 153, 23, 97, 134, 59, 251,
    163, 101, 14,
];

pub struct Wrapper<S: ContractStateRead>(pub ContractIface<S>);

impl<S: ContractStateRead> IfaceWrapper<S> for Wrapper<S> {
    type Info = (ContractId, SchemaId);
    fn with(iface: ContractIface<S>) -> Self { Wrapper(iface) }
    fn info(&self) -> Self::Info { (self.contract_id(), self.schema_id()) }
    fn contract_id(&self) -> ContractId { self.0.contract_id() }
    fn schema_id(&self) -> SchemaId { self.0.schema.schema_id() }
    fn witness_info(&self, id: XWitnessId) -> Option<WitnessInfo> { self.0.witness_info(id) }
}

macro_rules! class {
    ($t:ident, $name:literal, $id:ident, $field:ident) => {
        #[derive(Clone, Default)]
        pub struct $t;
        impl IfaceClass for $t {
            const IFACE_NAME: &'static str = $name;
            const IFACE_IDS: &'static [IfaceId] = &[IfaceId::from_array($id)];
            type Wrapper<S: ContractStateRead> = Wrapper<S>;
            fn stl(&self) -> strict_types::TypeLib { rgbstd::stl::rgb_contract_stl() }
            fn iface(&self) -> Iface { crate::schema::kits().$field }
            fn iface_id(&self) -> IfaceId { Self::IFACE_IDS[0] }
        }
    };
}
class!(AssetClass, "SimAsset", ASSET_ID, asset);
class!(BaseClass, "SimBase", BASE_ID, base);

/// Whether the constants are still the ids of the interfaces, as they are as long as the encoding of interfaces stays the same.
fn ids_hold() -> bool {
    static HOLD: OnceLock<bool> = OnceLock::new();
    *HOLD.get_or_init(|| {
        let k = crate::schema::kits();
        k.asset.iface_id() == AssetClass.iface_id() && k.base.iface_id() == BaseClass.iface_id()
    })
}

impl World {
    /// C19: a class lists each contract having its interface once, and shows what the interface itself shows.
    pub fn check_classes(&mut self, w: usize) {
        if !ids_hold() {
            return;
        }
        let stock = &self.wallets[w].stock;
        let known: BTreeSet<ContractId> = self.wallets[w].know.contracts.iter().copied().collect();
        macro_rules! compare {
            ($class:ty) => {
                guard(|| -> Result<(), String> {
                    let name = <$class>::IFACE_NAME;
                    let id = <$class>::IFACE_IDS[0];
                    let mut listed: Vec<(ContractId, SchemaId)> =
                        stock.contracts_by::<$class>().map_err(|e| e.to_string())?.collect();
                    listed.sort();
                    let mut want = vec![];
                    for c in &known {
                        let plain = stock.contract_iface(*c, id);
                        let typed = stock.contract_iface_class::<$class>(*c);
                        match (plain, typed) {
                            (Ok(a), Ok(b)) => {
                                want.push((*c, a.schema.schema_id()));
                                if b.info() != (*c, a.schema.schema_id()) || b.0.iface != a.iface {
                                    return Err(format!("class {name} shows another contract"));
                                }
                                let mut x: Vec<_> = a
                                    .fungible("asset", FilterIncludeAll)
                                    .map_err(|e| e.to_string())?
                                    .map(|o| (o.opout, o.seal, o.state.value(), o.witness))
                                    .collect();
                                let mut y: Vec<_> = b
                                    .0
                                    .fungible("asset", FilterIncludeAll)
                                    .map_err(|e| e.to_string())?
                                    .map(|o| (o.opout, o.seal, o.state.value(), o.witness))
                                    .collect();
                                x.sort();
                                y.sort();
                                if x != y {
                                    return Err(format!("class {name} shows {} assets instead of {}", y.len(), x.len()));
                                }
                                for t in x.iter().filter_map(|o| o.3) {
                                    if a.witness_info(t) != b.witness_info(t) || b.witness_info(t).map(|i| i.id) != Some(t) {
                                        return Err(format!("class {name} shows another witness"));
                                    }
                                }
                            }
                            (Err(_), Err(_)) => {}
                            (Ok(_), Err(e)) => return Err(format!("class {name} doesn't show a contract: {e}")),
                            (Err(e), Ok(_)) => return Err(format!("class {name} shows a contract without it: {e}")),
                        }
                    }
                    want.sort();
                    if want != listed {
                        return Err(format!("class {name} lists {} contracts instead of {}", listed.len(), want.len()));
                    }
                    Ok(())
                })
            };
        }
        for r in [compare!(AssetClass), compare!(BaseClass)] {
            match r {
                Ok(Ok(())) => self.count("classes compared"),
                Ok(Err(m)) => return self.fail(&["C19"], format!("wallet {w}: {m}")),
                Err(p) => return self.fail(&["C19", "C17"], format!("wallet {w}: view by a class aborts: {p}")),
            }
        }
    }

    /// C19: the lists of contracts, schemata and interfaces.
    pub fn check_lists(&mut self, w: usize) {
        match guard(|| self.lists(w)) {
            Ok(Ok(n)) => *self.stats.entry("listed items compared").or_default() += n,
            Ok(Err(m)) => self.fail(&["C19"], format!("wallet {w}: {m}")),
            Err(p) => self.fail(&["C19", "C17"], format!("wallet {w}: listing aborts: {p}")),
        }
    }

    fn lists(&self, w: usize) -> Result<u64, String> {
        fn e(e: impl std::fmt::Display) -> String { e.to_string() }
        let stock = &self.wallets[w].stock;
        let stash = stock.as_stash_provider();
        let mut n = 0;

        let list: Vec<_> = stock.contracts().map_err(e)?.collect();
        let known = &self.wallets[w].know.contracts;
        if list.len() != known.len() || !list.iter().all(|i| known.contains(&i.id)) {
            return Err(format!("{} contracts are listed instead of {}", list.len(), known.len()));
        }
        for i in &list {
            let g = stash.genesis(i.id).map_err(e)?;
            n += 1;
            if g.contract_id() != i.id
                || i.schema_id != g.schema_id
                || i.issuer != g.issuer
                || i.issued_at.timestamp() != g.timestamp
                || i.testnet != g.testnet
                || i.alt_layers1 != g.alt_layers1
                || stock.contract_info(i.id).map_err(e)? != *i
                || !i.to_string().contains(&i.id.to_string())
            {
                return Err(s!("list of contracts has wrong data"));
            }
        }

        let list: Vec<_> = stock.schemata().map_err(e)?.collect();
        let ids: BTreeSet<SchemaId> = list.iter().map(|i| i.id).collect();
        let have: BTreeSet<SchemaId> = stash.schemata().map_err(e)?.map(|s| s.schema.schema_id()).collect();
        if ids.len() != list.len() || ids != have || !list.iter().all(|i| stock.schema(i.id).is_ok()) {
            return Err(format!("{} schemata are listed instead of {}", list.len(), have.len()));
        }
        for i in &list {
            n += 1;
            let s = stash.schema(i.id).map_err(e)?;
            if i.name != s.schema.name || i.developer != s.schema.developer || i.created_at.timestamp() != s.schema.timestamp {
                return Err(s!("list of schemata has wrong data"));
            }
            let good = i.implements.len() == s.iimpls.len()
                && i.implements.iter().all(|x| {
                    s.iimpls.iter().any(|(name, imp)| {
                        *name == x.iface_name
                            && imp.impl_id() == x.id
                            && imp.iface_id == x.iface_id
                            && imp.developer == x.developer
                            && imp.timestamp == x.created_at.timestamp()
                    })
                });
            if !good || !i.implements.iter().all(|x| i.to_string().contains(&x.id.to_string())) {
                return Err(s!("list of schemata has wrong implementations"));
            }
        }

        let list: Vec<_> = stock.ifaces().map_err(e)?.collect();
        let ids: BTreeSet<IfaceId> = list.iter().map(|i| i.id).collect();
        let have: BTreeSet<IfaceId> = stash.ifaces().map_err(e)?.map(|i| i.iface_id()).collect();
        if ids.len() != list.len() || ids != have {
            return Err(format!("{} interfaces are listed instead of {}", list.len(), have.len()));
        }
        for i in &list {
            n += 1;
            let f = stock.iface(i.id).map_err(e)?;
            let parents: Vec<String> = f
                .inherits
                .iter()
                .map(|id| match stash.iface(*id) {
                    Ok(p) => format!("{:?}", IfaceRef::Name(p.name.clone())),
                    Err(_) => format!("{:?}", IfaceRef::Id(*id)),
                })
                .collect();
            if i.version != f.version
                || i.name != f.name
                || i.developer != f.developer
                || i.created_at.timestamp() != f.timestamp
                || i.default_op != f.default_operation
                || i.inherits.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>() != parents
            {
                return Err(s!("list of interfaces has wrong data"));
            }
            // what is said about the interface by the first supplement
            let said = stash.supplement(ContentRef::Iface(i.id)).map_err(e)?.cloned();
            let note = |name: &'static str| {
                let (_, map) = said.as_ref()?.annotations.iter().find(|(s, _)| **s == SupplSub::Itself)?;
                let (_, items) = map.iter().find(|(s, _)| **s == SupplItem::Default)?;
                items.iter().find(|(k, _)| k.to_string() == name).map(|(_, v)| v.to_vec())
            };
            if i.standard.as_ref().map(crate::truth::ser) != note("Standard") {
                return Err(s!("list of interfaces names another standard"));
            }
            if crate::truth::ser(&i.features) != note("Features").unwrap_or(vec![0]) {
                return Err(s!("list of interfaces names other features"));
            }
            let text = i.to_string();
            if !i.features.iter().all(|x| text.contains(&x.to_string())) || !text.contains(&i.id.to_string()) {
                return Err(s!("text of the list of interfaces lacks something"));
            }
        }
        Ok(n)
    }
}
