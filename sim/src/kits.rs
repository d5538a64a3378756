//! Schema kits with supplements and signatures, whole and in parts.

use std::collections::BTreeSet;

use amplify::confinement::{Confined, NonEmptyBlob, NonEmptyOrdMap};
use rgbstd::containers::{ContentId, ContentRef, ContentSigs, Kit, SigBlob, SupplItem, SupplSub, Supplement};
use rgbstd::info::{FeatureList, IfaceClassName};
use rgbstd::Identity;

use crate::rng::{mix, Digest, Rng};
use crate::truth::ser;
use crate::world::{guard, World};

const SIGNERS: [&str; 4] = ["ssi:alice", "ssi:bob", "ssi:carol", "ssi:dave"];

/// What a signer makes of the content: always the same.
fn signature(who: &str, id: &ContentId, big: bool) -> SigBlob {
    let mut rng = Rng::new(mix(Digest::of(&[who.as_bytes(), &ser(id)].concat())));
    let len = if big { 4096 } else { 1 + rng.below(96) };
    let bytes: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
    SigBlob::from(NonEmptyBlob::<4096>::try_from(bytes).expect("not empty"))
}

/// Whether the signatures are made by those who they are said to be made by.
pub fn genuine_sigs<'a>(sigs: impl Iterator<Item = (&'a ContentId, &'a ContentSigs)>) -> bool {
    sigs.flat_map(|(id, s)| s.iter().map(move |x| (id, x)))
        .all(|(id, (who, blob))| SIGNERS.iter().any(|s| who.as_str() == *s && *blob == signature(s, id, s.len() % 2 == 0)))
}

impl World {
    /// Import of a kit, complete or in parts, with supplements and signatures.
    pub fn kits_step(&mut self, r: &mut Rng) {
        let w = self.any_wallet(r);
        let rich = r.chance(2, 3);
        let mut kit = self.kit(rich);
        let whole = r.chance(1, 3);
        if !whole {
            let no = kit.clone();
            // Types and scripts come along with the schema
            if r.chance(1, 2) {
                kit.ifaces = Default::default();
            }
            if r.chance(1, 2) {
                kit.schemata = Default::default();
                if r.chance(1, 2) {
                    kit.types = Default::default();
                    kit.scripts = Default::default();
                }
            }
            if r.chance(1, 2) {
                kit.iimpls = Default::default();
            }
            if no.ifaces.len() > 1 && r.chance(1, 4) && kit.ifaces.len() > 1 {
                let first = kit.ifaces.iter().next().cloned().expect("some");
                kit.ifaces = Confined::try_from(BTreeSet::from([first])).expect("one");
            }
        }
        // Versions of an interface share its name
        for _ in 0..r.below(3) {
            let mut iface = self.kits.base.clone();
            iface.name = "SimNote".into();
            iface.timestamp = 1_700_000_000 + r.below(4) as i64;
            kit.ifaces.push(iface).ok();
        }
        self.decorate(r, &mut kit);
        let (ifaces, schemata) = {
            let stock = &self.wallets[w].stock;
            let mut i: BTreeSet<_> = kit.ifaces.iter().map(|x| x.iface_id()).collect();
            let mut s: BTreeSet<_> = kit.schemata.iter().map(|x| x.schema_id()).collect();
            let known = guard(|| {
                for k in [&self.kits.base, &self.kits.asset] {
                    if stock.iface(k.iface_id()).is_ok() {
                        i.insert(k.iface_id());
                    }
                }
                for k in [&self.kits.rich, &self.kits.plain] {
                    if stock.schema(k.schema_id()).is_ok() {
                        s.insert(k.schema_id());
                    }
                }
            });
            if let Err(p) = known {
                return self.fail(&["C17"], format!("looking up an interface or a schema aborts: {p}"));
            }
            (i, s)
        };
        let sound = kit.iimpls.iter().all(|i| ifaces.contains(&i.iface_id) && schemata.contains(&i.schema_id));
        let before = if sound { None } else { self.probe(&self.wallets[w].stock).ok() };
        let Ok(valid) = kit.clone().validate() else { return self.fail(&["C05", "C01"], "a sound kit does not validate") };
        let res = self.mutate(w, |s, _| s.import_kit(valid.clone()).map(|_| ()).map_err(|e| e.to_string()));
        self.count("kits imported in parts");
        if !sound {
            match res {
                Ok(Err(_)) => {
                    let after = self.probe(&self.wallets[w].stock);
                    if let (Some(a), Ok(b)) = (before, after) {
                        if let Some(d) = crate::oracle::diff(&a, &b) {
                            self.fail(&["C09"], format!("a refused kit has changed the stock: {d}"));
                        }
                    }
                }
                Ok(Ok(())) => self.fail(&["C09", "C17"], "an implementation of an unknown interface or schema is taken"),
                Err(p) => self.fail(&["C17", "C09"], format!("import of an incomplete kit aborts: {p}")),
            }
            return;
        }
        self.settle(w, "import of a kit", res, |me| {
            let mut know = me.wallets[w].know.clone();
            if whole {
                know.kits.insert(rich);
            }
            know.extras.extend(crate::oracle::kit_lines(&kit));
            know
        });
        if self.viol.is_none() {
            self.check_known(w, &["C06"]);
        }
    }

    /// Adds supplements and signatures of the kind publishers put into kits.
    pub fn decorate(&self, r: &mut Rng, kit: &mut Kit) {
        let mut refs: Vec<(ContentRef, ContentId)> = vec![];
        for x in kit.schemata.iter() {
            refs.push((ContentRef::Schema(x.schema_id()), ContentId::Schema(x.schema_id())));
        }
        for x in kit.ifaces.iter() {
            refs.push((ContentRef::Iface(x.iface_id()), ContentId::Iface(x.iface_id())));
        }
        for x in kit.iimpls.iter() {
            refs.push((ContentRef::IfaceImpl(x.impl_id()), ContentId::IfaceImpl(x.impl_id())));
        }
        let big = r.chance(1, 6);
        let mut suppl = BTreeSet::new();
        let mut sigs = std::collections::BTreeMap::new();
        for (re, id) in refs {
            for n in 0..r.below(3) {
                let who = SIGNERS[(n as usize + r.below(2) as usize) % 4];
                let mut s = Supplement::new(re, Identity::from(who));
                s.timestamp = 1_700_000_000 + n as i64;
                if r.chance(1, 2) {
                    s.annotate_default(SupplSub::Itself, "Note", &Self::text(&mut Rng::new(n), "about")).expect("small");
                }
                if let (ContentRef::Iface(_), true) = (&re, r.chance(1, 2)) {
                    let class = IfaceClassName::from(["SimClass", "RGB20", "X"][r.below(3) as usize]);
                    s.annotate_itself("Standard", &class).expect("small");
                    if r.chance(1, 2) {
                        let mut list = FeatureList::default();
                        for name in ["fixed", "renameable", "inflatable"].iter().take(1 + r.below(3) as usize) {
                            list.push(crate::schema::f(name)).expect("few");
                        }
                        s.annotate_itself("Features", &list).expect("small");
                    }
                    // about a part of the interface only
                    s.annotate(SupplSub::Assignment, SupplItem::FieldName(crate::schema::f("asset")), "Standard", &class)
                        .expect("small");
                }
                suppl.insert(s);
            }
            let mut map = std::collections::BTreeMap::new();
            for who in SIGNERS {
                if r.chance(1, 2) || big {
                    map.insert(Identity::from(who), signature(who, &id, who.len() % 2 == 0));
                }
            }
            if !map.is_empty() {
                sigs.insert(id, ContentSigs::from(NonEmptyOrdMap::<_, _, 10>::try_from(map).expect("few")));
            }
        }
        kit.supplements = Confined::try_from(suppl).expect("few");
        kit.signatures = Confined::try_from(sigs).expect("few");
    }
}
