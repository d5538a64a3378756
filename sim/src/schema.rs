//! Contract schemata, interfaces and kits the simulated wallets work with.
//!
//! Two schemata: "SimRich" covers every kind of owned and global state, "SimPlain" covers a single
//! fungible asset plus genesis metadata and is only implemented for the parent interface.

use std::collections::BTreeMap;

use aluvm::isa::{CmpOp, ControlFlowOp, Instr};
use aluvm::library::{Lib, LibSite};
use aluvm::reg::{Reg32, RegA};
use amplify::confinement::{Confined, TinyOrdMap, TinyOrdSet};
use amplify::num::u24;
use commit_verify::ReservedBytes;
use rgbstd::containers::{ContainerVer, Kit};
use rgbstd::interface::{
    AssignIface, GenesisIface, GlobalIface, Iface, IfaceImpl, Modifier, NamedField, OwnedIface, Req,
    TransitionIface, VerNo,
};
use rgbstd::stl::StandardTypes;
use rgbstd::{
    AssignmentType, FungibleType, GenesisSchema, GlobalStateSchema, GlobalStateType,
    Identity, MediaType, MetaType, Occurrences, OwnedStateSchema, Schema, TransitionSchema,
    TransitionType,
};
use rgbstd::vm::{ContractOp, RgbIsa};
use strict_encoding::{FieldName, TypeName};

pub const GS_SPEC: GlobalStateType = GlobalStateType::with(2000);
pub const GS_NOTE: GlobalStateType = GlobalStateType::with(2001);
pub const GS_LOG: GlobalStateType = GlobalStateType::with(2002);
pub const OS_ASSET: AssignmentType = AssignmentType::with(4000);
pub const OS_BONUS: AssignmentType = AssignmentType::with(4001);
pub const OS_TOKEN: AssignmentType = AssignmentType::with(4002);
pub const OS_MEMO: AssignmentType = AssignmentType::with(4003);
pub const OS_RIGHT: AssignmentType = AssignmentType::with(4004);
pub const OS_FILE: AssignmentType = AssignmentType::with(4005);
pub const MS_MEMO: MetaType = MetaType::with(6000);
pub const TS_TRANSFER: TransitionType = TransitionType::with(10000);
pub const TS_TOKEN: TransitionType = TransitionType::with(10001);
pub const TS_BONUS: TransitionType = TransitionType::with(10002);
pub const TS_NOTE: TransitionType = TransitionType::with(9000);
pub const TS_ISSUE: TransitionType = TransitionType::with(12000);

/// How many items of the accumulating global state types are in force at most.
pub const NOTE_LIMIT: u32 = 3;
pub const LOG_LIMIT: u32 = 100;

pub const RICH_TYPES: [AssignmentType; 6] =
    [OS_ASSET, OS_BONUS, OS_TOKEN, OS_MEMO, OS_RIGHT, OS_FILE];

#[derive(Clone)]
pub struct Kits {
    pub base: Iface,
    pub asset: Iface,
    pub rich: Schema,
    pub plain: Schema,
    pub rich_impl: IfaceImpl,
    pub rich_base_impl: IfaceImpl,
    pub plain_impl: IfaceImpl,
    pub lib: Lib,
    pub rich_kit: Kit,
    pub plain_kit: Kit,
}

pub fn f(name: &'static str) -> FieldName { FieldName::from(name) }

fn args(list: &[(&'static str, Occurrences)]) -> TinyOrdMap<FieldName, Occurrences> {
    Confined::from_checked(list.iter().map(|(n, o)| (f(n), o.clone())).collect::<BTreeMap<_, _>>())
}
fn names(list: &[&'static str]) -> TinyOrdSet<FieldName> {
    Confined::from_checked(list.iter().map(|n| f(n)).collect())
}
fn map<K: Ord + Copy + std::hash::Hash, V: Clone>(list: &[(K, V)]) -> TinyOrdMap<K, V> {
    Confined::from_checked(list.iter().cloned().collect::<BTreeMap<_, _>>())
}

fn limited(sem_id: strict_types::SemId, max: u32) -> GlobalStateSchema {
    GlobalStateSchema {
        reserved: ReservedBytes::default(),
        sem_id,
        max_items: u24::try_from(max).unwrap(),
    }
}

pub fn kits() -> Kits {
    let types = StandardTypes::new();
    let spec = types.get("RGBContract.AssetSpec");
    let details = types.get("RGBContract.Details");
    let alloc = types.get("RGBContract.Allocation");
    let name = types.get("RGBContract.Name");

    // Asset amounts are conserved; an operation without assets at all is fine too.
    type I = Instr<RgbIsa<Access>>;
    let cn = |op: ContractOp<Access>| I::ExtensionCodes(RgbIsa::Contract(op));
    let body = |no_inputs: u16| -> Vec<I> {
        vec![
            cn(ContractOp::CnP(OS_ASSET, Reg32::Reg0)),
            cn(ContractOp::CnS(OS_ASSET, Reg32::Reg1)),
            I::Cmp(CmpOp::IfNA(RegA::A16, Reg32::Reg0)),
            I::ControlFlow(ControlFlowOp::Jif(no_inputs)),
            I::Cmp(CmpOp::StInv),
            cn(ContractOp::Pcvs(OS_ASSET)),
            I::ControlFlow(ControlFlowOp::Ret),
        ]
    };
    let pos = Lib::assemble::<I>(&body(0)).expect("script").code.len() as u16;
    let mut code = body(pos);
    code.push(I::Cmp(CmpOp::IfNA(RegA::A16, Reg32::Reg1)));
    code.push(I::ControlFlow(ControlFlowOp::Ret));
    let lib = Lib::assemble::<I>(&code).expect("script");
    let site = |pos: u16| LibSite::with(pos, lib.id());

    let any = |l: &[AssignmentType]| {
        map(&l.iter().map(|t| (*t, Occurrences::NoneOrMore)).collect::<Vec<_>>())
    };

    let tr = |globals: &[(GlobalStateType, Occurrences)], validator: Option<LibSite>| {
        TransitionSchema {
            metadata: Confined::default(),
            globals: map(globals),
            inputs: any(&RICH_TYPES),
            assignments: any(&RICH_TYPES),
            valencies: Confined::default(),
            validator,
        }
    };

    let rich = Schema {
        ffv: Default::default(),
        flags: Default::default(),
        name: TypeName::from("SimRich"),
        timestamp: 1_700_000_000,
        developer: Identity::default(),
        meta_types: map(&[(MS_MEMO, details)]),
        global_types: map(&[
            (GS_SPEC, GlobalStateSchema::once(spec)),
            (GS_NOTE, limited(details, NOTE_LIMIT)),
            (GS_LOG, limited(details, LOG_LIMIT)),
        ]),
        owned_types: map(&[
            (OS_ASSET, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (OS_BONUS, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (OS_TOKEN, OwnedStateSchema::Structured(alloc)),
            (OS_MEMO, OwnedStateSchema::Structured(name)),
            (OS_RIGHT, OwnedStateSchema::Declarative),
            (OS_FILE, OwnedStateSchema::Attachment(MediaType::Any)),
        ]),
        valency_types: Confined::default(),
        genesis: GenesisSchema {
            metadata: Confined::default(),
            globals: map(&[
                (GS_SPEC, Occurrences::Once),
                (GS_NOTE, Occurrences::NoneOrMore),
                (GS_LOG, Occurrences::NoneOrMore),
            ]),
            assignments: any(&RICH_TYPES),
            valencies: Confined::default(),
            validator: None,
        },
        extensions: Confined::default(),
        transitions: map(&[
            (TS_TRANSFER, tr(&[], Some(site(0)))),
            (TS_TOKEN, tr(&[], None)),
            (TS_BONUS, tr(&[], None)),
            (
                TS_NOTE,
                tr(
                    &[(GS_NOTE, Occurrences::NoneOrMore), (GS_LOG, Occurrences::NoneOrMore)],
                    None,
                ),
            ),
            (TS_ISSUE, TransitionSchema {
                metadata: Confined::from_checked([MS_MEMO].into_iter().collect()),
                ..tr(&[(GS_LOG, Occurrences::NoneOrMore)], None)
            }),
        ]),
        reserved: Default::default(),
    };

    let plain = Schema {
        ffv: Default::default(),
        flags: Default::default(),
        name: TypeName::from("SimPlain"),
        timestamp: 1_700_000_001,
        developer: Identity::default(),
        meta_types: map(&[(MS_MEMO, details)]),
        global_types: map(&[(GS_SPEC, GlobalStateSchema::once(spec))]),
        owned_types: map(&[(
            OS_ASSET,
            OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
        )]),
        valency_types: Confined::default(),
        genesis: GenesisSchema {
            metadata: Confined::from_checked([MS_MEMO].into_iter().collect()),
            globals: map(&[(GS_SPEC, Occurrences::Once)]),
            assignments: any(&[OS_ASSET]),
            valencies: Confined::default(),
            validator: None,
        },
        extensions: Confined::default(),
        transitions: map(&[(TS_TRANSFER, TransitionSchema {
            metadata: Confined::default(),
            globals: Confined::default(),
            inputs: any(&[OS_ASSET]),
            assignments: any(&[OS_ASSET]),
            valencies: Confined::default(),
            validator: Some(site(0)),
        })]),
        reserved: Default::default(),
    };

    use Occurrences::{NoneOrMore, Once};
    let tiface = |globals: &[(&'static str, Occurrences)],
                  meta: &[&'static str],
                  assigns: &[&'static str],
                  default: &'static str| TransitionIface {
        modifier: Modifier::Final,
        optional: true,
        metadata: names(meta),
        globals: args(globals),
        inputs: args(&assigns.iter().map(|a| (*a, NoneOrMore)).collect::<Vec<_>>()),
        assignments: args(&assigns.iter().map(|a| (*a, NoneOrMore)).collect::<Vec<_>>()),
        valencies: Confined::default(),
        errors: Confined::default(),
        default_assignment: Some(f(default)),
    };

    let base = Iface {
        version: VerNo::V1,
        name: TypeName::from("SimBase"),
        inherits: Confined::default(),
        timestamp: 1_700_000_002,
        metadata: Confined::default(),
        global_state: Confined::from_checked(
            [(f("spec"), GlobalIface::required(spec))].into_iter().collect(),
        ),
        assignments: Confined::from_checked(
            [(f("asset"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore))]
                .into_iter()
                .collect(),
        ),
        valencies: Confined::default(),
        genesis: GenesisIface {
            modifier: Modifier::Abstract,
            metadata: Confined::default(),
            globals: args(&[("spec", Once)]),
            assignments: args(&[("asset", NoneOrMore)]),
            valencies: Confined::default(),
            errors: Confined::default(),
        },
        transitions: Confined::from_checked(
            [(f("transfer"), TransitionIface {
                modifier: Modifier::Abstract,
                ..tiface(&[], &[], &["asset"], "asset")
            })]
            .into_iter()
            .collect(),
        ),
        extensions: Confined::default(),
        default_operation: Some(f("transfer")),
        errors: Confined::default(),
        developer: Identity::default(),
    };

    const ALL: [&str; 6] = ["asset", "bonus", "token", "memo", "right", "file"];
    let asset = Iface {
        version: VerNo::V1,
        name: TypeName::from("SimAsset"),
        inherits: Confined::from_checked(vec![base.iface_id()]),
        timestamp: 1_700_000_003,
        metadata: Confined::from_checked([(f("memo"), details)].into_iter().collect()),
        global_state: Confined::from_checked(
            [
                (f("spec"), GlobalIface::required(spec)),
                (f("note"), GlobalIface::none_or_many(details)),
                (f("log"), GlobalIface::none_or_many(details)),
            ]
            .into_iter()
            .collect(),
        ),
        assignments: Confined::from_checked(
            [
                (f("asset"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
                (f("bonus"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
                (f("token"), AssignIface::private(OwnedIface::Data(alloc), Req::NoneOrMore)),
                (f("memo"), AssignIface::private(OwnedIface::Data(name), Req::NoneOrMore)),
                (f("right"), AssignIface::public(OwnedIface::Rights, Req::NoneOrMore)),
                (f("file"), AssignIface::private(OwnedIface::AnyAttach, Req::NoneOrMore)),
            ]
            .into_iter()
            .collect(),
        ),
        valencies: Confined::default(),
        genesis: GenesisIface {
            modifier: Modifier::Override,
            metadata: Confined::default(),
            globals: args(&[("spec", Once), ("note", NoneOrMore), ("log", NoneOrMore)]),
            assignments: args(&ALL.iter().map(|a| (*a, NoneOrMore)).collect::<Vec<_>>()),
            valencies: Confined::default(),
            errors: Confined::default(),
        },
        transitions: Confined::from_checked(
            [
                (f("transfer"), tiface(&[], &[], &ALL, "asset")),
                (f("transferToken"), tiface(&[], &[], &ALL, "token")),
                (f("transferBonus"), tiface(&[], &[], &ALL, "bonus")),
                (f("note"), tiface(&[("note", NoneOrMore), ("log", NoneOrMore)], &[], &ALL, "right")),
                (f("issue"), tiface(&[("log", NoneOrMore)], &["memo"], &ALL, "asset")),
            ]
            .into_iter()
            .collect(),
        ),
        extensions: Confined::default(),
        default_operation: Some(f("transfer")),
        errors: Confined::default(),
        developer: Identity::default(),
    };

    let rich_impl = IfaceImpl {
        version: VerNo::V1,
        schema_id: rich.schema_id(),
        iface_id: asset.iface_id(),
        timestamp: 1_700_000_004,
        metadata: set(vec![NamedField::with(MS_MEMO, f("memo"))]),
        global_state: set(vec![
            NamedField::with(GS_SPEC, f("spec")),
            NamedField::with(GS_NOTE, f("note")),
            NamedField::with(GS_LOG, f("log")),
        ]),
        assignments: set(vec![
            NamedField::with(OS_ASSET, f("asset")),
            NamedField::with(OS_BONUS, f("bonus")),
            NamedField::with(OS_TOKEN, f("token")),
            NamedField::with(OS_MEMO, f("memo")),
            NamedField::with(OS_RIGHT, f("right")),
            NamedField::with(OS_FILE, f("file")),
        ]),
        valencies: Confined::default(),
        transitions: set(vec![
            NamedField::with(TS_TRANSFER, f("transfer")),
            NamedField::with(TS_TOKEN, f("transferToken")),
            NamedField::with(TS_BONUS, f("transferBonus")),
            NamedField::with(TS_NOTE, f("note")),
            NamedField::with(TS_ISSUE, f("issue")),
        ]),
        extensions: Confined::default(),
        errors: Confined::default(),
        developer: Identity::default(),
    };
    let rich_base_impl = IfaceImpl {
        version: VerNo::V1,
        schema_id: rich.schema_id(),
        iface_id: base.iface_id(),
        timestamp: 1_700_000_005,
        metadata: Confined::default(),
        global_state: set(vec![NamedField::with(GS_SPEC, f("spec"))]),
        assignments: set(vec![NamedField::with(OS_ASSET, f("asset"))]),
        valencies: Confined::default(),
        transitions: set(vec![NamedField::with(TS_TRANSFER, f("transfer"))]),
        extensions: Confined::default(),
        errors: Confined::default(),
        developer: Identity::default(),
    };
    let plain_impl = IfaceImpl {
        schema_id: plain.schema_id(),
        timestamp: 1_700_000_006,
        metadata: set(vec![NamedField::with(MS_MEMO, f("memo"))]),
        ..rich_base_impl.clone()
    };

    let sys = types.type_system();
    let scripts = Confined::from_checked([lib.clone()].into_iter().collect());
    let rich_kit = Kit {
        version: ContainerVer::V2,
        ifaces: Confined::from_checked([base.clone(), asset.clone()].into_iter().collect()),
        schemata: Confined::from_checked([rich.clone()].into_iter().collect()),
        iimpls: Confined::from_checked(
            [rich_impl.clone(), rich_base_impl.clone()].into_iter().collect(),
        ),
        supplements: Confined::default(),
        types: sys.clone(),
        scripts,
        signatures: Confined::default(),
    };
    let plain_kit = Kit {
        ifaces: Confined::from_checked([base.clone()].into_iter().collect()),
        schemata: Confined::from_checked([plain.clone()].into_iter().collect()),
        iimpls: Confined::from_checked([plain_impl.clone()].into_iter().collect()),
        ..rich_kit.clone()
    };

    Kits {
        base,
        asset,
        rich,
        plain,
        rich_impl,
        rich_base_impl,
        plain_impl,
        lib,
        rich_kit,
        plain_kit,
    }
}

fn set<T: Ord>(v: Vec<T>) -> TinyOrdSet<T> { Confined::from_checked(v.into_iter().collect()) }

/// Type parameter of the script instruction set; never instantiated.
pub type Access = rgbstd::persistence::MemContract;
