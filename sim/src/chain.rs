//! Stub blockchain: transactions, mempool, blocks, reorganisations, replacement, and the witness
//! resolver through which wallets look at it (with failing, lagging and lying lookups).

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU32;

use bp::{
    InternalPk, LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, SigScript, Tx, TxIn, TxOut, TxVer, Txid, VarIntArray,
    Vout, Witness,
};
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, WitnessPos};
use rgbstd::vm::XWitnessTx;
use rgbstd::{XChain, XWitnessId};

use crate::rng::Rng;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum TxSt {
    /// Prepared by a wallet but not broadcast: only its author can see it.
    Unseen,
    Mempool,
    Mined { height: u32, time: i64 },
    /// Replaced, conflicted or evicted.
    Dropped,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub tx: Tx,
    pub st: TxSt,
    pub author: usize,
}

#[derive(Clone, Default)]
pub struct Chain {
    pub txs: BTreeMap<Txid, Entry>,
    /// Order in which transactions were created (stable iteration independent of ids).
    pub order: Vec<Txid>,
    pub blocks: Vec<(u32, i64, Vec<Txid>)>,
    pub funded: BTreeSet<Txid>,
    /// Whether indexers still serve transactions which left the mempool.
    pub serve_dropped: bool,
    pub counter: u64,
}

pub const GENESIS_HEIGHT: u32 = 100;

pub fn spk_wpkh(rng: &mut Rng) -> ScriptPubkey {
    let b = rng.bytes32();
    ScriptPubkey::from_unsafe([&[0u8, 20][..], &b[..20]].concat())
}

/// A valid x-only key derived from the seeded stream.
pub fn internal_pk(rng: &mut Rng) -> InternalPk {
    loop {
        if let Ok(pk) = InternalPk::from_byte_array(rng.bytes32()) {
            return pk;
        }
    }
}

pub fn make_tx(inputs: &[Outpoint], outputs: Vec<TxOut>, lock: u32) -> Tx {
    Tx {
        version: TxVer::V2,
        inputs: VarIntArray::from_checked(
            inputs
                .iter()
                .map(|o| TxIn {
                    prev_output: *o,
                    sig_script: SigScript::default(),
                    sequence: SeqNo::from_consensus_u32(0xffff_fffd),
                    witness: Witness::default(),
                })
                .collect(),
        ),
        outputs: VarIntArray::from_checked(outputs),
        lock_time: LockTime::from_consensus_u32(lock),
    }
}

pub fn out(spk: ScriptPubkey, sats: u64) -> TxOut { TxOut::new(spk, Sats::from(sats)) }

impl Chain {
    pub fn height(&self) -> u32 { GENESIS_HEIGHT + self.blocks.len() as u32 }

    /// Creates a confirmed funding output, like a deposit from outside of the simulated world.
    pub fn fund(&mut self, rng: &mut Rng) -> Outpoint {
        let mut tx = make_tx(&[], vec![out(spk_wpkh(rng), 10_000), out(spk_wpkh(rng), 20_000)], 0);
        self.counter += 1;
        tx.lock_time = LockTime::from_consensus_u32(self.counter as u32);
        let txid = tx.txid();
        self.funded.insert(txid);
        Outpoint::new(txid, Vout::from_u32(rng.below(2) as u32))
    }

    pub fn add(&mut self, tx: Tx, author: usize) -> Txid {
        let txid = tx.txid();
        if self.txs.insert(txid, Entry { tx, st: TxSt::Unseen, author }).is_none() {
            self.order.push(txid);
        }
        txid
    }

    pub fn st(&self, txid: Txid) -> Option<TxSt> { self.txs.get(&txid).map(|e| e.st) }

    pub fn alive(&self, txid: Txid) -> bool {
        self.funded.contains(&txid)
            || matches!(self.st(txid), Some(TxSt::Mempool | TxSt::Mined { .. } | TxSt::Unseen))
    }

    /// Transactions spending the outpoint which are not dropped.
    pub fn spenders(&self, o: Outpoint) -> Vec<Txid> {
        self.order
            .iter()
            .copied()
            .filter(|id| {
                let e = &self.txs[id];
                e.st != TxSt::Dropped && e.tx.inputs.iter().any(|i| i.prev_output == o)
            })
            .collect()
    }

    pub fn spendable(&self, o: Outpoint) -> bool { self.alive(o.txid) && self.spenders(o).is_empty() }

    /// Whether the outpoints can exist together: no two transactions behind them conflict.
    pub fn consistent(&self, outs: impl IntoIterator<Item = Outpoint>) -> bool {
        let mut q: Vec<Txid> = outs.into_iter().map(|o| o.txid).collect();
        let mut seen = BTreeSet::new();
        let mut spent: BTreeMap<Outpoint, Txid> = BTreeMap::new();
        while let Some(id) = q.pop() {
            let Some(e) = self.txs.get(&id) else { continue };
            if !seen.insert(id) {
                continue;
            }
            for i in e.tx.inputs.iter() {
                if *spent.entry(i.prev_output).or_insert(id) != id {
                    return false;
                }
                q.push(i.prev_output.txid);
            }
        }
        true
    }

    /// Drops the transaction and everything built on top of it.
    pub fn drop_tx(&mut self, txid: Txid) {
        let mut q = vec![txid];
        while let Some(id) = q.pop() {
            let Some(e) = self.txs.get_mut(&id) else { continue };
            if e.st == TxSt::Dropped {
                continue;
            }
            e.st = TxSt::Dropped;
            for b in &mut self.blocks {
                b.2.retain(|x| *x != id);
            }
            let n = e.tx.outputs.len();
            for v in 0..n {
                q.extend(self.spenders(Outpoint::new(id, Vout::from_u32(v as u32))));
            }
        }
    }

    /// Broadcasts; conflicting mempool transactions get replaced; conflicting with a mined one or
    /// having a dropped parent makes the transaction dropped itself. Returns whether it is alive.
    pub fn broadcast(&mut self, txid: Txid) -> bool {
        let Some(e) = self.txs.get(&txid) else { return false };
        if matches!(e.st, TxSt::Mempool | TxSt::Mined { .. }) {
            return true;
        }
        let inputs: Vec<Outpoint> = e.tx.inputs.iter().map(|i| i.prev_output).collect();
        for o in &inputs {
            let parent_ok = self.funded.contains(&o.txid)
                || matches!(self.st(o.txid), Some(TxSt::Mempool | TxSt::Mined { .. }));
            if !parent_ok {
                return false;
            }
        }
        let mut conflicts = vec![];
        for o in &inputs {
            for c in self.spenders(*o) {
                if c != txid {
                    if matches!(self.txs[&c].st, TxSt::Mined { .. }) {
                        self.drop_tx(txid);
                        return false;
                    }
                    conflicts.push(c);
                }
            }
        }
        self.txs.get_mut(&txid).unwrap().st = TxSt::Mempool;
        for c in conflicts {
            self.drop_tx(c);
        }
        true
    }

    /// Mines a block with a seeded subset of the mempool.
    pub fn mine(&mut self, rng: &mut Rng, time: i64, all: bool) -> Vec<Txid> {
        let height = self.height() + 1;
        let mut done = vec![];
        for id in self.order.clone() {
            let e = &self.txs[&id];
            if e.st != TxSt::Mempool || !(all || rng.chance(2, 3)) {
                continue;
            }
            let ok = e.tx.inputs.iter().all(|i| {
                self.funded.contains(&i.prev_output.txid)
                    || matches!(self.st(i.prev_output.txid), Some(TxSt::Mined { .. }))
            });
            if ok {
                self.txs.get_mut(&id).unwrap().st = TxSt::Mined { height, time };
                done.push(id);
            }
        }
        self.blocks.push((height, time, done.clone()));
        done
    }

    /// Disconnects up to `depth` blocks; their transactions return to the mempool.
    pub fn reorg(&mut self, depth: u32) -> Vec<Txid> {
        let mut back = vec![];
        for _ in 0..depth {
            let Some((_, _, ids)) = self.blocks.pop() else { break };
            for id in ids {
                self.txs.get_mut(&id).unwrap().st = TxSt::Mempool;
                back.push(id);
            }
        }
        back
    }

    /// What a node lagging `lag` blocks behind tells about the transaction to the wallet `who`.
    pub fn ord(&self, txid: Txid, who: usize, lag: u32) -> Option<WitnessOrd> {
        let e = self.txs.get(&txid)?;
        Some(match e.st {
            TxSt::Unseen if e.author == who => WitnessOrd::Tentative,
            TxSt::Unseen => return None,
            TxSt::Mempool => WitnessOrd::Tentative,
            TxSt::Mined { height, .. } if height + lag > self.height() && lag > 0 => WitnessOrd::Tentative,
            TxSt::Mined { height, time } => {
                WitnessOrd::Mined(WitnessPos::bitcoin(NonZeroU32::new(height).unwrap(), time).unwrap())
            }
            TxSt::Dropped => WitnessOrd::Archived,
        })
    }

    pub fn visible(&self, txid: Txid, who: usize) -> bool {
        match self.txs.get(&txid) {
            None => false,
            Some(e) => match e.st {
                TxSt::Unseen => e.author == who,
                TxSt::Dropped => self.serve_dropped,
                _ => true,
            },
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum LookupFault {
    #[default]
    None,
    /// Lookups `from..from+count` (0-based, over both kinds of lookup) fail with an error.
    Fail { from: u64, count: u64 },
    /// Lookups of every witness whose id hashes to `salt` modulo `modulo` fail.
    FailIds { salt: u64, modulo: u64 },
}

pub struct Resolver<'c> {
    pub chain: &'c Chain,
    pub who: usize,
    pub lag: u32,
    pub fault: LookupFault,
    pub calls: RefCell<u64>,
    pub failed: RefCell<BTreeSet<Txid>>,
    pub asked: RefCell<BTreeSet<Txid>>,
    /// Replaces the answer for these ids: a lying or confused indexer.
    pub lie: BTreeMap<Txid, Tx>,
}

impl<'c> Resolver<'c> {
    pub fn new(chain: &'c Chain, who: usize) -> Self {
        Resolver {
            chain,
            who,
            lag: 0,
            fault: LookupFault::None,
            calls: RefCell::new(0),
            failed: Default::default(),
            asked: Default::default(),
            lie: Default::default(),
        }
    }

    pub fn hits(fault: &LookupFault, txid: Txid) -> bool {
        match fault {
            LookupFault::FailIds { salt, modulo } => {
                let b: [u8; 32] = txid.to_byte_array_();
                crate::rng::Digest::of(&b) % modulo == *salt
            }
            _ => false,
        }
    }

    fn gate(&self, id: XWitnessId) -> Result<Txid, WitnessResolverError> {
        let txid = match id {
            XChain::Bitcoin(txid) => txid,
            _ => return Err(WitnessResolverError::Unknown(id)),
        };
        let n = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        self.asked.borrow_mut().insert(txid);
        let bad = match &self.fault {
            LookupFault::None => false,
            LookupFault::Fail { from, count } => n >= *from && n < from + count,
            f => Self::hits(f, txid),
        };
        if bad {
            self.failed.borrow_mut().insert(txid);
            return Err(WitnessResolverError::Other(id, s!("simulated connectivity failure")));
        }
        Ok(txid)
    }
}

impl ResolveWitness for Resolver<'_> {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        let txid = self.gate(id)?;
        if let Some(tx) = self.lie.get(&txid) {
            return Ok(XChain::Bitcoin(tx.clone()));
        }
        if !self.chain.visible(txid, self.who) {
            return Err(WitnessResolverError::Unknown(id));
        }
        Ok(XChain::Bitcoin(self.chain.txs[&txid].tx.clone()))
    }

    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        let txid = self.gate(id)?;
        self.chain
            .ord(txid, self.who, self.lag)
            .ok_or(WitnessResolverError::Unknown(id))
    }
}

pub trait TxidBytes {
    fn to_byte_array_(&self) -> [u8; 32];
}
impl TxidBytes for Txid {
    fn to_byte_array_(&self) -> [u8; 32] {
        use amplify::ByteArray;
        self.to_byte_array()
    }
}
