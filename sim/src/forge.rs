//! Damage done to messages by the network and by forgers.

use crate::rng::Rng;

/// Random damage of bytes on the wire.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let n = b.len() as u64;
    match r.below(6) {
        0 => {
            let keep = r.below(n) as usize;
            b.truncate(keep);
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(n) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        2 => {
            let i = r.below(n) as usize;
            b[i] = r.next() as u8;
        }
        3 => {
            // a block is replaced by another block of the same message
            let len = 1 + r.below(64.min(n));
            let i = r.below(n - len + 1) as usize;
            let j = r.below(n - len + 1) as usize;
            let blk = b[i..i + len as usize].to_vec();
            b[j..j + len as usize].copy_from_slice(&blk);
        }
        4 => {
            let i = r.below(n) as usize;
            let k = 1 + r.below(8) as usize;
            for _ in 0..k {
                let x = r.next() as u8;
                b.insert(i, x);
            }
        }
        _ => {
            let i = r.below(n) as usize;
            let k = (1 + r.below(16) as usize).min(b.len() - i);
            b.drain(i..i + k);
        }
    }
}
