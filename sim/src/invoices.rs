//! C14: invoices with everything a payee can put into them, and texts damaged on the way.

use std::str::FromStr;

use amplify::ByteArray;
use bp::{PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
use rgbinvoice::{
    AddressPayload, Allocation, Amount, Beneficiary, ChainNet, InvoiceState, NonFungible, Pay2Vout, Precision, RgbInvoice, RgbInvoiceBuilder, RgbTransport,
    XChainNet,
};
use rgbstd::{AttachId, ContractId, SecretSeal};

use crate::rng::Rng;
use crate::world::{guard, World};

const NETS: [ChainNet; 6] = [
    ChainNet::BitcoinMainnet,
    ChainNet::BitcoinTestnet,
    ChainNet::BitcoinSignet,
    ChainNet::BitcoinRegtest,
    ChainNet::LiquidMainnet,
    ChainNet::LiquidTestnet,
];

fn word(r: &mut Rng) -> String {
    // including everything which has a meaning in a URI
    let set: Vec<char> = "abcXYZ019-_.~!$&'()*+,;=:@/?#[]% \"<>\\^`{|}\u{e9}\u{4e16}\n\t".chars().collect();
    let n = 1 + r.below(8);
    (0..n).map(|_| *r.pick(&set).unwrap()).collect()
}

fn host(r: &mut Rng) -> String {
    let set: Vec<char> = "abcXYZ019-.:/?#&=+% @;".chars().collect();
    if r.chance(1, 2) {
        return ["example.com", "127.0.0.1:8080", "node.onion/path/json", "[::1]:3000", "host/?a=b&c=d"][r.below(5) as usize]
            .to_string();
    }
    let n = 1 + r.below(12);
    (0..n).map(|_| *r.pick(&set).unwrap()).collect()
}

pub fn payload(r: &mut Rng) -> AddressPayload {
    let b = r.bytes32();
    let mut h = [0u8; 20];
    h.copy_from_slice(&b[..20]);
    match r.below(5) {
        0 => AddressPayload::Pkh(PubkeyHash::from(h)),
        1 => AddressPayload::Sh(ScriptHash::from(h)),
        2 => AddressPayload::Wpkh(WPubkeyHash::from(h)),
        3 => AddressPayload::Wsh(WScriptHash::from(b)),
        _ => {
            let pk = crate::chain::internal_pk(r);
            AddressPayload::Tr(pk.to_output_pk(None).0)
        }
    }
}

impl World {
    pub fn any_invoice(&mut self, r: &mut Rng) -> RgbInvoice {
        let net = NETS[r.below(6) as usize];
        let beneficiary = if r.chance(1, 2) {
            Beneficiary::BlindedSeal(SecretSeal::from_byte_array(r.bytes32()))
        } else {
            Beneficiary::WitnessVout(Pay2Vout { method: World::pick_method(r), address: payload(r) })
        };
        let payee = XChainNet::with(net, beneficiary);
        let contract = r.pick(&self.truth.contract_order).copied().unwrap_or(ContractId::from_byte_array(r.bytes32()));
        // what the finished invoice has to say
        let mut want = RgbInvoiceBuilder::new(payee.clone()).finish();
        want.transports = vec![RgbTransport::UnspecifiedMeans];
        want.contract = None;
        want.iface = None;
        want.operation = None;
        want.assignment = None;
        want.beneficiary = payee.clone();
        want.owned_state = InvoiceState::Void;
        want.expiry = None;
        want.unknown_query.clear();
        // An invoice naming the contract has to name the interface as well
        let named = r.chance(3, 4);
        if named {
            want.contract = Some(contract);
        }
        let start = r.below(5);
        if start == 0 {
            want.iface = Some("RGB20".into());
        }
        let mut b = match (named, start) {
            (true, 0) => RgbInvoiceBuilder::rgb20(contract, payee),
            (false, 0) => RgbInvoiceBuilder::rgb20_anything(payee),
            (true, 1) => RgbInvoiceBuilder::with(contract, payee),
            (true, _) => RgbInvoiceBuilder::new(payee).set_contract(contract),
            (false, _) => RgbInvoiceBuilder::new(payee),
        };
        if (named && want.iface.is_none()) || r.chance(1, 2) {
            let name = ["SimAsset", "RGB20", "A", "Name20"][r.below(4) as usize];
            b = b.set_interface(name);
            want.iface = Some(name.into());
        }
        if r.chance(1, 2) {
            let name = ["transfer", "issue", "transferToken"][r.below(3) as usize];
            b = b.set_operation(name);
            want.operation = Some(name.into());
        }
        if r.chance(1, 2) {
            let name = ["asset", "beneficiary", "token"][r.below(3) as usize];
            b = b.set_assignment(name);
            want.assignment = Some(name.into());
        }
        for _ in 0..1 + r.below(2) {
            match r.below(7) {
                0 | 1 => {}
                2 | 3 => {
                    let a = *r.pick(&[0u64, 1, 10, u64::MAX, u64::MAX - 1, 1 << 63, want.expiry.unwrap_or(7) as u64]).unwrap();
                    let a = if r.chance(1, 2) { a } else { r.next() };
                    b = b.set_amount_raw(a);
                    want.owned_state = InvoiceState::Amount(Amount::from(a));
                }
                4 => {
                    let (i, f) = (r.next() as u32 >> r.below(32), r.next() >> r.below(64));
                    b = b.set_allocation_raw(Allocation::with(i, f));
                    want.owned_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(i, f)));
                }
                5 => {
                    let (i, f) = (r.next() as u32 >> r.below(32), r.next() >> r.below(64));
                    b = match b.set_allocation(i, f) {
                        Ok(b) => b,
                        Err(b) => {
                            self.fail(&["C14"], s!("an allocation is refused by the invoice builder"));
                            b
                        }
                    };
                    want.owned_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(i, f)));
                }
                _ => {
                    // coins and cents, also more of them than fit
                    let (ten, p) = (r.below(19) as u32, r.below(64));
                    let int = r.next() >> p;
                    let cents = match r.below(4) {
                        0 => 0,
                        1 => 10u64.pow(ten) - 1,
                        2 => 10u64.pow(ten),
                        _ => r.below(10u64.pow(ten)),
                    };
                    let precision = Precision::try_from(ten as u8).expect("up to 18");
                    let sum = int as u128 * 10u128.pow(ten) + cents as u128;
                    let fits = cents < 10u64.pow(ten) && sum <= u64::MAX as u128;
                    b = match (b.set_amount(int, cents, precision), fits) {
                        (Ok(b), true) => {
                            want.owned_state = InvoiceState::Amount(Amount::from(sum as u64));
                            b
                        }
                        (Err(b), false) => b,
                        (Ok(b) | Err(b), _) => {
                            self.fail(&["C14"], format!("amount {int}.{cents} of {ten} digits: the builder is wrong, fitting {fits}"));
                            b
                        }
                    };
                }
            }
        }
        if r.chance(1, 2) {
            let t = match r.below(5) {
                0 => 0,
                1 => -(r.below(1 << 40) as i64),
                2 => *r.pick(&[i64::MAX, i64::MIN, -1, 1]).unwrap(),
                _ => self.now + r.below(100_000) as i64,
            };
            b = b.set_expiry_timestamp(t);
            want.expiry = Some(t);
        }
        let mut routes = vec![];
        for _ in 0..r.below(4) * r.below(2) {
            let tls = r.chance(1, 2);
            let host = host(r);
            routes.push(match r.below(4) {
                0 => (["rpc", "rpcs"][tls as usize], RgbTransport::JsonRpc { tls, host }),
                1 => (["http", "https"][tls as usize], RgbTransport::RestHttp { tls, host }),
                2 => (["ws", "wss"][tls as usize], RgbTransport::WebSockets { tls, host }),
                _ => (["rpc", "rpcs"][tls as usize], RgbTransport::JsonRpc { tls, host }),
            });
        }
        let text = |t: &(&str, RgbTransport)| match &t.1 {
            RgbTransport::JsonRpc { host, .. } | RgbTransport::RestHttp { host, .. } | RgbTransport::WebSockets { host, .. } => {
                format!("{}://{host}", t.0)
            }
            _ => String::new(),
        };
        let texts: Vec<String> = routes.iter().map(text).collect();
        let refused = |b: RgbInvoiceBuilder, w: &mut World| {
            w.fail(&["C14"], s!("a route is refused by the invoice builder"));
            b
        };
        match r.below(4) {
            0 => {
                for t in &routes {
                    b = b.add_transport_raw(t.1.clone());
                }
            }
            1 => b = b.add_transports_raw(routes.iter().map(|t| t.1.clone())),
            2 => {
                for t in &texts {
                    b = match b.add_transport(t) {
                        Ok(b) => b,
                        Err((b, _)) => refused(b, self),
                    };
                }
            }
            _ => {
                b = match b.add_transports(texts.iter().map(|t| t.as_str())) {
                    Ok(b) => b,
                    Err((b, _)) => refused(b, self),
                }
            }
        }
        if !routes.is_empty() {
            want.transports = routes.into_iter().map(|t| t.1).collect();
        }
        if r.chance(1, 6) {
            // nothing of a list with a senseless route is taken
            let list = ["rpc://host", ["", "rpc", "rpc://", "ftp://host", "RPC:/host"][r.below(5) as usize]];
            b = match b.add_transports(list) {
                Err((b, _)) => b,
                Ok(b) => {
                    self.fail(&["C14"], format!("the invoice builder takes the route {:?}", list[1]));
                    b
                }
            };
        }
        if b.clone().finish() != want {
            let what = differences(&b.clone().finish(), &want);
            self.fail(&["C14"], format!("the invoice built has other {what}: {}", want.to_string()));
        }
        let mut inv = b.finish();
        if r.chance(1, 12) {
            inv.owned_state = InvoiceState::Attach(AttachId::from_byte_array(r.bytes32()));
        }
        for _ in 0..r.below(3) {
            let k = word(r);
            let v = if r.chance(1, 6) { String::new() } else { word(r) };
            if !["expiry", "endpoints", "assignment_name", "assignment"].contains(&k.as_str()) {
                inv.unknown_query.insert(k, v);
            }
        }
        inv
    }

    pub fn inv_x(&mut self, r: &mut Rng) {
        let inv = self.any_invoice(r);
        let text = match guard(|| inv.to_string()) {
            Ok(t) => t,
            Err(p) => return self.fail(&["C14", "C17"], format!("writing an invoice aborts: {p}")),
        };
        self.count("invoices carried");
        match guard(|| RgbInvoice::from_str(&text)) {
            Ok(Ok(back)) if back == inv => {}
            Ok(Ok(back)) => {
                let what = differences(&back, &inv);
                self.fail(&["C14"], format!("invoice reads back with other {what}: {text}"));
            }
            Ok(Err(e)) => self.fail(&["C14"], format!("own invoice text is not parsed: {e:?}: {text}")),
            Err(p) => self.fail(&["C14", "C17"], format!("parsing of an invoice aborts: {p}: {text}")),
        }
        // the short form means the same
        if r.chance(1, 3) {
            match guard(|| RgbInvoice::from_str(&format!("{inv:#}"))) {
                Ok(Ok(back)) if back == inv => {}
                Ok(Ok(back)) => {
                    self.fail(&["C14"], format!("short invoice has other {}: {inv:#}", differences(&back, &inv)))
                }
                Ok(Err(e)) => self.fail(&["C14"], format!("own short invoice text is not parsed: {e:?}: {inv:#}")),
                Err(p) => self.fail(&["C14", "C17"], format!("parsing of a short invoice aborts: {p}: {inv:#}")),
            }
        }
        // damaged on the way
        for _ in 0..3 {
            let bad = damage_invoice(r, &text);
            match guard(|| RgbInvoice::from_str(&bad)) {
                Ok(Ok(inv)) => {
                    // whatever was understood must be stable
                    match guard(|| RgbInvoice::from_str(&inv.to_string())) {
                        Ok(Ok(again)) if again == inv => {}
                        Ok(Ok(_)) => self.fail(&["C14"], format!("invoice means something else when passed on: {bad:?}")),
                        Ok(Err(e)) => self.fail(&["C14"], format!("understood invoice can't be passed on: {e:?}: {bad:?}")),
                        Err(p) => self.fail(&["C14", "C17"], format!("passing on an invoice aborts: {p}: {bad:?}")),
                    }
                }
                Ok(Err(_)) => self.count("damaged invoices refused"),
                Err(p) => self.fail(&["C14", "C17"], format!("parsing of a damaged invoice aborts: {p}: {bad:?}")),
            }
        }
        // expiry around the very moment
        if r.chance(1, 2) {
            self.expiring(r);
        }
    }

    /// A payable invoice which expires right now, a second ago or in a second on the payer's clock.
    fn expiring(&mut self, r: &mut Rng) {
        let Some((w, c, what)) = self.payable(r) else { return };
        let Some(n) = self.invoice(r, w, c, what.clone()) else { return };
        let clock = self.now + self.wallets[w].skew_s;
        let off = *r.pick(&[-86400i64, -60, -1, 0, 1, 2, 60, 86400]).unwrap();
        let mut inv = self.invs[n].inv.clone();
        inv.expiry = Some(clock + off);
        self.invs[n].text = inv.to_string();
        self.invs[n].inv = inv;
        self.invs[n].expiry = Some(clock + off);
        self.invs[n].used = true;
        let Some(sel) = self.coin_select(r, w, c, &what, &Default::default()) else { return };
        self.compose(r, w, n, &sel, bp::Vout::from_u32(3));
        self.count("expiries tried");
    }
}

/// What two invoices do not agree in.
fn differences(back: &RgbInvoice, inv: &RgbInvoice) -> String {
    [
        ("transports", back.transports != inv.transports),
        ("contract", back.contract != inv.contract),
        ("interface", back.iface != inv.iface),
        ("operation", back.operation != inv.operation),
        ("assignment", back.assignment != inv.assignment),
        ("beneficiary", back.beneficiary != inv.beneficiary),
        ("state", back.owned_state != inv.owned_state),
        ("expiry", back.expiry != inv.expiry),
        ("parameters", back.unknown_query != inv.unknown_query),
    ]
    .iter()
    .filter(|x| x.1)
    .map(|x| x.0)
    .collect::<Vec<_>>()
    .join(", ")
}

fn damage_invoice(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = c.len() as u64;
        if n == 0 {
            break;
        }
        let i = r.below(n) as usize;
        match r.below(6) {
            0 => {
                c.remove(i);
            }
            1 => c[i] = *r.pick(&['/', '?', '&', '=', '+', '%', ':', '~', ' ', '\u{20ac}', '\u{0}', 'a', '0', '-', '@']).unwrap(),
            2 => c.truncate(i),
            3 => {
                let k = (1 + r.below(12) as usize).min(c.len() - i);
                let part: Vec<char> = c[i..i + k].to_vec();
                let j = r.below(n + 1) as usize;
                for (o, ch) in part.into_iter().enumerate() {
                    c.insert((j + o).min(c.len()), ch);
                }
            }
            4 => {
                let k = (1 + r.below(12) as usize).min(c.len() - i);
                c.drain(i..i + k);
            }
            _ => {
                let ins: Vec<char> = ["//", "?", "&expiry=", "%", "%e2%82", "=", "&=", "bcrt:", "//bc", "endpoints=rpc://", "+"]
                    [r.below(11) as usize]
                    .chars()
                    .collect();
                for (o, ch) in ins.into_iter().enumerate() {
                    c.insert(i + o, ch);
                }
            }
        }
    }
    c.into_iter().collect()
}
