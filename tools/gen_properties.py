#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the entries stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

STOCK = "src/persistence/stock.rs"; MEM = "src/persistence/memory.rs"; STASH = "src/persistence/stash.rs"
STATE = "src/persistence/state.rs"; INDEX = "src/persistence/index.rs"; FS = "src/persistence/fs.rs"
CONS = "src/containers/consignment.rs"; PART = "src/containers/partials.rs"; IDXD = "src/containers/indexed.rs"
ANCH = "src/containers/anchors.rs"; MERGE = "src/contract/merge_reveal.rs"; ASG = "src/contract/assignments.rs"
BUILD = "src/interface/builder.rs"; CIF = "src/interface/contract.rs"; FILE = "src/containers/file.rs"
KIT = "src/containers/kit.rs"; SUPPL = "src/containers/suppl.rs"; INFO = "src/info.rs"
INV = "invoice/src/invoice.rs"; PARSE = "invoice/src/parse.rs"; AMT = "invoice/src/amount.rs"; INVD = "invoice/src/data.rs"
NOW = "The repository's tests never run a stock with content: they cover constants, string formats and empty-stock calls only."

prop("C01", "A payment made against an invoice validates and arrives in full",
  "When a payer composes a payment for an invoice, anchors it in a transaction and exports the transfer, every recipient that sees the same chain validates that transfer without failures and accepts it. After acceptance the recipient's stock reports exactly the invoiced state of that contract on the seal named by the invoice. This holds for blinded and for witness-output beneficiaries, for both commitment methods, and for any earlier history of the contract.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "Every contract history (splits, merges, blank transitions, several contracts in one transaction, both seal closing methods, re-sent or delayed messages) and every delivery schedule.",
  NOW + " A payment needs issue, invoice, composition, anchoring, export, validation and acceptance to agree over a history.",
  [STOCK, BUILD, PART, IDXD, ANCH, CONS], [("payment composition", STOCK), ("consignment assembly", STOCK), ("bundle and anchor assembly", PART), ("validation wrapper", CONS)],
  ["Stock::compose", "Stock::transfer", "Consignment::validate", "Stock::accept_transfer", "Stock::contract_assignments_for"])

prop("C02", "Reported state equals what known operations and the chain imply",
  "At any moment the owned state (of every kind) and the global state a stock reports for a contract are exactly those created, at seals the stock can see, by the operations it has been given whose witness transaction it last learned to be mined or tentative, plus genesis. State of operations whose witness was dropped from the chain disappears and comes back if the witness returns; nothing else changes what is reported. Global values are reported in consensus order, limited to the declared maximum number of most recent items.",
  ["histories", "schedules", "fault_sequences"],
  "Every sequence of imports, payments, mined blocks, reorganisations, replaced transactions and witness updates.",
  NOW + " Reorganisation and replacement sequences are not exercised at all.",
  [MEM, STATE, ASG, CIF], [("witness-filtered readers", MEM), ("state update from consignment and bundle", STATE), ("assignment identity", ASG)],
  ["Stock::contract_state", "Stock::contract_assignments_for", "Stock::contract_iface"],
  [("witness ordering table", "last learned status of each witness transaction", MEM), ("contract history", "owned and global state per contract", MEM)])

prop("C03", "Composed payments conserve every piece of spent state",
  "A composed batch spends, for every contract, all state the stock knows on the spent outputs, and reassigns all of it: the beneficiary gets exactly the invoiced amount or allocation, and everything else (change, other state types, other contracts, both closing methods) returns to outputs chosen by the payer. Nothing is created, lost, merged or duplicated, and no state of the spent outputs is left without a successor. If the inputs cannot cover the invoice the composition is refused.",
  ["histories", "inputs", "configurations"],
  "Every wallet content and choice of spent outputs: several allocations per output, several contracts, all state kinds, both closing methods, colliding seals, amounts up to the numeric limit.",
  NOW + " Composition is never called with any state.",
  [STOCK, BUILD, PART], [("input collection and change", STOCK), ("transition builder", BUILD), ("batch container", PART)],
  ["Stock::compose", "Stock::compose_deterministic", "Batch"])

prop("C04", "Damaged or forged data never creates or alters accepted state",
  "Whatever bytes arrive as a consignment, a stock only ever takes in operations that the contract's participants really made and anchored. Consignments that are corrupted, truncated, spliced with other data, unanchored or anchored in unknown transactions are rejected and leave the stock as it was, so the live amount of an asset never exceeds what was issued. An authentic consignment is never rejected.",
  ["inputs", "fault_sequences", "histories"],
  "Every corruption in transit (bit flips, truncation, extension, splicing of fields between consignments) of every consignment of every history.",
  NOW + " No test feeds a damaged consignment.",
  [CONS, IDXD, STOCK, STASH, ANCH], [("consignment validation", CONS), ("indexed consignment", IDXD), ("valid-consignment type barrier", CONS)],
  ["Consignment::validate", "Stock::accept_transfer", "Stock::import_contract", "Stock::contract_state"])

prop("C05", "Import order, repetition and interleaving do not matter",
  "Stocks that are given the same set of contracts, transfers and schema kits end up reporting the same contracts, state, interfaces and exportable history, whatever the order in which valid items arrive, however often each is repeated and however they interleave with other operations. Repeating an import changes nothing.",
  ["schedules", "histories", "fault_sequences"],
  "Every permutation, duplication and interleaving of deliveries with other activity.",
  NOW + " Nothing is imported even once.",
  [STASH, MEM, INDEX, MERGE, STATE], [("idempotent replace and merge", STASH), ("index registration", INDEX), ("state registration", MEM)],
  ["Stock::import_contract", "Stock::accept_transfer", "Stock::import_kit", "Stock::contract_state", "Stock::transfer"])

prop("C06", "Knowledge only grows: accepting data never loses what was known",
  "Accepting further consignments, fascias or kits never removes or conceals anything the stock already knew: transitions, revealed seals and states, witness transactions, proofs for other contracts in the same transaction, interfaces, implementations, supplements and signatures stay available. When a later item reveals more about something known, the revealed part is kept together with the earlier part. Whatever could be exported before can still be exported afterwards as long as its witnesses stay valid.",
  ["histories", "schedules", "inputs"],
  "Every history in which the same bundle, witness or contract is learned in several partially concealed versions in any order.",
  NOW + " Merging of partially revealed data has no test.",
  [MERGE, STASH, MEM, ANCH], [("merge of revealed data", MERGE), ("anchor merging", ANCH), ("stash consumption", STASH)],
  ["Stock::transfer", "Stock::as_stash_provider", "Stock::contract_state"])

prop("C07", "Witness status updates mirror the chain and report honestly",
  "After a witness update every witness the stock was asked to refresh has exactly the status the chain source returned for it, every witness whose lookup failed keeps its former status and is reported as failed, and witnesses settled below the requested height are left alone. The reported number of successes counts exactly the witnesses refreshed. No other state changes.",
  ["schedules", "fault_sequences", "histories"],
  "Every history of blocks, reorganisations and replacements and every pattern of failing lookups.",
  NOW,
  [MEM, STATE, STOCK], [("witness refresh loop", MEM)],
  ["Stock::update_witnesses", "ContractStateRead::witness_ord", "Stock::contract_state"],
  [("witness ordering table", "status per witness", MEM)])

prop("C08", "A crash never costs acknowledged data in an autosaving stock",
  "If the process dies at any moment while an autosaving, disk-backed stock works, the stock can be loaded again from what reached the disk. The loaded stock contains everything every completed operation stored, and repeating the interrupted operation brings it to the same state as if no crash had happened. This also holds when writes are torn or fail.",
  ["crash_points", "fault_sequences", "histories"],
  "Every crash point between and inside disk operations, with unsynced data surviving in part, fully or not at all.",
  "The tests never write a stock to disk, and a test cannot stop the process inside a write.",
  [FS, MEM, STOCK, STASH, INDEX, STATE], [("file-backed persistence provider", FS), ("transaction commit", STOCK)],
  ["Stock::load", "Stock::make_persistent", "Stock::contract_state"])

prop("C09", "A failed operation leaves the stock as it was",
  "When importing, accepting, consuming, updating or saving returns an error, for instance because the chain source fails midway or the disk is full, the stock keeps working and reports the same contracts, state and history as before the call. Repeating the operation once the cause is gone succeeds with the same result as if the failure had never happened. No such failure ever aborts the process.",
  ["fault_sequences", "schedules", "histories"],
  "Every position at which a witness lookup or disk operation can fail during every operation.",
  "The tests inject no failures.",
  [STOCK, MEM, STASH, STATE, INDEX], [("store transaction with rollback", STOCK), ("in-memory providers", MEM)],
  ["Stock::accept_transfer", "Stock::consume_fascia", "Stock::import_contract", "Stock::import_kit", "Stock::store_secret_seal"])

prop("C10", "Saving and loading a stock reproduces it exactly",
  "After an explicit save reports success, loading from the same place gives a stock that behaves identically to the one saved: same contracts, state, exports and secrets. This holds with and without autosaving, and when short or interrupted reads and writes occur; a save or load that could not complete reports an error instead of succeeding with partial data.",
  ["histories", "configurations", "fault_sequences"],
  "Every stock content, autosave on or off, and every pattern of short, interrupted or failing I/O.",
  "The tests never save or load a stock.",
  [FS, MEM, STOCK], [("file-backed persistence provider", FS), ("persistence of providers", MEM)],
  ["Stock::store", "Stock::load", "Stock::make_persistent"])

prop("C11", "Files and armored texts carry containers intact or fail loudly",
  "A contract, transfer or kit written to a file, stream or armored text and read back is identical, with the same identifiers, however the transport splits or delays the bytes. If the transport truncates, corrupts or fails, reading reports an error or yields content whose own identity and validation expose the change; it never aborts and never yields a different container under the original identifier. Writing reports failure whenever not everything was written.",
  ["inputs", "fault_sequences"],
  "Every container of every simulated history and every short, interrupted, failing, truncated or corrupted transfer of its bytes.",
  "The tests check one armor roundtrip of defaults and no faulty transport.",
  [FILE, CONS, KIT, SUPPL], [("file content encoding", FILE), ("armor encoding", CONS)],
  ["FileContent::save/load", "Consignment Display/FromStr", "consignment_id"])

prop("C12", "Deterministic composition and exports do not depend on chance",
  "With the same stock content and the same arguments, deterministic composition yields the same batch, and exporting a contract, a transfer or a schema yields the same bytes, in every process and on every run, also after saving and loading the stock. Identifiers announced for composed transitions are the identifiers those transitions really have.",
  ["schedules", "configurations", "histories"],
  "Every hash-map seed, process, random stream and clock, and every stock content.",
  "One process run samples one hash seed; nothing is composed or exported in the tests.",
  [STOCK, BUILD, PART, KIT], [("deterministic composition", STOCK), ("builder collections", BUILD), ("batch priorities", PART)],
  ["Stock::compose_deterministic", "Stock::transfer", "Stock::export_contract", "Stock::export_schema"])

prop("C13", "An issued contract holds exactly what the issuer put into it",
  "A contract assembled from global, owned (fungible, structured, rights, attachment) and meta data contains all of it and nothing else, validates, and after import reports exactly this state; the announced time and network are those given or read from the clock. Issuing deterministically with the same data yields the same contract identifier. Data not allowed by the schema or interface is refused by an error.",
  ["inputs", "histories", "configurations"],
  "Every combination and order of added state, repeated names and seals, both networks, and every clock reading.",
  NOW + " The builder is never run to completion.",
  [BUILD, STASH, CIF], [("contract builder", BUILD)],
  ["ContractBuilder", "Stock::import_contract", "Stock::contract_iface"])

prop("C14", "Invoices mean the same to payer and payee, and expire on time",
  "An invoice sent as text and parsed by the payer has exactly the contract, interface, operation, assignment, state, beneficiary, network, transports, expiry and extra parameters the payee put in. Text damaged on the way is parsed or refused but never aborts the payer. An invoice is refused as expired exactly when the payer's clock is past its expiry.",
  ["inputs", "schedules", "fault_sequences"],
  "Every invoice a wallet can build, every corruption of its text, and every clock skew or jump between issue and payment.",
  "The tests parse a dozen fixed strings and never consult the clock.",
  [PARSE, INV, AMT, INVD, STOCK, "invoice/src/builder.rs"], [("invoice text format", PARSE), ("expiry check", STOCK)],
  ["RgbInvoice Display/FromStr", "Stock::compose"])

prop("C15", "Outpoint lookups find every contract and assignment, and no other",
  "For any set of transaction outputs a stock names exactly the contracts that have assigned state to them in operations it knows, and lists exactly the assignments currently reported on those outputs, for every contract, state kind and closing method. Exporting a transfer for an output includes every operation that assigned state to it, together with the full history back to genesis.",
  ["histories", "schedules", "inputs"],
  "Every history and every set of queried outputs.",
  NOW,
  [INDEX, MEM, STOCK], [("outpoint and terminal index", MEM), ("opout lookup", INDEX)],
  ["Stock::contracts_assigning", "Stock::contract_assignments_for", "Stock::transfer"],
  [("contract index", "outpoint to assignments map", MEM)])

prop("C16", "Work stays proportional to history size",
  "Exporting, validating, accepting and composing finish within an effort that grows about linearly with the number of operations in the contract history involved, whatever the shape of the history. No history that can be built with ordinary payments makes an operation run away.",
  ["histories", "inputs"],
  "Every history shape, in particular long chains, wide fans and repeatedly split and merged state.",
  "The tests hold no history; the effort only explodes on particular shapes of growing depth.",
  [STOCK, INDEX, IDXD], [("history collection", STOCK)],
  ["Stock::transfer", "Stock::export_contract", "Consignment::validate", "Stock::accept_transfer", "Stock::compose"])

prop("C17", "Unusual or hostile requests are answered with errors, not aborts",
  "No invoice, kit, consignment or request that a caller or peer can form makes a stock abort: unsupported or unknown contracts, interfaces, operations, state kinds, outputs without live state, incomplete kits and overlapping requests are answered with an error or a correct result. After such a request the stock is unchanged and keeps serving others.",
  ["inputs", "histories", "schedules"],
  "Every well-typed but odd request at every point of every history.",
  "The tests call stock functions only on an empty stock.",
  [STOCK, STASH, BUILD, KIT, INDEX], [("error returns in composition and export", STOCK), ("kit import", STASH)],
  ["Stock::compose", "Stock::transfer", "Stock::import_kit", "Stock::transition_builder"])

prop("C18", "Blinded seals stay private and their owner always finds the state",
  "A transfer paying a blinded seal, and everything the payer stores or exports about it, never reveals the output behind that seal. A stock holding the secret of the seal reports the state once it accepts the transfer, also when it had taken the same transfer before it got the secret and however often the transfer arrives; any other stock never reports it.",
  ["schedules", "histories", "fault_sequences"],
  "Storing secrets before and between repeated receptions of transfers, repeated and crossing payments, restarts in between.",
  NOW,
  [STASH, STOCK, CONS, "src/containers/seal.rs", PART], [("secret resolution at acceptance", STASH), ("terminal seals", CONS)],
  ["Stock::store_secret_seal", "Stock::accept_transfer", "Stock::transfer", "Stock::contract_state"],
  [("secret seals", "seals whose secrets the stock holds", MEM)])

prop("C19", "Interface views and history agree with the contract state",
  "What an interface shows of a contract (named allocations, global values, totals under an output filter, and the list of past operations with amounts sent and received) agrees with the raw state: filtered views contain exactly the matching items, the operations list names each known operation that touched the filtered outputs once with its correct direction, beneficiaries and witness. The lists of contracts, schemata and interfaces, also those by class of interface, name each known one once with what its definition gives, and no view aborts on any state a stock can hold.",
  ["histories", "inputs"],
  "Every history and every output filter.",
  NOW,
  [CIF, "src/interface/filter.rs", ASG, INFO], [("interface view of contract", CIF), ("history extraction", CIF)],
  ["Stock::contract_iface", "ContractIface::history", "ContractIface::fungible", "Stock::contracts", "Stock::schemata", "Stock::ifaces", "Stock::contracts_by"])

prop("C20", "Interface inheritance and implementation checks accept only sound ones",
  "An interface extension or an interface implementation is accepted exactly when it is consistent with the parent interfaces and the schema; every violation is reported.",
  ["inputs", "programs"], "Every interface, implementation and schema.",
  "The tests check a handful of fixed interfaces.",
  ["src/interface/inheritance.rs", "src/interface/iface.rs", "src/interface/iimpl.rs"], [("consistency checks", "src/interface/iface.rs")],
  ["Iface::check", "IfaceImpl::check"])

prop("C21", "Amount arithmetic and formatting are exact",
  "Conversions between raw amounts and decimal coin amounts never lose or invent units and overflow is reported.",
  ["inputs"], "Every amount and precision.", "The tests sample a few amounts.",
  [AMT], [("amount conversions", AMT)], ["Amount", "CoinAmount"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
