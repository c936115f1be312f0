"""What each property says (properties.jsonl), and how its rule decides it (MANIFEST.json, evidence)."""

PROPS = {}


def P(pid, title, statement, over, quant, why, files, mech, rule, note='', assumptions=None, state=None):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, rule=rule, note=note, assumptions=assumptions, state=state)


CRX = 'contracts/connection-router/src/contract/execute.rs'
CRS = 'contracts/connection-router/src/state.rs'
CRC = 'contracts/connection-router/src/contract.rs'

P('R01', 'Only governance changes the chain registry; the admin only freezes',
  'The router\'s record of a chain and its gateway is created or changed only by a call from the governance address fixed at instantiation, '
  'except that the admin address, and only it, can change which directions of an already registered chain are frozen. '
  'Neither address nor the nexus gateway address can change after instantiation.',
  ['inputs', 'histories'], 'every message, every caller, every stored state',
  'The tests try a handful of callers per message; the claim is about every path that reaches a registry write, including paths added later.',
  [CRX, CRC], [('require_governance / require_admin', CRC), ('registry updates', CRX)],
  'every storage write to the chain registry or the configuration reachable from any router entry point must be control-dependent on sender == governance, or on sender == admin with only the frozen field differing from the stored entry')

P('R02', 'A routed message comes from the gateway of its own source chain',
  'The router accepts a batch from anyone but the nexus gateway only if the sender is the registered gateway of a chain, that chain is not frozen for incoming messages, '
  'and every message of the batch names that chain as its source. Otherwise the whole batch is refused and nothing is sent.',
  ['inputs', 'histories'], 'every batch (any length and content), every sender, every registry content',
  'Tests use batches of a few messages and a small registry; the guarantee quantifies over every element of every batch and every registry state.',
  [CRX, CRS], [('validate_msgs', CRX), ('gateway index lookup', CRS)],
  'the condition under which RouteMessages succeeds, given a sender other than the nexus gateway, must imply a lookup of the chain indexed by the sender as gateway, that its incoming direction is not frozen and, for each element of the batch, equality of source chain and that chain\'s name')

P('R03', 'Each routed message reaches exactly its destination chain\'s gateway',
  'Every message of an accepted batch is forwarded, unchanged and exactly to the registered gateway of its destination chain if that chain is registered and not frozen for outgoing messages; '
  'messages for unregistered chains go to the nexus gateway unless they came from it. No message of an accepted batch is left out and the router attaches no funds.',
  ['inputs', 'histories'], 'every batch, every mix of destinations, every registry content',
  'The tests sample destinations; grouping and lookup must be right for every combination, including mixes of registered, frozen and unknown chains.',
  [CRX], [('route_messages', CRX)],
  'for every family of outgoing messages: its elements are the submitted messages unchanged; its address is, under its guard, the gateway loaded for the element\'s own destination (or the nexus gateway when no entry exists); the guard implies not frozen; the families cover the batch')

P('R04', 'A gateway address belongs to one chain and a chain keeps its name',
  'A gateway address is assigned to a chain only after establishing that no chain uses it, a chain can be registered only once, starts unfrozen, and its name never changes. '
  'The lookup by gateway always reflects the stored entries, addresses are validated before they are stored, and nothing ever removes a chain.',
  ['inputs', 'histories'], 'every sequence of registrations, upgrades and freezes with any arguments',
  'Uniqueness across all histories cannot be settled by the few sequences the tests run.',
  [CRX, CRS], [('register_chain / upgrade_gateway', CRX), ('find_chain_for_gateway and index', CRS)],
  'every registry write: key equals the entry\'s name; the condition of a write with a new gateway implies the gateway index (keyed by the entry\'s gateway address, over the same namespace) holds nothing for that address; writes go through the indexed map')

P('R05', 'Freezing and unfreezing change exactly the requested directions',
  'Freezing a chain adds exactly the requested directions to those already frozen, unfreezing removes exactly the requested ones, both leave every other field and every other chain alone, and both fail for unknown chains.',
  ['inputs', 'histories'], 'every direction set, every prior frozen state',
  'Tests sample some combinations of directions; the statement is about all prior states.',
  [CRX, CRS], [('freeze_chain / unfreeze_chain', CRX), ('GatewayDirection', CRS)],
  'the value stored by each of the two messages is the loaded entry with only the frozen field replaced by old | requested, respectively old - requested; the direction constants are distinct bits')

P('R06', 'Router events tell the truth about what happened',
  'Every successful registry change emits the event naming that change with the chain (and gateway) it concerns, and every routed message is reported by an event with its own content; no event claims something that was not done.',
  ['inputs', 'histories'], 'every successful call',
  'Off-chain workers and relayers act on events alone, while the tests seldom look at them.',
  [CRX, 'contracts/connection-router/src/events.rs'], [('events', 'contracts/connection-router/src/events.rs')],
  'event families of each successful response: type string and attribute values must be the ones bound to the message\'s own fields, under the full success condition')

GWX = 'contracts/gateway/src/contract/execute.rs'
P('G01', 'The gateway forwards to the router exactly the verified messages',
  'A message submitted to a gateway by anyone but the router is forwarded to the configured router, unchanged, if and only if the configured verifier currently reports that message verified. '
  'Messages handed over by the router are never sent back to it.',
  ['inputs', 'histories'], 'every batch, every verifier answer, every caller',
  'Tests use fixed verifier answers and small batches; the equivalence must hold for every mix.',
  [GWX], [('route_messages / partition_by_verified', GWX)],
  'every message family sent: receiver is the configured router, elements are submitted messages unchanged, its filter implies (and is implied by) a (id, true) entry of the verifier\'s answer to a query about the whole batch',
  assumptions=['the verifier answers one status per message id (decided for the voting verifier by V03)'])
P('G02', 'Outgoing messages are stored only for the router and returned as stored',
  'Only the router can add messages to a gateway\'s outgoing store, each is kept unchanged under its own id and never removed, and every message of an accepted batch is stored. '
  'A query returns exactly the stored messages for the requested ids, in order, and fails if one is missing.',
  ['inputs', 'histories'], 'every batch, every id list, every history of the store',
  'Universally quantified over stored content and id lists.',
  [GWX, 'contracts/gateway/src/contract/query.rs', 'contracts/gateway/src/state.rs'], [('save_outgoing_msg', 'contracts/gateway/src/state.rs'), ('get_outgoing_messages', 'contracts/gateway/src/contract/query.rs')],
  'writes of the outgoing store are control-dependent on sender == router and bind key = element id, value = element; the query result is, element by element, the load of the requested id, under presence of each')
P('G03', 'A gateway refuses batches that repeat a message id',
  'Verification and routing requests in which two messages carry the same id are refused as a whole.',
  ['inputs'], 'every batch of every length',
  'The tests only try one shape of duplication.',
  [GWX], [('ensure_unique_ids', GWX)],
  'the success condition of both messages implies injectivity of the id over the whole batch (duplicate set empty, or all-unique, or set size equals batch size)')
P('G04', 'Exactly the not yet verified messages are sent for verification',
  'A verification request is passed to the configured verifier with exactly those submitted messages, unchanged, that the verifier does not already report verified, and with none of the others; it changes no state of the gateway.',
  ['inputs', 'histories'], 'every batch, every verifier answer',
  'Tests use fixed verifier answers.',
  [GWX], [('verify_messages', GWX)],
  'the outgoing family\'s receiver, element provenance and filter, in both directions',
  assumptions=['the verifier answers one status per message id (decided for the voting verifier by V03)'])
P('G05', 'Gateway events name each message\'s true outcome',
  'A routing request emits, for every submitted message, a routed event exactly if the message was stored or forwarded and a failure event exactly if it was not, with the message\'s own content.',
  ['inputs', 'histories'], 'every batch, every verifier answer, every caller',
  'Events are what relayers act on; tests look at few of them.',
  [GWX, 'contracts/gateway/src/events.rs'], [('event emission', GWX)],
  'event families ranging over the batch, filtered by exactly the routing condition, with attributes bound to the element\'s fields')

NGX = 'contracts/nexus-gateway/src/contract/execute.rs'
P('N01', 'The nexus gateway serves only the router and nexus, each in one direction',
  'Messages are passed to nexus only when they come from the configured router, and to the router only when they come from the configured nexus address; no other call emits messages and the configuration never changes.',
  ['inputs'], 'every caller and message', 'The tests sample callers.',
  [NGX, 'contracts/nexus-gateway/src/contract.rs'], [('route_to_router / route_to_nexus', NGX)],
  'success conditions of both messages imply the respective sender equality; receivers of all outgoing messages are the configured ones')
P('N02', 'A message is routed to nexus at most once, ever',
  'Each message id is handed to nexus at most once over the whole life of the contract, even if it is repeated within one batch; '
  'a message that was never routed is not dropped, and routed ids are never forgotten.',
  ['inputs', 'histories'], 'every sequence of batches, with any repetition within and across batches',
  'Tests repeat ids across at most two calls against a mock store.',
  [NGX, 'contracts/nexus-gateway/src/state.rs'], [('route_to_nexus', NGX), ('routed message ids', 'contracts/nexus-gateway/src/state.rs')],
  'the guard of every emitted nexus message implies the absence of its id at the moment of its own iteration (not only at the start of the call) and co-occurs with a write of that id; nothing removes ids')
P('N03', 'Conversion to and from nexus messages loses and mixes nothing',
  'Each field of a message passed between router and nexus is the corresponding field of the submitted message, every submitted message is converted, and messages from nexus with different transaction ids or indices get different ids. A message id made of a transaction id and an index is split into exactly those; any other is passed on whole.',
  ['inputs'], 'every message', 'Tests convert a few fixed messages.',
  ['contracts/nexus-gateway/src/nexus.rs', NGX], [('From conversions', 'contracts/nexus-gateway/src/nexus.rs')],
  'field-by-field provenance of the converted message; injectivity of the generated id; no part of a split id is dropped')

P('A01', 'The aggregate verifier passes requests and answers through faithfully',
  'A verification request is forwarded with exactly the submitted messages to the configured verifier and its answer is awaited; a status query is answered with the verifier\'s own answer about exactly the requested messages.',
  ['inputs'], 'every request', 'Tests use two-message batches and a stub verifier.',
  ['contracts/aggregate-verifier/src/contract.rs', 'contracts/aggregate-verifier/src/contract/execute.rs'],
  [('verify_messages', 'contracts/aggregate-verifier/src/contract/execute.rs'), ('query', 'contracts/aggregate-verifier/src/contract.rs')],
  'receiver, content and reply mode of the outgoing message; receiver, content and returned value of the query')

SRX = 'contracts/service-registry/src/contract.rs'
SRS = 'contracts/service-registry/src/state.rs'
P('S01', 'Service and worker records change only for those entitled to change them',
  'Services and worker authorisations are changed only by the governance account fixed at instantiation; a worker changes only its own record and its own chain support, never its authorisation, and only for a known service. '
  'An authorisation call applies to every listed worker, keeps their bond, and no worker record is ever deleted or moved to another worker or service.',
  ['inputs', 'histories'], 'every message, caller and stored state',
  'Tests try single callers and workers; the claim is about every write reachable from any message.',
  [SRX, SRS], [('require_governance', SRX), ('authorize / unauthorize / declare support', SRX)],
  'each storage write is control-dependent on sender == governance (authorisation only), or targets the sender\'s own record with the authorisation unchanged; loops over the listed workers and chains write each element')
P('S02', 'A worker\'s bond is what it paid in, and leaves only to it, once, after unbonding',
  'The bond recorded for a worker grows only by the amount the caller attaches in the bond denomination of the service (nothing else attached is swallowed), and is positive whenever the worker is bonded. '
  'It leaves the record only by being paid out in full to that worker, once, in the bond denomination, after the unbonding period of the service has passed since unbonding began; the registry makes no other payment.',
  ['inputs', 'histories'], 'every sequence of bonding, unbonding and claiming, with any funds attached, at any time',
  'Conservation of funds over all histories and all attached coins cannot be sampled.',
  [SRS, SRX], [('bonding state machine', SRS), ('bond_worker / claim_stake', SRX)],
  'for every pair (stored bonding state, written bonding state) that the source admits: the difference of held amounts equals the attached coin or the amount sent; the release condition implies block time >= unbonding start + period')
P('S03', 'Registry queries answer for exactly the requested worker, service and chain',
  'The active workers of a service and chain are exactly the stored records of workers that declared support for that chain in that service, are authorised, and are bonded with at least the minimum bond. '
  'Worker and service queries return the record requested and fail if there is none.',
  ['inputs', 'histories'], 'every registry content and request', 'Tests use one service and a few workers.',
  [SRX], [('query handlers', 'contracts/service-registry/src/contract.rs')],
  'provenance of the answer (range prefix, record keys) and equivalence of its filter with the three conditions')
P('S04', 'A registered service never changes',
  'A service is stored under its own name with the parameters governance requested, and is never overwritten or removed afterwards.',
  ['inputs', 'histories'], 'every history', 'Tests register one or two services.',
  [SRX], [('register_service', SRX)],
  'every write of the service store is guarded by absence of its key; field provenance')

RWX = 'contracts/rewards/src/contract/execute.rs'
RWS = 'contracts/rewards/src/state.rs'
P('W01', 'Epoch numbers follow block height and never skip when parameters change',
  'Reward parameters are changed only by governance and exactly as requested. A change either keeps the current epoch with its number and start, or, if the new duration would already have ended it, starts the next epoch at the current block; '
  'the epoch number never jumps by more than one and never goes back.',
  ['inputs', 'histories'], 'every height, old and new duration', 'Tests use a few heights and durations.',
  [RWX, RWS], [('update_params / current_epoch', RWX)],
  'provenance of the stored checkpoint as a linear form over the stored checkpoint and the block height, and implication of the no-jump condition')
P('W02', 'Each epoch is paid at most once, in order, and only when it is over',
  'Rewards for a contract are paid for exactly the epochs after the last one paid up to the newly recorded one; the record only moves forward, '
  'and an epoch is paid only once at least two further epochs have begun. No payment happens without moving the record.',
  ['inputs', 'histories'], 'every sequence of distributions at any height with any epoch limit', 'Double payment depends on histories tests do not cover.',
  [RWX, RWS], [('distribute_rewards', RWX), ('rewards watermark', RWS)],
  'guard of the watermark write implies new > old; its value is bounded by current epoch - 2; the range of epochs whose tallies flow into payouts starts at old + 1 and ends at the stored value')
P('W03', 'A rewards pool equals what was paid in minus what was paid out',
  'A pool grows only by the amount attached in the configured reward denomination (nothing else attached is swallowed) and shrinks only by exactly the sum of the payouts made from it, which are made in that denomination and never exceed it. '
  'Rewards earned with one contract are taken from that contract\'s pool only.',
  ['inputs', 'histories'], 'every history of deposits and distributions', 'Conservation over all histories and coin lists.',
  [RWX, RWS, 'contracts/rewards/src/contract.rs'], [('add_rewards / distribute_rewards', RWX), ('rewards pool', RWS)],
  'each pool write differs from the loaded balance by the attached coin or by the sum over the very collection the payouts range over; sufficiency is implied by the guard')
P('W04', 'Participation is counted once per report in the epoch of its event',
  'A report of participation raises by one the count of exactly the named worker in the tally of the reporting contract and of the epoch in which the event first appeared. '
  'An event\'s epoch is fixed by its first report, a new event raises that tally\'s event count by one, and a new tally uses the parameters in force.',
  ['inputs', 'histories'], 'every sequence of reports', 'Tests replay a few sequences.',
  [RWX, RWS], [('record_participation', RWX), ('epoch tally', RWS)],
  'key and value provenance of the event and tally writes, under the two cases known/new event and existing/new tally')
P('W05', 'Rewards of an epoch are split equally among sufficient participants',
  'In each epoch exactly the workers whose share of the tallied events reaches that tally\'s threshold each earn the tally\'s reward per epoch divided by their number, amounts of several epochs add up per worker, and each worker is sent its own amount.',
  ['inputs', 'histories'], 'every tally and range of epochs', 'Tests use small tallies.',
  [RWX, RWS], [('rewards_by_worker', RWS), ('merge_rewards', RWX)],
  'structure of the share computation: filter, divisor (count under the same filter), payee and accumulation, traced to the payout messages')

VVX = 'contracts/voting-verifier/src/execute.rs'
VVQ = 'contracts/voting-verifier/src/query.rs'
VVS = 'contracts/voting-verifier/src/state.rs'
VVE = 'contracts/voting-verifier/src/events.rs'
VOT = 'packages/axelar-wasm-std/src/voting.rs'
SNP = 'packages/axelar-wasm-std/src/snapshot.rs'
P('V01', 'A vote counts once, with the voter\'s own weight, while its poll is open',
  'A vote is accepted only from a participant of the poll who has not voted in it yet, before the poll expires, and with exactly one answer per item; it adds the participant\'s weight once to the answered outcome of each item and records the answers. '
  'Nothing else about an existing poll (id, quorum, size, expiry, kind, weights, other participants) ever changes, except that the poll is marked as finished.',
  ['inputs', 'histories'], 'every poll state, voter, vote vector and height', 'Tests use polls of a few voters and items; the claim is over all states and all histories of votes.',
  [VVX, VOT], [('vote', VVX), ('WeightedPoll::cast_vote / Tallies::tally', VOT)],
  'each write of an existing poll is compared field by field with the loaded poll; a change of participation or tallies must be guarded by membership, absence of a vote, expiry and size, and equal the single-key update and the per-item addition')
P('V02', 'A new poll starts empty with the right voters, quorum and expiry',
  'Every poll gets a never used id, exactly the active workers reported by the registry as participants who have not voted, a quorum equal to the configured threshold of their total weight rounded up, zero tallies for every outcome of every item, and an expiry the configured number of blocks ahead. '
  'The poll counter only increases.',
  ['inputs', 'histories'], 'every set of active workers, every configuration and history', 'Quorum, id freshness and initial state must hold for every snapshot, not the few in the tests.',
  [VVX, VOT, SNP, 'packages/axelar-wasm-std/src/counter.rs'], [('create_messages_poll / create_worker_set_poll', VVX), ('WeightedPoll::new', VOT), ('Snapshot::new', SNP), ('Counter::incr', 'packages/axelar-wasm-std/src/counter.rs')],
  'provenance of every field of a poll written without a stored predecessor, and the counter write implied by the poll write')
P('V03', 'Verified means a quorum of the poll voted that it happened',
  'A message or worker set is reported as verified exactly when it was put to a vote and the votes for success on its own item of that poll reach the poll\'s quorum. '
  'Each requested message gets exactly one answer, labelled with its own id, about exactly this message (all of its fields).',
  ['inputs', 'histories'], 'every message list, every stored poll', 'This is the answer the gateways and provers rely on; tests check a few polls.',
  [VVQ, VVX, VOT], [('is_verified / verification_status', VVQ), ('Tallies::consensus', VOT)],
  'the boolean in each answer is equivalent, for each kind of poll, to the quorum predicate on the tally at the recorded index of the recorded poll; key equality with the writer; content equality implied')
P('V04', 'A poll ends once, after expiry, and reports its outcome truthfully',
  'A poll can be ended once and only after it has expired, which changes nothing but its status. '
  'The announced and returned results are the quorum outcome of each item in order, and participation is reported to the rewards contract for exactly those participants who voted and whose answers agree with every item that reached a quorum.',
  ['inputs', 'histories'], 'every poll state and height', 'Rewards depend on every combination of votes and tallies.',
  [VVX, VOT], [('end_poll', VVX), ('WeightedPoll::finish / state', VOT)],
  'guards and field differences of the status write; equivalence of the report filter with the quantified agreement condition; structure of the results')
P('V05', 'Everything put to a vote is tied to its own item of a fresh poll',
  'Each message or worker set put to a vote is recorded under its own key with the poll created for it in the same call and its own item number in that poll, and no other record appears or disappears. '
  'A message is put to a vote unless it is verified or in a poll still in progress, and a worker set that is verified never is again.',
  ['inputs', 'histories'], 'every batch mixing new, pending, failed and verified messages', 'Item numbers after filtering are exactly what small tests miss.',
  [VVX, VVS, VVQ], [('verify_messages / verify_worker_set', VVX), ('PollContent', VVS)],
  'guards of the poll content writes; index is the position within the very list whose length is the poll size; both directions of the selection condition')
P('V06', 'Voters are the active workers of the configured service and chain',
  'The participants of a poll are asked from the configured service registry, for the configured service and the source chain of the verifier, and only messages of that source chain are accepted. '
  'The configuration is stored as requested (addresses validated) and never changes.',
  ['inputs', 'histories'], 'every request and configuration', 'Tests use a mock registry that ignores the question.',
  [VVX, 'contracts/voting-verifier/src/contract.rs'], [('take_snapshot', VVX), ('verify_messages', VVX)],
  'provenance of the query receiver and payload; success implies the universally quantified source chain equality; configuration writes only at instantiation')
P('V07', 'Poll announcements describe the created poll exactly',
  'Every created poll is announced exactly once, with its id, expiry and participants, the configured source chain, gateway and confirmation height, and its items in the order in which they are voted on. '
  'Each item carries the message\'s own addresses, destination and payload hash, and the transaction id and event index that are the two parts of its message id.',
  ['inputs', 'histories'], 'every created poll', 'Workers vote by position on what the event lists, so a mismatch corrupts every vote; tests hardly look at events.',
  [VVX, VVE], [('PollStarted', VVE), ('parse_message_id', VVE)],
  'event attributes under the success condition compared with the written poll; the event list and the recorded items must be the same comprehension')

MSC = 'contracts/multisig/src/contract.rs'
MSS = 'contracts/multisig/src/signing.rs'
MST = 'contracts/multisig/src/state.rs'
MSK = 'contracts/multisig/src/key.rs'
MSW = 'contracts/multisig/src/worker_set.rs'
MSY = 'contracts/multisig/src/types.rs'

P('M01', 'Only authorised contracts start signing; only governance authorises them',
  'A signing session of the multisig is started only by a caller that governance authorised and has not unauthorised since. '
  'Authorising and unauthorising takes effect for exactly the address named, by governance only, and the governance, rewards and grace period settings never change after instantiation.',
  ['inputs', 'histories'], 'every caller, message and stored state',
  'A signature over a chosen hash is a payout order on a connected chain, so no path to a new session may miss the caller check; tests try a couple of callers.',
  [MSC], [('require_authorized_caller / require_governance', MSC)],
  'every write that creates a session must be control-dependent on the sender being in the authorised set; every write to that set on sender == governance; successes of the two governance calls imply the write')
P('M02', 'A stored signature is a verified one, from a member of the session\'s set',
  'The multisig stores a signature only if its sender is a member of the worker set of the session, and it verifies for the session\'s message under that member\'s key, with the algorithm and length of the key\'s type. '
  'Each member has at most one stored signature per session, which is never replaced or removed, and none is accepted once a completed session\'s grace period is over.',
  ['inputs', 'histories'], 'every session, sender, signature, height',
  'Completion counts stored signatures without verifying them again; the tests sample one valid and a few invalid signatures.',
  [MSC, MSS, MST, MSK], [('submit_signature', MSC), ('validate_session_signature', MSS), ('save_signature', MST), ('Signature::verify', MSK)],
  'the condition of each write to the signature store must imply membership, absence of an earlier signature, not closed, and the success of the right verification primitive applied to exactly (session message, submitted bytes, key of the sender in the loaded set)')
P('M03', 'A session is completed exactly when its signers reach the threshold',
  'A pending session becomes completed, at the current height, exactly when the total weight in its worker set of all signers with a stored signature (the new one included) reaches the threshold of that set. '
  'A completed session never changes again, nothing else of a session ever changes, and completion is announced once, when it happens.',
  ['inputs', 'histories'], 'every sequence of signatures and every weight distribution',
  'Weights are arbitrary numbers and signatures arrive in any order; tests use equal weights.',
  [MSC, MSS], [('recalculate_session_state', MSS), ('signers_weight', MSS), ('submit_signature', MSC)],
  'the stored state is compared under the condition "was pending and the sum over the current signatures reaches the threshold" and its negation; the sum must range over every stored signature of the session read after the new one was written')
P('M04', 'A new session has a fresh id, a registered worker set and the 32 byte hash',
  'Every signing session started gets an id never used before, is pending, and is for exactly the requested and registered worker set and the requested message, which is 32 bytes long. '
  'Its id is returned to the caller and it is announced exactly once with its id, message, chain and the keys of the worker set.',
  ['inputs', 'histories'], 'every request and history',
  'The caller finds its session again only through the returned id, and workers sign what is announced.',
  [MSC, MSY, MSS], [('start_signing_session', MSC), ('MsgToSign::try_from', MSY)],
  'provenance of every field of a session written without a predecessor, counter write implied, data and event compared with the stored session')
P('M05', 'A worker set is stored under the hash of its whole content, forever',
  'Anyone may register a worker set, and it is stored only under an identifier that is the hash of its entire content, so it can neither be replaced by different content nor removed. '
  'Asking for an identifier returns exactly the set stored under it.',
  ['inputs', 'histories'], 'every worker set, every history of registrations',
  'Sessions refer to worker sets by identifier only; the tests register a single set.',
  [MSC, MSW], [('register_worker_set', MSC), ('WorkerSet::hash', MSW)],
  'the key of each write to the worker set store must be a digest of one serialisation of precisely the stored value; no removal exists')
P('M06', 'A public key is registered by its owner, under its type, with a valid length',
  'A public key enters the multisig only if its length fits its type, is stored under the sender and exactly its own type, and is reported only to queries for this address and type, as this type.',
  ['inputs', 'histories'], 'every key, owner and type',
  'Length checks sit in hand-written decoders and conversions for each type; tests cover a few values.',
  [MSC, MSK], [('register_pub_key', MSC), ('deserialize_ecdsa_key / deserialize_ed25519_key', MSK), ('PublicKey::try_from', MSK)],
  'key, type tag and bytes of the write agree under each variant; the message decoder of each variant reaches the checked conversion (call graph of the generic code); the conversion succeeds only for the lengths of the type')
P('M07', 'Each accepted signature is reported once as participation of its signer',
  'For each signature accepted, and only then, the multisig reports exactly one participation, of the sender in this session, to the configured rewards contract, without funds.',
  ['inputs', 'histories'], 'every message and state',
  'Rewards are paid on these reports; tests look at one response.',
  [MSC], [('signing_response', MSC)],
  'messages of every successful response compared with the signature write of the same execution')
P('M08', 'A session\'s report is its state with each signer\'s own signature',
  'The report on a session carries its stored state, the threshold of its worker set, and each member of that set exactly once with the signature this member stored for this session, if any.',
  ['inputs', 'histories'], 'every session, set of signers and signatures',
  'The prover builds proofs from this report only; tests check one session.',
  [MSC, MST], [('query::get_multisig', MSC), ('load_session_signatures', MST)],
  'the answer is compared field by field with the stored session and set; signature lookup must be keyed by the member\'s own address in both directions')

PRX = 'contracts/multisig-prover/src/execute.rs'
PRQ = 'contracts/multisig-prover/src/query.rs'
PRE = 'contracts/multisig-prover/src/encoding/mod.rs'
PRA = 'contracts/multisig-prover/src/encoding/abi.rs'
PRB = 'contracts/multisig-prover/src/encoding/bcs.rs'
PRT = 'contracts/multisig-prover/src/types.rs'
PRR = 'contracts/multisig-prover/src/reply.rs'
PRC = 'contracts/multisig-prover/src/contract.rs'

P('P01', 'The current worker set changes only once the destination confirmed the new one',
  'The prover\'s current worker set is set the first time from the active workers, and afterwards replaced only by exactly the pending set, and only when the configured voting verifier reports that set\'s operators, threshold and order in the configured encoding as confirmed. '
  'The pending set is then cleared, and each set that becomes current, and no other, is registered with the configured multisig.',
  ['inputs', 'histories'], 'every caller, worker set, verifier answer and history',
  'Signing with a set the destination gateway does not know makes every later proof worthless; tests walk through one rotation.',
  [PRX], [('update_worker_set / confirm_worker_set', PRX), ('make_operators', PRE)],
  'guards of every write to the current set imply "none stored" or "pending and confirmed by a query about exactly the operators of the pending set"; registration messages compared with the writes of the same execution')
P('P02', 'A new worker set becomes pending only if it differs and none other is pending',
  'The prover makes a new worker set pending only when a current one exists, when more signers than the configured tolerance joined, left or changed between the two, and when no set with other signers or another threshold is already pending. '
  'A set becomes pending only together with a batch that hands over to it.',
  ['inputs', 'histories'], 'every pair of worker sets and every pending state',
  'Replacing a pending set that is already being confirmed loses the handover; the count of differences runs over arbitrary sets.',
  [PRX], [('should_update_worker_set / different_set_in_progress / save_next_worker_set', PRX)],
  'guard implication for every write to the pending set; the two counted collections are compared with the symmetric difference of both signer sets')
P('P03', 'A worker set is the active workers with their keys and the right threshold',
  'Every worker set the prover makes contains each worker the service registry reports active for the configured service and chain, and nobody else, with its weight and the key that the multisig holds for this very worker and the configured key type. '
  'Its threshold is the configured signing threshold applied, rounding up, to the total weight, and it is dated to the present block.',
  ['inputs'], 'every list of workers, key and threshold',
  'Keys and workers are fetched in separate lists and paired up by position; tests use fixed mocks.',
  [PRX, MSW], [('make_worker_set / get_workers_info', PRX), ('WorkerSet::new', MSW)],
  'provenance of every component of each worker set stored, over the generic worker')
P('P04', 'A batch has one command for each requested message, all for the prover\'s chain',
  'A proof is constructed only if the configured gateway returned as many messages as requested, all destined to the prover\'s chain, and a new batch contains exactly one command for each of these messages and names exactly their ids. '
  'The only other command is at most one handover to the set that becomes pending, and the batch is kept under its own id, for the configured chain id and encoding.',
  ['inputs', 'histories'], 'every request, message list and history',
  'Batches are assembled step by step through a builder; tests check a couple of messages.',
  [PRX, PRE], [('construct_proof / get_messages', PRX), ('CommandBatchBuilder', PRE)],
  'symbolic comprehension of the command list compared with the message list; guards of success imply count and chain conditions')
P('P05', 'Commands carry exactly the approved message or the new operators',
  'A message command is identified by the hash of the message id and carries the message\'s source chain, source address, destination address and payload hash, unchanged and in this order, in either encoding. '
  'A handover command is identified by the hash of the new set and carries the addresses derived from each signer\'s key in ascending order, each with its own weight, and the set\'s threshold.',
  ['inputs'], 'every message and worker set, both encodings',
  'The destination gateway executes these bytes; a swapped field still encodes. Tests pin single examples.',
  [PRE, PRA, PRB], [('make_command / make_transfer_operatorship', PRE), ('command_params / transfer_operatorship_params', PRA), ('command_params / transfer_operatorship_params', PRB)],
  'structure of the encoder arguments compared position by position with fields of the generic message or signer; order tags of sorted traversals')
P('P06', 'The current worker set is asked to sign the hash of the batch that is tracked',
  'For every accepted request the prover asks the configured multisig once to let the current worker set sign, for its own chain, the prefixed hash of the encoding of all commands of a stored batch. '
  'The session id that the multisig returns, and only that, is bound to exactly this batch.',
  ['inputs', 'histories'], 'every request, both encodings, stored and new batches',
  'A signature over anything but the tracked batch moves funds nobody approved; tests look at one encoding of one batch.',
  [PRX, PRE, PRA, PRB, PRR], [('construct_proof / update_worker_set', PRX), ('start_multisig_reply', PRR), ('msg_digest', PRA), ('msg_digest', PRB)],
  'content of the session message compared with the digest term of the batch whose id the same execution leaves for the reply; key and value of the binding write')
P('P07', 'A stored batch is reused only for the same messages',
  'A request is served with an existing batch only if that batch was made for the same message ids and either has no handover or hands over to the very set that becomes pending: the id looked up first depends on nothing but the requested ids, whatever their order, and a new batch of the same messages gets the same id. '
  'The id of a batch with a handover additionally depends on the set handed over to.',
  ['inputs', 'histories'], 'every request and stored batch',
  'The lookup id and the id of a new batch are computed in two places.',
  [PRX, PRT, PRE], [('construct_proof', PRX), ('BatchId::new', PRT), ('CommandBatchBuilder::build', PRE)],
  'the term of the lookup key and of the new id are unified modulo "requested id" / "id of the returned message"')
P('P08', 'A proof is handed out only when complete and with enough signatures',
  'A proof is reported as complete only if the multisig reports this very session completed, and it then contains the encoded data of the batch bound to the session, all signers in ascending order of address with their weights, the session\'s quorum, and the signatures in the same order. '
  'A signer\'s signature is left out only when those of the heavier signers reach the quorum, and each one kept is the signer\'s own.',
  ['inputs', 'histories'], 'every session, signer list, weights and signatures, both encodings',
  'Sorting, selection and encoding run over lists of any size; tests pin two examples.',
  [PRQ, PRA, PRB, MSK], [('get_proof / optimize_signers', PRQ), ('encode_execute_data / encode_proof', PRA), ('encode_execute_data / encode_proof', PRB)],
  'structure of the encoded proof over the generic signer; order tags; loop invariant shape of the running weight (start, step, bound)')
P('P10', 'A stored batch never changes',
  'Once a batch of the prover is stored, and with it possibly being signed, it is never removed and its commands, their order and its message ids never change: a later request for the same messages, in whatever order, leaves it as it is.',
  ['histories', 'inputs', 'schedules'], 'every order of requests, also within one block',
  'A batch replaced while it is being signed makes the collected signatures worthless; that takes two requests with the same content in different order.',
  [PRX, PRT], [('construct_proof / update_worker_set', PRX), ('BatchId::new', PRT)],
  'every write to the batches is guarded by the absence of a batch with that id, or its content has no other source than the id and the constant configuration')
P('P09', 'The prover\'s configuration is validated and never changes',
  'The addresses of the contracts the prover talks to are validated and stored as given at instantiation together with chain, service, thresholds, encoding and key type, and no later call changes any of them.',
  ['inputs', 'histories'], 'every message',
  'A swapped or later replaced address redirects trust; tests configure once.',
  [PRC], [('instantiate', PRC)],
  'every write to the configuration occurs in instantiation with per-field provenance')

BAC = 'contracts/batching/src/contract.rs'
ALLC = ['contracts/*/src/contract.rs', 'contracts/*/src/state.rs']

P('B01', 'A batch keeps its promises: all mandatory calls or none, the rest isolated',
  'The batching contract makes every submitted call exactly once, unchanged and in the given order, the mandatory ones first. '
  'A failing mandatory call undoes the whole batch, while a failing optional call never does and is reported with its position in the list of optional calls and its error; the events of a successful optional call are passed on.',
  ['inputs', 'fault_sequences'], 'every batch, every outcome of every call',
  'Whether a failure is isolated depends on how each call is wired, for every list length and outcome; the tests run a few batches.',
  [BAC], [('dispatch', BAC), ('reply', BAC)],
  'the messages of a successful response must be one family per list, ranging over the submitted list unfiltered and unchanged; mandatory ones never reply, optional ones always reply with id = position; the reply entry never fails and its events are, per outcome, the failure report or the events of the call')

P('X01', 'Stored values with different meanings never overwrite each other',
  'Within each contract every storage namespace belongs to exactly one stored item, map or index, so that writing one kind of value never changes or shadows another.',
  ['inputs', 'histories'], 'every storage access of every entry point of the ten contracts',
  'A clash shows only for particular keys written in a particular order; tests rarely have both.',
  ['contracts/multisig/src/state.rs', 'contracts/multisig-prover/src/state.rs', 'contracts/rewards/src/state.rs'], [('storage definitions', 'contracts/multisig/src/state.rs'), ('storage definitions', 'contracts/multisig-prover/src/state.rs')],
  'for every storage definition reached from any entry point: its namespace constant is used by no other definition of that contract (an index and its map are paired)')

P('X02', 'Contracts agree on the form of the messages they exchange',
  'For every query, call and reply between the contracts of this repository, the answering contract has a handler for the message and produces data of exactly the form the asking contract reads.',
  ['inputs', 'schedules'], 'every query, execute message and reply between the ten contracts',
  'Unit tests mock the other side, so both sides can pass all tests and still not understand each other.',
  ['contracts/multisig-prover/src/contract.rs', 'contracts/aggregate-verifier/src/contract.rs', 'contracts/gateway/src/contract.rs'],
  [('verification query and reply', 'contracts/aggregate-verifier/src/contract/execute.rs'), ('queries and calls of the prover', 'contracts/multisig-prover/src/execute.rs')],
  'the wire shape (names and nesting of fields and variants, with primitive types) of the type encoded by the handler of the queried variant must equal that of the type decoded at the call site; the same for data returned by calls whose reply is read',
  note='wire shapes follow the derived serialisation; hand-written ones are compared by type name')

P('X03', 'A failed read or query is never taken for an answer',
  'If a stored value exists but cannot be read, or a query to another contract fails, the operation that needed it fails; it is never taken for an absent value, an empty list or a default.',
  ['inputs', 'fault_sequences'], 'every storage read, storage range and query of every entry point of the ten contracts',
  'Tests never have unreadable storage and seldom failing queries.',
  ['contracts/multisig-prover/src/execute.rs', 'contracts/rewards/src/contract/execute.rs'],
  [('storage reads', 'contracts/rewards/src/state.rs'), ('queries', 'contracts/multisig-prover/src/execute.rs')],
  'the condition under which an entry point succeeds must imply, for each reached load, that it did not fail to decode (for ranges: for each element), and for each reached query, that it succeeded')

P('X07', 'Identifiers computed from content differ for different content',
  'Where a record is stored or looked up under an identifier computed from its content (messages and worker sets under verification, worker sets of the multisig contract, batches of the prover), different content gives a different identifier, collisions of the hash function aside.',
  ['inputs'], 'every pair of different records', 'Tests hash single fixed values; two contents that coincide after concatenation must be constructed on purpose.',
  ['contracts/connection-router/src/state.rs', 'packages/axelar-wasm-std/src/operators.rs', 'contracts/multisig-prover/src/types.rs'],
  [('Message::hash', 'contracts/connection-router/src/state.rs'), ('Operators::hash', 'packages/axelar-wasm-std/src/operators.rs'),
   ('WorkerSet::hash', 'contracts/multisig/src/worker_set.rs'), ('BatchId::new', 'contracts/multisig-prover/src/types.rs')],
  'injectivity of the hash preimage: the storage key is decomposed into its concatenated pieces, each piece must be delimited by a fixed length or by a character that cannot occur in it, and together they must determine every field of the stored record')

P('X04', 'Checked values always satisfy their rule',
  'A value of a checked type satisfies its rule however it came to exist, including when read from a message or from storage: non-zero numbers and times are not zero, non-empty texts and lists are not empty, a threshold lies in (0, 1], a majority threshold also above one half, a chain name is non-empty and lower case and contains no colon.',
  ['inputs'], 'every value, of every construction and conversion of a checked type', 'Tests feed a few good and bad values to the constructors they know; a conversion or a derived deserialiser that skips the check is not called by them.',
  ['packages/axelar-wasm-std/src/nonempty', 'packages/axelar-wasm-std/src/threshold.rs', 'contracts/connection-router/src/state.rs', 'packages/connection-router-api/src/primitives.rs'],
  [('TryFrom', 'packages/axelar-wasm-std/src/nonempty/uint.rs'), ('TryFrom', 'packages/axelar-wasm-std/src/threshold.rs'),
   ('ChainName::from_str', 'contracts/connection-router/src/state.rs')],
  'at every place where a value of a checked type is built, the conditions under which the built value leaves the function must imply its rule; code generic over the deserialiser may not build it; its content is private and never written or borrowed mutably afterwards')

P('X05', 'Addresses named in messages are validated before use',
  'Where a message names an account or contract address, the address passes the validation of the chain before it is stored, used as a storage key, called or paid; a malformed one is refused and nothing is stored. Addresses inside worker sets are taken as given by whoever hands the worker set over.',
  ['inputs'], 'every address parameter of every instantiate and execute message', 'Tests pass well-formed addresses; an address that is stored without validation looks the same to them.',
  ['contracts/*/src/contract.rs'],
  [('execute', 'contracts/multisig/src/contract.rs'), ('execute', 'contracts/service-registry/src/contract.rs'), ('instantiate', 'contracts/connection-router/src/contract.rs'),
   ('execute', 'contracts/rewards/src/contract.rs')],
  'provenance of every address in stored values, storage keys and message receivers: one that comes from the message must be the result of, or be guarded by, a successful address validation')

P('X08', 'Different records have different storage keys',
  'Two values of a type that serves as a storage key lead to the same stored record only if they are equal: every part of a cross-chain id, chain name, poll id, batch id or key kind enters the key.',
  ['inputs', 'histories'], 'all pairs of values of every type used as a storage key', 'No finite set of examples shows that no two values collide.',
  ['contracts/connection-router/src/state.rs', 'contracts/multisig/src/key.rs', 'contracts/multisig-prover/src/types.rs', 'packages/axelar-wasm-std/src/voting.rs'],
  [('impl PrimaryKey', 'contracts/connection-router/src/state.rs'), ('impl PrimaryKey', 'contracts/multisig/src/key.rs'), ('impl PrimaryKey', 'contracts/multisig-prover/src/types.rs'), ('impl PrimaryKey', 'packages/axelar-wasm-std/src/voting.rs')],
  'for every implementation of the storage-key traits, the list of key elements that it returns is computed symbolically; each element must be an invertible encoding of a part of the value, and all parts must be covered; hand-written equality on such types must imply equality of all parts')

P('X09', 'Contracts compute from their inputs and their storage alone',
  'What a contract answers and stores is determined by the message, its sender and funds, the block, its own storage and what it queries, so that every node comes to the same result: it uses no floating-point numbers, no clock or randomness of its own, nothing from the machine it runs on, and no memory that outlives the call.',
  ['inputs', 'histories'], 'every function of the ten contracts and of the packages they are built from', 'A single process cannot see that another machine, or the same one after a restart, would answer differently.',
  ['contracts', 'packages/axelar-wasm-std/src', 'packages/connection-router-api/src', 'packages/gateway-api/src'],
  [('all functions', 'contracts/*/src'), ('all functions', 'packages/axelar-wasm-std/src')],
  'an effect analysis over the compiled bodies (generic ones included): no local of a floating type, no call into clocks, randomness, environment, files, network, threads, or state held outside the storage')

P('X10', 'Announcements outside polls and sessions say what was recorded',
  'Every recorded public key, submitted signature, granted or withdrawn signing permission, started proof and set-up of a verifier is announced by exactly one event, and each fact the event states is the one that was recorded.',
  ['inputs', 'histories'], 'every successful operation that records one of these facts', 'Off-chain workers and relayers follow the events alone, which the tests hardly look at.',
  ['contracts/multisig/src/events.rs', 'contracts/multisig-prover/src/reply.rs', 'contracts/voting-verifier/src/events.rs'],
  [('event emission', 'contracts/multisig/src/contract.rs'), ('event emission', 'contracts/multisig-prover/src/reply.rs'), ('event emission', 'contracts/voting-verifier/src/contract.rs')],
  'the condition of each emitted event must equal the condition of success of its operation, and each attribute must be (an encoding of) the key or value that the operation stores')

D_REASON = ('the code is in ampd, whose dependencies (cosmrs, tendermint, tonic, sui and others) are not in this sandbox, so it cannot be type-checked or '
            'lowered to the representation the analysis works on; ')
P('D01', 'The worker daemon votes once, only where it is asked to',
  'For a poll started by the voting verifier it is configured for, the daemon casts a vote only if it is one of the participants and the poll has not expired, and then exactly one vote per item of the poll in the given order.',
  ['inputs', 'schedules'], 'every event of every block', 'Unit tests feed single events.',
  ['ampd/src/handlers/evm_verify_msg.rs', 'ampd/src/handlers/evm_verify_worker_set.rs', 'ampd/src/handlers/sui_verify_msg.rs', 'ampd/src/handlers/sui_verify_worker_set.rs'],
  [('Handler::handle', 'ampd/src/handlers/evm_verify_msg.rs')], '')
P('D02', 'The worker daemon signs only what the multisig contract asks it to',
  'The daemon requests a signature only for signing sessions announced by the multisig contract it is configured for, which name it as a participant, under the public key named there, and submits it for that session before it expires.',
  ['inputs', 'schedules'], 'every event of every block', 'Unit tests feed single events.',
  ['ampd/src/handlers/multisig.rs'], [('Handler::handle', 'ampd/src/handlers/multisig.rs')], '')
P('D03', 'The worker daemon handles every block event once and in order',
  'Every event of every finalised block from the configured height on reaches every handler in block order, and a stored height is never ahead of what was handled, so that a restart skips nothing.',
  ['schedules', 'crash_points'], 'every interleaving of handlers, every crash point', 'Tests run one schedule.',
  ['ampd/src/event_sub.rs', 'ampd/src/event_processor.rs', 'ampd/src/state.rs'], [('process', 'ampd/src/event_processor.rs'), ('EventSubClient', 'ampd/src/event_sub.rs')], '')
P('D04', 'The worker daemon broadcasts every queued message once',
  'Messages handed to the broadcaster are sent in batches within the gas limit, each message in exactly one transaction, in the order queued, with strictly increasing account sequence numbers after confirmed broadcasts.',
  ['schedules', 'fault_sequences'], 'every arrival order, every broadcast outcome', 'Tests run one schedule.',
  ['ampd/src/queue', 'ampd/src/broadcaster.rs'], [('QueuedBroadcaster::run', 'ampd/src/queue/queued_broadcaster.rs'), ('MsgQueue', 'ampd/src/queue/msg_queue.rs')], '')

NA = {k: D_REASON + r for k, r in (
    ('D01', 'an argument over its syntax alone could not tell which type a value has, and so not which events are taken.'),
    ('D02', 'an argument over its syntax alone could not tell which type a value has, and so not which events are taken.'),
    ('D03', 'it also quantifies over schedules of async tasks and crash points, which nothing in the source bounds.'),
    ('D04', 'it also quantifies over arrival orders, timers and outcomes of broadcasts, which nothing in the source bounds.'))}
