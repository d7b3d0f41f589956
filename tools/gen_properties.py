#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here."""
import json, os

PAY = "pallets/payments/src/lib.rs"
PAYT = "pallets/payments/src/types.rs"
COM = "pallets/communities/src/lib.rs"
COMF = "pallets/communities/src/functions.rs"
COMI = "pallets/communities/src/impls.rs"
COMO = "pallets/communities/src/origin.rs"
COMT = "pallets/communities/src/types.rs"
MGR = "pallets/communities-manager/src/lib.rs"
RT = "runtime/kreivo/src/"

P = []

def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- common
p("A01", "Every payment id survives being written as text and read back",
  "Writing any payment identifier as text, in the plain or in the separated form, and parsing that text yields the same identifier. The separated form is the plain form with one '-' after the fifth character, and two different identifiers never share a text.",
  ["inputs"], "all 2^64 identifiers, both written forms, every public way to write and to parse one",
  "Two example identifiers are formatted and one is parsed; texts shorter than eleven characters, leading zero bytes and the other 2^64 values are never reached.",
  ["common/src/payment_id.rs"],
  [("Display writes base58 with a separator", "common/src/payment_id.rs Display"),
   ("FromStr strips the separator and decodes", "common/src/payment_id.rs FromStr"),
   ("new / encode helpers", "common/src/payment_id.rs impl PaymentId")],
  observe=["format!(\"{id}\")", "format!(\"{id:#}\")", "str::parse::<PaymentId>()", "PaymentId::new", "PaymentId::encode"])

p("A02", "Parsing payment id text never crashes and never invents an identifier",
  "Parsing arbitrary text as a payment identifier always returns, either with an identifier or with an error. It returns an identifier only when the text is exactly that identifier's own written form, give or take one '-' separator; the lenient constructor yields the default identifier for everything else.",
  ["inputs"], "all strings: any length, any characters, near misses of valid texts, over- and under-long encodings",
  "No test parses a malformed text.",
  ["common/src/payment_id.rs"],
  [("FromStr bounds and alphabet checks", "common/src/payment_id.rs FromStr"),
   ("new falls back to the default", "common/src/payment_id.rs PaymentId::new")],
  observe=["str::parse::<PaymentId>()", "PaymentId::new"])

p("A03", "Payment id number, bytes and fields are one and the same value",
  "A payment identifier and its 64-bit number determine each other, and the identifier's bytes are that number in little-endian order. The block, the extrinsic index (its low 16 bits) and the two leading bytes of the extra data it was built from are read back unchanged and influence nothing but their own part, and identifiers are equal exactly when their numbers are.",
  ["inputs"], "all 64-bit numbers; all (block, index, extra bytes) triples with at least two extra bytes",
  "One test compares the all-ones identifier, in which swapped or misplaced fields cannot be seen.",
  ["common/src/payment_id.rs"],
  [("From<u64> / From<PaymentId> for u64", "common/src/payment_id.rs"),
   ("From<(u32, u32, &[u8])>", "common/src/payment_id.rs"),
   ("AsRef<[u8]> byte view", "common/src/payment_id.rs")],
  observe=["to_number", "from_number", "block_number", "extrinsic_index", "to_bytes", "as_ref"])

p("A04", "Stored forms of payment ids and asset locations are stable and lossless",
  "The binary form of a payment identifier is exactly that of its 64-bit number, wherever it is nested, and it is described as that number to clients. The binary form of every fungible asset location decodes back to the same location within its declared maximum length, keeps the numbering of variants and the field order already on chain, and decoding arbitrary or truncated bytes returns a value or an error without crashing.",
  ["inputs"], "all identifiers, all asset locations, and arbitrary byte strings as decoder input",
  "The encoding code is behind a feature that no test enables.",
  ["common/src/payment_id.rs", "common/src/multilocation_asset_id.rs"],
  [("manual Encode/Decode/MaxEncodedLen/TypeInfo", "common/src/payment_id.rs mod runtime"),
   ("derived codec of FungibleAssetLocation, Para, NetworkId", "common/src/multilocation_asset_id.rs")],
  observe=["Encode::encode", "Decode::decode", "MaxEncodedLen", "TypeInfo"])

p("A05", "Asset ids and cross-chain asset locations convert back and forth exactly",
  "Every asset identifier converts to the cross-chain location naming its own network, chain, pallet and index, and that location converts back to it, so no two identifiers share a location. A location converts to an identifier only if that identifier's location is the very same location, with no number shortened; every other location is declined and no location makes the conversion crash.",
  ["inputs"], "all asset identifiers and all locations up to eight junctions, numbers at and beyond every width boundary",
  "The conversion is behind a feature that no test enables.",
  ["common/src/multilocation_asset_id.rs"],
  [("AsFungibleAssetLocation::convert / convert_back", "common/src/multilocation_asset_id.rs mod runtime"),
   ("NetworkId conversions", "common/src/multilocation_asset_id.rs mod runtime")],
  observe=["MaybeEquivalence::convert", "MaybeEquivalence::convert_back"])

# ---------------------------------------------------------------- payments
ledger = ("asset ledger", "free and held balance of every account in every asset", "runtime assets pallet")
pstate = ("payment record", "state, amount, parties, fees and incentive of a payment", PAY + " storage Payment / PaymentParties")

p("P01", "Payments never create, destroy or strand money",
  "Whatever sequence of payment operations is executed, the total of every asset, free plus held over all accounts, never changes. An operation that fails leaves every balance and every payment exactly as it was, and making a payment never leaves its payer with less than an account must keep.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all histories of payment calls by any accounts, with any amounts, fee schedules and assets, and with balance operations refused at any point",
  "Tests follow seven fixed scenarios with one sender, one beneficiary, one amount and one fee schedule, and no failing transfer.",
  [PAY, PAYT],
  [("hold / transfer_and_hold on creation", PAY + " reserve_payment_amount"),
   ("release / transfer on settlement and cancellation", PAY + " settle_payment, cancel_payment"),
   ("transactional dispatch", "frame_support call wrapper")],
  state=[ledger, pstate], observe=["free and held balances before and after every call"])

p("P02", "Held funds always equal what the open payments require",
  "At every moment the funds held for payments on an account equal the sum over open payments of the amount where it is beneficiary, plus fees and incentive where it is sender, plus the incentive it staked where it disputed a refund. Once a payment is settled, cancelled or refunded nothing remains held on its behalf.",
  ["histories", "inputs", "configurations"], "all histories of payment calls including failing ones, any overlap of open payments between the same accounts",
  "Tests keep one payment open at a time and look at holds only right after creation.",
  [PAY, PAYT],
  [("holds placed by pay and dispute_refund", PAY), ("exact releases in settle and cancel", PAY),
   ("fee summary used on both sides", PAYT + " Fees::get_summary")],
  state=[ledger, pstate], observe=["balance on hold per account and asset"])

p("P03", "Releasing or accepting a payment pays each party exactly its due",
  "When a payment is released, or a requested payment is accepted, the beneficiary gains the amount less the beneficiary-side fees, the sender ends up having spent the amount plus the sender-side fees and nothing else, and each fee recipient gains exactly the fees addressed to it. Fees are those computed from the fee policy when the payment was created, for the asset, parties, amount and remark of that payment.",
  ["histories", "inputs", "configurations"], "all amounts, fee schedules (repeated recipients, zero fees, recipients that are also parties), both settlement paths",
  "One amount and one fee schedule are tested, with distinct accounts everywhere.",
  [PAY, PAYT],
  [("settle_payment without dispute", PAY), ("accept_and_pay", PAY), ("try_transfer_fees", PAY),
   ("fee summary per recipient", PAYT + " Fees::get_summary")],
  state=[ledger, pstate], observe=["balance changes of sender, beneficiary and fee recipients"])

p("P04", "A payment follows its life cycle and is settled at most once",
  "A payment only moves along: created to released, cancelled, or refund requested; refund requested to cancelled or disputed; disputed to resolved; requested to accepted. Any other operation on it is refused without effect, and once it has been released, accepted, resolved, cancelled or refunded no later operation moves money for it again.",
  ["histories"], "all orders and repetitions of the eight operations, by any caller, on any payment in any state, including unknown identifiers",
  "Each test walks one legal path once; no test tries an operation out of order.",
  [PAY],
  [("state checks in release, request_refund, cancel, dispute_refund, resolve_dispute, accept_and_pay", PAY),
   ("PaymentState", PAYT)],
  state=[pstate], observe=["call results and recorded payment state after each call"])

p("P05", "Only the rightful party can move a payment",
  "Only the account that created a payment as sender can release it or ask for a refund, only its beneficiary can cancel it or dispute a refund, only the designated resolver can resolve a dispute, and only the account asked to pay can accept a payment request. Operations from anybody else, including other users' payments under the same identifier, are refused without effect.",
  ["histories", "inputs"], "all callers (parties, strangers, root, unsigned, resolver) for every operation on every payment",
  "No test calls an operation from the wrong account.",
  [PAY],
  [("SenderOrigin / BeneficiaryOrigin / DisputeResolver", PAY + " Config"),
   ("lookup by sender and by parties", PAY)],
  state=[pstate], observe=["call results and balances"])

p("P06", "A refund request completes by itself at its deadline unless disputed",
  "A refund request announces a deadline one fixed waiting period away, and when that block is reached with no dispute the sender automatically gets back the amount, fees and incentive in full, with no fee taken. Until then the funds stay held; a dispute is possible only strictly before the deadline, and a disputed payment is never refunded automatically. A request that cannot be scheduled is refused, and a refund never fails because its beneficiary has nothing else.",
  ["histories", "schedules"], "all interleavings of refund requests, disputes, cancellations and block progress over many payments, with any waiting period",
  "One test runs one refund to its deadline; disputes on or after the deadline and several refunds in flight are not tried.",
  [PAY],
  [("schedule_named on request_refund, cancel_named on dispute_refund", PAY),
   ("deadline comparison in dispute_refund", PAY), ("cancel_payment", PAY)],
  state=[pstate, ("scheduled cancellation", "task keyed by payment id", "scheduler")],
  observe=["balances and payment state at each block"])

p("P07", "A resolved dispute splits the money as ruled and the loser funds the resolver",
  "When a dispute is resolved, the party ruled in favour of receives the ruled percentage of the amount, rounded down, and the other party the rest. The losing party's incentive goes to the resolver and the winner's own is returned; of the fees only those marked as due in disputes are charged, all others stay with whoever would have paid them. A ruling is carried out even if it takes all a beneficiary has.",
  ["histories", "inputs", "configurations"], "all percentages, amounts, winners, fee schedules mixing mandatory and optional fees (also to one recipient), any overlap of parties, recipients and resolver",
  "Two tests use 90% and one fee schedule in which each recipient has only one kind of fee.",
  [PAY, PAYT],
  [("settle_payment with dispute", PAY), ("mandatory flag in the fee summary", PAYT + " Fees::get_summary")],
  state=[ledger, pstate], observe=["balance changes of all parties on resolve_dispute"])

p("P08", "Cancelling gives the sender everything back",
  "When an open payment is cancelled by its beneficiary, or refunded, the sender's free balance grows by the amount plus all sender-side fees plus the incentive that were held for it, the beneficiary's free balance is unchanged, and no fee recipient gains anything. The payment is then gone and its identifier refers to nothing.",
  ["histories", "inputs", "configurations"], "all amounts, fee schedules, parties and other open payments at the time of the cancellation",
  "One amount and one fee schedule are tested.",
  [PAY],
  [("cancel / cancel_payment", PAY)],
  state=[ledger, pstate], observe=["balances and storage after cancel"])

p("P09", "Asking for a payment moves no money until the named payer accepts",
  "Creating a payment request changes no balance and holds nothing, whatever the amount. It can only be completed by the account it names as payer, once, and until then neither party's funds can be touched through it by release, refund, cancellation or dispute.",
  ["histories", "inputs"], "all request amounts and parties, and all later operations on the request by anybody",
  "One request is created and accepted.",
  [PAY],
  [("request_payment / accept_and_pay", PAY), ("PaymentRequested state", PAYT)],
  state=[ledger, pstate], observe=["balances after request_payment and later calls"])

p("P10", "A new payment never disturbs an existing one",
  "Creating a payment or a payment request records exactly the asset, amount, beneficiary, fees and incentive asked for under its identifier, and leaves every other recorded payment unchanged. If the identifier it would get is already in use by a payment that is not finished, creation is refused without effect, except that a still unanswered request to the same payer may be replaced.",
  ["histories", "inputs", "configurations"], "all histories in which identifiers may repeat across senders, beneficiaries, requests and finished payments",
  "The test configuration hands out strictly increasing identifiers, so a collision never happens.",
  [PAY],
  [("existing-entry check in create_payment", PAY), ("PaymentParties index", PAY)],
  state=[pstate], observe=["stored payments and parties after each creation"])

# ---------------------------------------------------------------- communities
cstate = ("community registry", "which communities exist, their state and the origin administering each", COM + " Info / CommunityIdFor")
vstate = ("votes", "recorded vote per poll and membership, and locks per voter", COM + " CommunityVotes / CommunityVoteLocks")

p("P11", "Whatever happens to a payment is announced, and only that",
  "Every accepted operation on a payment, and every refund that happens by itself, is announced exactly once and names the payment it happened to: a creation with the asset, the amount and the remark given, a refund request with the block it will be carried out at, and each kind of ending as what it was. Refused operations announce nothing.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all histories of payment calls by any accounts, with any amounts, remarks and fee schedules, with failures at any point and refunds coming due",
  "Tests look at the last event of a few fixed scenarios and never at refused operations.",
  [PAY],
  [("deposit_event in every call", PAY)],
  state=[pstate], observe=["events after every call and every block"])

p("C01", "Each community is created once and has exactly one administering origin",
  "Creating a community fails without effect when its identifier is taken or the proposed administrator already administers a community; otherwise exactly that community appears, active, and its account exists. At every moment each community has exactly one administering origin and each origin administers at most one community; handing administration over moves it to the new origin, takes it from the old one and affects no other community.",
  ["histories", "inputs"], "all histories of creations and hand-overs by any origins, including hand-over to an origin that already administers something and to oneself",
  "Tests create one community and hand it over once to a free origin.",
  [COM, COMF],
  [("uniqueness checks in register", COMF), ("set_admin_origin", COM)],
  state=[cstate], observe=["who is accepted as administrator of which community after each call"])

p("C02", "A community's powers affect that community only",
  "Every administrative, membership or dispatch operation acts solely on the community its origin speaks for, whichever arguments are given. Root, unsigned, plain members, strangers, administrators of other communities and anybody acting for a blocked or non-existent community are refused without effect.",
  ["histories", "inputs"], "all pairs of calling origin and target arguments across several communities in any state",
  "Tests use one community at a time, so acting across communities is never tried.",
  [COM, COMO],
  [("EnsureCommunity", COMO), ("AdminOrigin / MemberMgmtOrigin use in calls", COM)],
  state=[cstate], observe=["state of every other community before and after each call"])

p("C03", "Membership changes do exactly what was asked, to the member named",
  "Adding a member hands the named account one membership that the community itself still had available, and fails if there is none. Removing takes away only the named membership and only if the named account holds it in that community; promoting and demoting move that membership's rank by one within the rank limits; everything else stays as it was and the announced account, membership and rank are the resulting ones.",
  ["histories", "inputs"], "all histories of membership operations over several communities, members with several memberships, and exhausted pools",
  "Tests add and remove a single member and do not compare the announced rank on demotion.",
  [COM],
  [("add_member, remove_member, promote, demote", COM)],
  state=[("memberships", "holder and rank per community and membership", "membership manager")],
  observe=["holders, ranks and events after each call"])

p("C04", "A poll's tally is always the sum of the votes standing on it",
  "At every moment, for every ongoing poll, the ayes, the nays and the bare ayes of the tally equal the sums over the votes currently recorded on it, each counted once, with the weight it was cast with. Casting again replaces the earlier vote, removing undoes exactly the removed vote, and a refused operation changes no tally.",
  ["histories", "inputs"], "all histories of votes, re-votes and removals by many members over many polls, with ranks and decision methods changing meanwhile",
  "Tests cast and remove single votes with ranks and methods fixed in between.",
  [COMF, COM, COMT],
  [("try_vote / try_remove_vote", COMF), ("Tally::add_vote / remove_vote", COMF)],
  state=[vstate, ("tally", "ayes, nays, bare ayes per poll", "polls")], observe=["tally of every poll after each call"])

p("C05", "Only members can vote, only on their community's open polls, in its method",
  "A vote is accepted only from an account that holds the membership it votes with, only on an ongoing poll of the community that membership belongs to, and only of the kind the community decides by: plain votes by membership or rank, native-token amounts, or amounts of the chosen asset at or above its minimum, and never with zero weight. Such a vote is accepted whenever the voter can lock the amount; anything else, and a vote whose lock fails, is refused without effect, and only the holder can remove a membership's vote while the poll is ongoing. An account counts as a member of a community exactly while it holds a membership in it.",
  ["histories", "inputs"], "all voters, memberships, polls (ongoing, finished, unknown, other community), vote kinds and amounts under every decision method",
  "Tests cover one wrong kind per method in a single community.",
  [COM, COMF],
  [("check_membership in vote / remove_vote", COM), ("poll class and vote kind checks", COMF + " try_vote")],
  state=[vstate], observe=["results of vote and remove_vote"])

p("C06", "Each vote weighs what the decision method says",
  "A plain vote adds one, under rank voting multiplied by the membership's rank, to the side it takes; an amount vote adds the amount, capped at the largest representable weight. Support counts ayes without the rank multiplier. Choosing an asset that is not there makes it, in the module's own hands, with the least vote as its least balance; one that is there stays as it is.",
  ["inputs", "histories"], "all ranks, amounts up to and beyond the weight limit, both sides, all methods",
  "Tests use small amounts and a few ranks.",
  [COMF, COMT],
  [("vote multiplier", COMF + " try_vote"), ("Vote::weight", COMT)],
  state=[("tally", "ayes, nays, bare ayes per poll", "polls")], observe=["tally change of one accepted vote"])

p("C07", "Approval and support are true fractions of the right totals",
  "Approval is ayes over all votes counted and zero when nothing was counted; support is bare ayes over the community's whole electorate in its decision method: members, rank points, native issuance or asset issuance. Neither ever exceeds one hundred percent or crashes, more ayes never lower and more nays never raise approval.",
  ["inputs", "histories"], "all tallies up to the numeric limits and all electorate sizes including zero",
  "Only small tallies occur in tests.",
  [COMI, COMT],
  [("VoteTally::approval / support", COMI), ("Tally::max_support", COMT)],
  observe=["approval(), support()"])

p("C08", "Voted funds stay locked while needed and never longer",
  "While a voter has an amount vote standing, or has not yet unlocked one after its poll ended, at least the largest such amount is locked per asset and no more than that largest amount. Removing the vote, replacing it, or unlocking after the poll ended reduces the lock to the largest amount still needed, unlocking is refused while the poll is ongoing, and one voter's or one asset's locks never affect another's. When a lock cannot be changed, the operation that needs it is refused.",
  ["histories", "inputs"], "all histories of amount votes over several polls and assets by several voters, with removal, replacement, poll endings and unlocking",
  "Tests lock and unlock one or two votes of one voter.",
  [COMF, COM],
  [("update_locks", COMF), ("unlock", COM)],
  state=[vstate, ("freezes", "frozen amount per account and asset", "balances and assets freezer")],
  observe=["frozen balance after each call"])

p("C09", "A community acts through its own account and no other",
  "Every community has its own account, distinct from every other community's and fixed for all time. A call dispatched by a community runs as exactly that account with no more authority than a signed account has, its outcome is reported faithfully, and a failing inner call leaves no effect.",
  ["inputs", "histories"], "all community identifiers, all authorised and unauthorised origins, inner calls that succeed or fail",
  "One test dispatches one successful transfer.",
  [COMF, COM, COMO],
  [("community_account", COMF), ("do_dispatch_as_community_account", COMF), ("AsSignedByCommunity, AsSignedByStaticCommunity", COMO)],
  observe=["origin seen by the inner call, resulting account ids"])

p("C10", "A community's voice keeps its identity and strength across chains",
  "Turning a community's voice into a cross-chain location preserves which community speaks and whether it is the whole community, a number of members (a single named member counts as one member) or an exact fraction in millionths, and turning that back gives the same voice. A voice limited to a rank, which has no representation, any location that is not a community body and any body part other than those is declined rather than approximated.",
  ["inputs"], "all community identifiers and subsets; all junctions as input of the way back",
  "No test covers the conversions.",
  [COMO],
  [("TryFrom<RawOrigin> for Junction, TryFrom<Junction> for RawOrigin, TryConvert", COMO)],
  observe=["conversion results"])

p("C11", "Whatever a community does is announced, and only that",
  "Every accepted creation, hand-over, change of the way of deciding, membership change, vote and removal of a vote is announced exactly once, with the community, origin, account, membership, rank, poll and vote that resulted. Refused operations announce nothing.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations on several communities by any origins, with failures of the membership manager and of the ledger at any point",
  "Tests compare a few events of single operations and never look at refused ones.",
  [COM],
  [("deposit_event in every call", COM)],
  state=[cstate, vstate], observe=["events after every call"])

# ---------------------------------------------------------------- manager
p("G01", "Registering a community sets up all of its parts or nothing",
  "A successful registration leaves the community existing and active with the named administrator, its decision method as asked or the default, its own membership collection owned by its account, its governance track under its own voice with the requested or the default rules named after it, its seat in the collective at the lowest rank, and the deposit moved exactly once to its receiver, and is announced once. When any part cannot be set up or the name is not valid text, the registration is refused and nothing at all has changed.",
  ["inputs", "fault_sequences", "histories"], "all names, identifiers, administrators, options and deposit outcomes, and a failure at any one of the steps",
  "One test registers one community and checks parts of it; no step is made to fail.",
  [MGR, COMF],
  [("register", MGR), ("pallet_communities register", COMF), ("transactional dispatch", "frame_support call wrapper")],
  state=[cstate], observe=["all of the parts before and after register"])

p("G02", "Creating memberships mints exactly the requested consecutive ids for sale",
  "A successful creation mints one membership for each of the requested number of consecutive identifiers, starting at the given one, stopping early only where identifiers run out; each goes to the manager's account and is for sale to anybody at the given price, and the announced number is the number minted. More than 1024 at once, an unauthorised origin or an identifier already in use is refused without effect.",
  ["inputs", "histories", "fault_sequences"], "all amounts, starting identifiers including the end of the identifier range, prices, and already existing identifiers",
  "One test creates a few memberships from a small starting identifier.",
  [MGR],
  [("create_memberships loop", MGR)],
  observe=["items, owners, prices and the event"])

# ---------------------------------------------------------------- runtime
p("R01", "Payment fees follow the published schedule and spare communities",
  "For every payment the sender pays 1% and the beneficiary 3% of the amount, rounded down but at least the asset's minimum balance, to the treasury, due also in disputes. A party that is a community's account pays no fee, and nobody else is exempt.",
  ["inputs"], "all amounts, assets with any minimum balance, and party accounts: users, communities, other pallets' accounts, near misses of community accounts",
  "No test covers the runtime's fee policy.",
  [RT + "payments.rs"],
  [("KreivoFeeHandler::apply_fees", RT + "payments.rs")],
  observe=["fees returned for a payment"])

p("R02", "Runtime payment ids tell apart payments of different blocks and calls",
  "The identifier given to a payment names the block and the position in the block of the extrinsic that created it together with its beneficiary's first bytes, so payments created in different blocks or by different extrinsics of a block never share an identifier. Outside of an extrinsic no identifier is issued.",
  ["histories", "inputs"], "all blocks, extrinsic positions below 2^16 and accounts",
  "No test covers the runtime's identifier source.",
  [RT + "payments.rs", "common/src/payment_id.rs"],
  [("PaymentId::next for the runtime", RT + "payments.rs")],
  observe=["ids issued over a chain of blocks"])

p("R03", "A proxy can do no more than its type says, and supersets really contain",
  "A proxy limited to non-transfer calls can never move balances or assets by calling those modules, an asset-owner or asset-manager proxy can make only its own group of asset calls, a collator proxy only collator calls, and a cancel proxy can only reject announcements; grouping calls are the only common extra. Whenever one type is declared to include another, every call the included type permits is permitted by the including one, and inclusion is reflexive and transitive with the unrestricted type on top. The assets type includes the asset-owner and asset-manager types, and the non-transfer type the collator one.",
  ["inputs"], "all proxy types and pairs of them, all calls of the runtime modules involved",
  "No test covers proxy filtering.",
  [RT + "impls.rs"],
  [("InstanceFilter::filter / is_superset for ProxyType", RT + "impls.rs")],
  observe=["filter, is_superset"])

p("R04", "Assets are accepted as reserve-backed only from their own reserve",
  "An incoming transfer claiming reserve-backed assets is accepted only if the sending chain is the reserve of that asset: the relay chain or a chain for the asset that has that chain's own location as its identifier, Asset Hub for the assets living on it and for those of the Polkadot consensus. Any other origin, an origin inside a chain, or an asset that merely resembles one of these is refused.",
  ["inputs"], "all pairs of asset location and origin location, especially sibling parachains claiming Asset Hub assets and neighbouring prefixes",
  "No test covers the cross-chain configuration.",
  [RT + "xcm_config.rs"],
  [("Reserves, ReserveAssetsFrom, ReserveForeignAssetsFrom, matches_prefix", RT + "xcm_config.rs")],
  observe=["ContainsPair::contains"])

p("R05", "Cross-chain locations map to accounts without impersonation",
  "A community body maps to that community's account and to no other's, for exactly the identifiers that communities can have; bodies of other chains, other body kinds and unrepresentable identifiers map to no community. An account location on the relay chain maps to the same 32-byte account only when it is untagged or tagged with the relay network, and nothing else maps through that rule. A message acts as the account of the place it comes from, as that place itself where it is the relay chain or another chain, or as the local account it names, and a place never acts as the superuser.",
  ["inputs"], "all locations up to a few junctions, all body identifiers beyond 16 bits, all network tags",
  "No test covers the cross-chain configuration.",
  [RT + "xcm_config/communities.rs"],
  [("PluralityConvertsToCommunityAccountId, AccountId32FromRelay", RT + "xcm_config/communities.rs")],
  observe=["ConvertLocation::convert_location"])

p("R06", "Only genuine community accounts speak for a community",
  "An account is taken for a community, to administer it, manage its members or send cross-chain messages as its voice, exactly when it is the account derived for that community. Accounts of users and of other modules, such as the treasury, never are.",
  ["inputs"], "all accounts: community accounts of every id, other modules' accounts and sub-accounts, users, near misses in every byte",
  "No test covers the runtime's origin rules.",
  [RT + "communities/mod.rs", RT + "xcm_config/communities.rs"],
  [("AccountToCommunityId", RT + "communities/mod.rs"), ("SignedByCommunityToPlurality", RT + "xcm_config/communities.rs")],
  observe=["origin checks and conversions"])

p("R07", "Device login challenges are fresh and unforgeable",
  "A login challenge is accepted only for a block of the recent past, no more than three blocks back, and only if it is that block's own hash. Challenges for the current, future or older blocks are refused, whatever their content.",
  ["inputs", "histories"], "all chain heights, context blocks and challenge bytes, including all-zero and truncated or extended hashes",
  "No test covers the challenger.",
  [RT + "configuration/system_support.rs"],
  [("UnincludedBlockHashChallenger", RT + "configuration/system_support.rs")],
  observe=["check_challenge"])

p("R08", "Referenda tracks and privileged origins match one to one",
  "Every privileged origin has exactly one track, the track exists, its identifier is unique and its rules can be met, never demand more at the end than at the start and never approve with less than half of the votes. Each asks for the published shares of approval and support at every moment and has the published deposits, limits and periods, so that no referendum runs out before it can be decided; every seat of the first rank or above has a say on all of them. Origins that carry no privilege have no track, and each privileged-origin check accepts its own origin only.",
  ["inputs"], "all origins and tracks, all points in time within a track's decision period",
  "No test covers the governance configuration.",
  [RT + "collective/tracks.rs", RT + "governance/origins.rs"],
  [("TracksInfo::tracks / track_for", RT + "collective/tracks.rs"), ("decl_unit_ensures", RT + "governance/origins.rs")],
  observe=["track_for, tracks, try_origin"])

p("R09", "Fees grow with weight and charge the scarcer resource",
  "The fee of a weight is the greater of the fee for its time and the fee for its proof size. It never falls when either part grows, is zero for zero weight, charges a base extrinsic a hundredth of a cent and ten kilobytes of proof one cent up to rounding, and never overflows into a smaller value. Every byte of a transaction costs ten millicents, however many there are. An account must hold a tenth of a cent, and storing costs a deposit of a hundredth of the relay chain's, for each item and each byte.",
  ["inputs"], "all pairs of time and proof size up to the numeric limits",
  "No test of this runtime covers the fee conversion.",
  [RT + "constants.rs"],
  [("WeightToFee, RefTimeToFee, ProofSizeToFee", RT + "constants.rs")],
  observe=["weight_to_fee"])

p("R10", "Disabled cross-chain instructions cannot be afforded and others scale",
  "Every instruction the chain does not support costs more than any limit, and no supported one does. The cost of an instruction handling assets never falls when it names more assets, a wildcard is charged as for a hundred assets, or as for as many as it says if that is fewer, and the cost depends on nothing the instruction does not say.",
  ["inputs"], "all instructions, all asset lists and filters, all wildcard counts up to the limit",
  "No test covers the cross-chain weights.",
  [RT + "weights/xcm/mod.rs"],
  [("KreivoXcmWeight, WeighAssets", RT + "weights/xcm/mod.rs")],
  observe=["XcmWeightInfo methods"])

p("R11", "Contracts and messages reach only the powers granted to them",
  "From a contract the only runtime call that passes is the plain balance transfer. Contracts can be instantiated only by root or by the two designated communities speaking as such, who are charged as their own accounts, and free cross-chain execution is granted only to the relay chain and its executive body. Nobody on the chain makes it execute a message of their own or teleports assets away by one.",
  ["inputs"], "all calls, all origins and all locations",
  "No test covers these filters.",
  [RT + "contracts.rs", RT + "xcm_config.rs", COMO],
  [("AllowBalancesCall, InstantiateOrigin", RT + "contracts.rs"), ("ParentOrParentsExecutivePlurality", RT + "xcm_config.rs")],
  observe=["contains, try_origin"])

p("R12", "Account addresses resolve to the account they denote",
  "A plain account address resolves to that account and a community index to that community's account; every other address form is refused. Writing an account back as an address and resolving it again gives the same account.",
  ["inputs"], "all address forms and values",
  "No test covers the address lookup.",
  [RT + "configuration/system_support.rs"],
  [("CommunityLookup", RT + "configuration/system_support.rs")],
  observe=["lookup, unlookup"])

p("R13", "Scheduling privilege: root outranks all, others equal only themselves",
  "When comparing the origins of scheduled tasks, equal origins rank equal and root ranks above every other origin. No other origin ever ranks at or above a different one.",
  ["inputs"], "all pairs of origins",
  "No test covers the comparison.",
  [RT + "impls.rs"],
  [("EqualOrGreatestRootCmp", RT + "impls.rs")],
  observe=["cmp_privilege"])

p("R14", "Only a community's members can open referenda for it, on its own track",
  "A referendum in a community's name can be submitted only by an account that is a member of the very community whose track the proposal's origin maps to, or by root. A community can change only the track that belongs to its own voice.",
  ["inputs", "histories"], "all pairs of submitter and proposal origin over several communities and memberships; all pairs of origin and track",
  "No test covers the runtime's submission rules.",
  [RT + "communities/governance.rs"],
  [("EnsureCommunityMember, EnsureOriginToTrack", RT + "communities/governance.rs")],
  observe=["try_origin"])

p("R15", "What is charged for a transaction is what is due, and all of it arrives",
  "For a transaction paid in the native token the sender loses exactly the corrected fee with the tip, and the treasury gets all of it. For one paid in an asset the sender loses that fee at the proportion of the asset's minimum balance to the native one, and the block's author gets all of it. Who cannot pay is refused without effect, and nobody else gains or loses.",
  ["inputs", "histories"], "all fees, tips and corrections, existing and missing authors, senders and recipients at the edge of the minimum balance",
  "No test covers what becomes of fees.",
  ["runtime/common/src/impls.rs", RT + "configuration/monetary_stuff.rs"],
  [("DealWithFees, AssetsToBlockAuthor and the fee adapters", "runtime/common/src/impls.rs")],
  observe=["balances and issuance before and after a charge"])

p("R16", "On the chain itself a payment ends in exactly one of its published ways",
  "Over any history of the chain's payment calls, by people, communities and modules, everybody's free and held funds are at every moment exactly what the published rules say: a fee of 1% and 3% where nobody is a community, an incentive of 10% on each side, the whole amount back when a refund is not disputed for 14400 blocks, and the ruled share after a dispute. A community pays by its voice just as by its account, only root rules on disputes, and a call by anybody else or at another stage is refused.",
  ["histories"], "histories of payments between people, communities and modules in two assets, with time passing up to and beyond the deadline of refunds",
  "The payments tests use a mock with other fees, incentives, deadlines and origins; none runs the chain's own configuration.",
  [RT + "payments.rs", PAY, RT + "configuration/system_support.rs"],
  [("pallet_payments::Config for Runtime", RT + "payments.rs"), ("the payments calls", PAY)],
  observe=["free and held balances of all parties and the treasury after every call and block"])

p("R17", "On the chain itself a community is founded whole, at its price, or not at all",
  "Registering a community costs half a unit, paid to the treasury by whoever signs, and nothing if root does it; nobody else can. It gives the community a collection of its own, a track of its own with the rules asked for or the usual ones, the lowest seat in the collective and its administrator, or else changes nothing. Memberships are created by root or by the origin made for it only, all of them the treasury's and for sale at the price named.",
  ["inputs", "histories"], "histories of registrations by all kinds of origins with all kinds of names, administrators, decision methods, rules and funds at the edge of the price",
  "The manager's tests use a mock with other origins, prices and collections.",
  [RT + "communities/mod.rs", RT + "communities/memberships.rs", RT + "communities/governance.rs", MGR],
  [("pallet_communities_manager::Config for Runtime", RT + "communities/mod.rs"), ("register, create_memberships", MGR)],
  observe=["balances, collections, tracks, seats, administrators and memberships after every call"])

p("R18", "Every privileged place of the chain admits just the origins published for it",
  "In each place where the chain checks an origin before it acts, such as minting assets, spending from the treasury, creating collections, managing collators and the collective, or sending messages, exactly the published origins pass, and each stands for the published account or identifier. Root moves seats of the collective to and from every rank. Subsets of a community, accounts resembling a module's or a community's and places in other chains never stand in for the whole.",
  ["inputs"], "all origins in every place that checks one",
  "No test covers the chain's choice of origins.",
  [RT + "configuration/monetary_stuff.rs", RT + "configuration/system_support.rs", RT + "communities/mod.rs", RT + "collective/mod.rs", RT + "xcm_config.rs", RT + "payments.rs", RT + "governance/mod.rs"],
  [("EnsureOrigin types in the Config implementations of the runtime", RT + "lib.rs")],
  observe=["try_origin through the configuration"])

p("R19", "Calls keep their place and meaning on the wire",
  "The modules and calls of the chain are found at the positions published for them, so that what was signed for one call is never taken for another, and a call that is read from bytes is written as the same bytes.",
  ["inputs"], "all pairs of module and call position, all bytes as arguments",
  "No test covers the positions of modules and calls.",
  [RT + "lib.rs", PAY, COM, MGR],
  [("the runtime's list of modules", RT + "lib.rs"), ("call indices", PAY)],
  observe=["decoding of calls"])

p("R20", "An incoming message gets nothing it has not brought, been sent or paid for",
  "A message from another place moves only assets of the account of the place it speaks for, or such as its sender may vouch for or teleport; it is executed only if it is paid for at the published price or comes from the relay chain or its executive body; what it pays goes where published, and assets left over are kept for whoever brought them. Over the whole message nothing is made from nothing and nothing is lost unannounced.",
  ["inputs", "histories"], "messages of up to about ten instructions from all kinds of places with assets of all kinds, funded and not",
  "No test covers the cross-chain configuration.",
  [RT + "xcm_config.rs", RT + "xcm_config/communities.rs", RT + "weights/xcm/mod.rs"],
  [("XcmConfig: Barrier, IsReserve, Trader, AssetTransactor, LocationToAccountId", RT + "xcm_config.rs")],
  observe=["outcome, all balances, issuance and trapped assets after a message"])

p("R21", "On the chain itself votes weigh what they should and lock just as much",
  "Over any history of opening, voting on, leaving and ending a community's referenda on the chain, each tally is the sum of the votes that count, one for each member, by rank, or by amounts of the native token or of the community's asset as the community decides; only its members vote and only on its own referenda. What a voter has frozen is always the largest of the amounts of votes that count or have not been unlocked.",
  ["histories"], "histories of two communities of all ways of deciding, with several referenda and members; ranks and ways of deciding do not change while votes count, and nobody votes twice on one referendum by two memberships",
  "The communities tests use a mock; none runs the chain's own referenda, tracks and balances together.",
  [RT + "communities/mod.rs", RT + "communities/governance.rs", COM],
  [("pallet_communities::Config, pallet_referenda::Config<Instance2> for Runtime", RT + "communities/mod.rs"), ("vote, remove_vote, unlock", COM)],
  observe=["tallies and frozen balances after every call"])

p("R22", "What the chain reports of an account's holdings is just what it has",
  "Asked for the holdings of an account, the chain lists the native token with the account's free balance and every other asset with its amount, each once and at the place it is known by across chains, and leaves out whatever the account has nothing of. What others hold never shows, and the report can always be given.",
  ["inputs"], "all accounts and holdings of the native token and of several local and foreign assets, including amounts around the minimum and the largest ones",
  "No test covers the chain's reports.",
  [RT + "apis.rs"],
  [("FungiblesApi query_account_balances", RT + "apis.rs")],
  observe=["query_account_balances against the balances held"])

p("R23", "The chain's own calls cost time, space and fees according to what they do",
  "Every call of the payments, communities and manager modules takes time, pays a fee and is an ordinary one, whatever its arguments. A payment costs more the longer its remark, creating memberships more the more there are, and a call made in a community's name costs more than, and is of the class of, the call inside. In the chain's own tables for assets and proxies every entry takes at least as long as looking something up, and none less for more; destroying accounts or approvals of an asset takes at least as long as touching each.",
  ["inputs"], "all calls of the three modules with any arguments, nested calls included; every entry of the tables for assets and proxies with any two sizes",
  "No test looks at weights.",
  [RT + "weights/pallet_payments.rs", RT + "weights/pallet_communities.rs", RT + "weights/pallet_communities_manager.rs", RT + "weights/pallet_assets.rs", RT + "weights/pallet_proxy.rs", COM, PAY, MGR],
  [("WeightInfo of the three modules", RT + "weights/mod.rs"), ("weights of the calls", COM)],
  observe=["dispatch info of calls as read from bytes"])

p("R24", "Only transactions meant for the chain are taken, once, at the right payer's cost",
  "A transaction signed for another chain, version, moment or number, by nobody, too long, without room in the block or not paid for is refused and costs nothing; a good one is taken, only once, and no kind of call is shut out. It costs the published price of its length, its base and what it really used: by the owner of the session whose key signed it, or else its signer, out of their gas if that suffices and otherwise in the chosen asset, and nobody else pays.",
  ["inputs"], "all signers with and without sessions, eras, nonces, tips, assets, lengths, calls, loads of the block, funds and gas around what is asked for",
  "No test submits a transaction.",
  [RT + "lib.rs", RT + "apis.rs", RT + "configuration/system_support.rs", RT + "configuration/monetary_stuff.rs"],
  [("SignedExtra", RT + "lib.rs"), ("BlockLength, BlockWeights, BaseCallFilter", RT + "configuration/system_support.rs"), ("validate_transaction", RT + "apis.rs")],
  observe=["validation, balances, gas and nonce around a transaction, and a repetition of it"])

p("R25", "Storing things locks up a deposit that follows their size",
  "For every item the chain keeps for somebody, and every byte of it, the same deposit is asked for: calls waiting for consent, by how many have to consent; proxies and announcements, by how many there are; preimages, names of assets and of memberships, attributes and the storage of contracts, by their length. An asset itself asks for a tenth of a token. Communities and memberships themselves ask for none, and a contract asks for no more than a megabyte in a thousand items when nothing is said.",
  ["inputs"], "every kind of thing stored, with any number or length",
  "No test looks at a deposit.",
  [RT + "lib.rs", RT + "contracts.rs", RT + "configuration/monetary_stuff.rs", RT + "communities/memberships.rs", RT + "constants.rs"],
  [("deposits of multisig, proxies, preimages", RT + "lib.rs"), ("deposits of assets", RT + "configuration/monetary_stuff.rs"), ("deposits of memberships", RT + "communities/memberships.rs"), ("DepositPerItem, DefaultDepositLimit", RT + "contracts.rs")],
  observe=["the deposits each module is given to ask for, added up as it does"])

p("R26", "Time and room are shared out as they must be",
  "Sessions end every six hours as the network counts them (1800 blocks), and are foretold to; blocks come every six seconds, and are reported to; collators are dropped after whole sessions; a device stays logged in for at most fifteen minutes as the network counts them. Of a block of two seconds and five megabytes ordinary transactions get three quarters and a quarter is kept for urgent ones, and what has to be done is not limited. A block keeps a quarter of its room for messages from above and one for messages from beside, at most 35% goes to those waiting and 80% to what was scheduled, and messages of the size the network allows fit. Funds not vested can pay fees, but not leave or be put aside. The treasury spends every six days and is open to claims for thirty; a community's proposals wait at most two weeks. Contracts calling each other as deep as they may fit into the memory they have, with room for what they store.",
  ["inputs"], "any block, around the ends of sessions and between them",
  "No test looks at any of these limits.",
  [RT + "lib.rs", RT + "contracts.rs", RT + "xcm_config.rs", RT + "configuration/system_support.rs", RT + "configuration/monetary_stuff.rs", RT + "communities/governance.rs"],
  [("Period, SpendPeriod, MaximumSchedulerWeight", RT + "lib.rs"), ("ReservedDmpWeight, ConsensusHook", RT + "configuration/system_support.rs"), ("UnvestedFundsAllowedWithdrawReasons", RT + "configuration/monetary_stuff.rs"), ("Schedule", RT + "contracts.rs")],
  observe=["what the modules are configured with, and the session that ends at a block"])

p("R27", "What the chain quotes for a transaction is what it will ask",
  "Asked what a transaction or a call costs, the chain answers with its weight, its class and the price of its base, its length and its weight, in one sum and in parts that add up to it, and with nothing for what nobody signed; the two interfaces that quote prices agree. The number it reports for an account's next transaction is the one it takes.",
  ["inputs"], "every call with any arguments, any length, signed or not, any number",
  "No test asks for a quote.",
  [RT + "apis.rs", RT + "configuration/monetary_stuff.rs"],
  [("query_info, query_fee_details, query_call_info, query_call_fee_details, account_nonce", RT + "apis.rs")],
  observe=["the answers of the chain's interfaces for fees and numbers"])

p("R28", "What is stored keeps its place and its form",
  "The code of the chain is replaced while it runs, and what was stored before must be found and read after. A payment is stored under who pays and its number, with asset, amount, beneficiary, incentive, state (made 0, under review 1, to be refunded 2 with the block, requested 3, over 4) and the fees of both sides, and its parties under its number, for as long as it is not undone. A community's state, administrator and way of deciding are stored under its number or the administrator's origin, each vote under its referendum and membership with the account that cast it, each lock under the account and referendum, and a tally as ayes, nays and unweighted ayes. Refunds stand in the schedule under the payment's number, and holds and freezes under the reasons of their module. The modules keep the names under which all of it is found.",
  ["histories"], "histories of payments by up to six parties in two assets, and of votes by six members of two communities with all ways of deciding, up to 24 steps",
  "No test looks at anything stored; within one build any form and place would do.",
  [PAY, PAYT, COM, COMT, RT + "lib.rs"],
  [("Payment, PaymentParties", PAY), ("PaymentDetail, PaymentState, Fees", PAYT), ("Info, CommunityIdFor, CommunityDecisionMethod, CommunityVotes, CommunityVoteLocks", COM), ("DecisionMethod, Vote, Tally, CommunityState", COMT)],
  observe=["the bytes of everything stored by the two modules, and of their keys"])

TOOL = "chain-spec-generator/src/"
p("S01", "The tool describes the chain asked for, and no other",
  "Asked for the live or the local chain by any of their names, the tool that writes descriptions of chains writes that one, in the form asked for: with the relay chain, number, token and decimals of its network, and collators that each have a key of their own, of which those of the local chain have funds. A description in a file is written as it stands or in raw form, with any of the spellings of its fields; anything else is refused, writing nothing and naming what is known.",
  ["inputs"], "both networks, all names and words close to them, files with any values, spellings and omissions, with and without asking for the raw form",
  "The tool has no tests.",
  [TOOL + "main.rs", TOOL + "common.rs", TOOL + "spec/mod.rs", TOOL + "spec/local.rs", TOOL + "spec/live/mod.rs"],
  [("main", TOOL + "main.rs"), ("Extensions", TOOL + "common.rs"), ("chain_spec, local_genesis", TOOL + "spec/local.rs"), ("chain_spec", TOOL + "spec/live/mod.rs")],
  observe=["what the program writes and whether it fails"])

p("S02", "Prices on Paseo follow from its token's ten decimals",
  "Built for Paseo, where a cent is a hundredth of a token of ten decimals, the runtime charges a base extrinsic a hundredth of a cent, ten kilobytes of proof one cent and each byte a hundredth of one, the dearer of time and proof deciding; an account must hold a tenth of a cent, and storing costs a hundredth of twenty tokens an item and a tenth of a cent a byte.",
  ["inputs"], "all weights, lengths and numbers of items and bytes up to the numeric limits",
  "No test is built for Paseo, and none covers the prices.",
  [RT + "constants.rs", "runtime/runtime-constants/src/lib.rs"],
  [("currency", "runtime/runtime-constants/src/lib.rs"), ("currency, WeightToFee", RT + "constants.rs")],
  observe=["fees of weights and lengths, deposits, minimum balance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
