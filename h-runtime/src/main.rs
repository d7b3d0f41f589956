//! The runtime: what its configuration makes of the modules.
mod calls;
mod life;
mod limits;
mod messages;
mod money;
mod origins;
mod reports;
mod stored;
mod transactions;
mod world;

use vkit::{Check, Part};

const ASSUMPTIONS: &[&str] = &[
	"the real sources of the runtime and of its own modules are compiled against stand-ins for the framework crates",
	"the stand-ins do what the framework's interfaces say",
];

macro_rules! part {
	($name:literal, $case:ty, $quick:expr, $thorough:expr, $strategy:path, $check:path) => {
		part!($name, $case, $quick, $thorough, $strategy, $check, None)
	};
	($name:literal, $case:ty, $quick:expr, $thorough:expr, $strategy:path, $check:path, $sweep:expr) => {
		Box::new(Part::<$case> { name: $name, quick: $quick, thorough: $thorough, strategy: $strategy, check: $check, sweep: $sweep })
	};
}

fn main() {
	vkit::main_with(vec![
		Check {
			id: "R01",
			rule: "a party is an account of a module, a chain or nearly a community, or the minimum balance decides a fee",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("fees", money::FeeCase, 6_000_000, 40_000_000, money::fees, money::check_fees)],
		},
		Check {
			id: "R02",
			rule: "a history with at least two different blocks, extrinsics or beneficiaries",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("histories", money::IdCase, 800_000, 10_000_000, money::ids, money::check_ids)],
		},
		Check {
			id: "R03",
			rule: "a call permitted to some limited kind of proxy and refused to another",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("calls", calls::CallCase, 1_600_000, 8_000_000, calls::calls, calls::check_proxies, Some(calls::all_calls))],
		},
		Check {
			id: "R04",
			rule: "the asset is one that some chain vouches for, or lies where those do",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("claims", messages::ReserveCase, 3_200_000, 20_000_000, messages::reserves, messages::check_reserves)],
		},
		Check {
			id: "R05",
			rule: "the place has an account or consists of at most one junction",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("places", messages::PlaceCase, 2_400_000, 16_000_000, messages::places, messages::check_places)],
		},
		Check {
			id: "R06",
			rule: "the account is one of a module, a chain or a community, or nearly so",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("accounts", origins::SpeakCase, 1_200_000, 8_000_000, origins::speakers, origins::check_speakers)],
		},
		Check {
			id: "R07",
			rule: "the answer is right or the block is of the recent past",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("logins", origins::LoginCase, 1_600_000, 12_000_000, origins::logins, origins::check_logins)],
		},
		Check {
			id: "R08",
			rule: "every case: an origin and two moments of a decision",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("tracks", origins::TrackCase, 2_000_000, 12_000_000, origins::tracks, origins::check_tracks, Some(origins::every_org))],
		},
		Check {
			id: "R09",
			rule: "both the time and the proof size have a price",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("weights", money::WeightCase, 8_000_000, 60_000_000, money::weights, money::check_weights)],
		},
		Check {
			id: "R10",
			rule: "every case: an instruction and how many assets it names",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("instructions", messages::CostCase, 1_200_000, 8_000_000, messages::costs, messages::check_costs)],
		},
		Check {
			id: "R11",
			rule: "a call that exists; an origin that is root, a community or a community's account; a message of somebody privileged, or narrowed",
			assumptions: ASSUMPTIONS,
			parts: vec![
				part!("contract calls", calls::CallCase, 1_200_000, 6_000_000, calls::calls, calls::check_contract_calls, Some(calls::all_calls)),
				part!("contract origins", world::Org, 1_200_000, 6_000_000, world::org, origins::check_contract_origins),
				part!("messages", messages::GateCase, 2_000_000, 12_000_000, messages::gates, messages::check_gates),
				part!("messages of one's own", messages::OwnCase, 800_000, 4_000_000, messages::own, messages::check_own),
			],
		},
		Check {
			id: "R12",
			rule: "every case: an address",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("addresses", origins::AddrCase, 2_000_000, 12_000_000, origins::addresses, origins::check_addresses)],
		},
		Check {
			id: "R13",
			rule: "every case: a pair of origins",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("pairs", origins::RankCase, 2_000_000, 12_000_000, origins::ranks, origins::check_ranks)],
		},
		Check {
			id: "R14",
			rule: "the name is that of a registered community and some community has members",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("submissions", origins::SubmitCase, 1_600_000, 8_000_000, origins::submissions, origins::check_submissions)],
		},
		Check {
			id: "R15",
			rule: "a fee of more than zero reached somebody who can take it",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("charges", money::ChargeCase, 3_200_000, 20_000_000, money::charges, money::check_charges)],
		},
		Check {
			id: "R16",
			rule: "a payment came to an end, and something was refused, resolved or refunded by time",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("deals", life::DealCase, 600_000, 8_000_000, life::deals, life::check_deals)],
		},
		Check {
			id: "R17",
			rule: "something was done and something was refused",
			assumptions: ASSUMPTIONS,
			parts: vec![
				part!("registrations", life::EntryCase, 250_000, 3_000_000, life::entries, life::check_entries),
				part!("memberships", Vec<life::Minting>, 150_000, 1_500_000, life::mintings, life::check_mintings),
			],
		},
		Check {
			id: "R18",
			rule: "every case: an origin, tried in every place where the runtime checks one",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("origins", world::Org, 1_200_000, 8_000_000, world::org, origins::check_slots)],
		},
		Check {
			id: "R19",
			rule: "bytes that are a call",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("calls", calls::CallCase, 1_200_000, 6_000_000, calls::calls, calls::check_published, Some(calls::all_calls))],
		},
		Check {
			id: "R20",
			rule: "a message of at least three instructions that was let in and got beyond the first",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("messages", messages::MessageCase, 600_000, 6_000_000, messages::messages, messages::check_messages)],
		},
		Check {
			id: "R21",
			rule: "at least two votes were cast and something was refused or freed",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("votes", life::VoteCase, 200_000, 2_500_000, life::votes, life::check_votes)],
		},
		Check {
			id: "R22",
			rule: "the account holds at least two things and somebody else holds something",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("holdings", reports::HoldingsCase, 1_600_000, 10_000_000, reports::holdings, reports::check_holdings)],
		},
		Check {
			id: "R23",
			rule: "every case that is a call",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("calls", reports::WeighCase, 2_000_000, 10_000_000, reports::weighings, reports::check_weighings)],
		},
		Check {
			id: "R24",
			rule: "the transaction is taken, or one thing alone is wrong with it",
			assumptions: ASSUMPTIONS,
			parts: vec![
				part!("transactions", transactions::TxCase, 1_600_000, 10_000_000, transactions::transactions, transactions::check_transactions),
				part!("calls", calls::CallCase, 400_000, 2_000_000, calls::calls, transactions::check_open, Some(calls::all_calls)),
			],
		},
		Check {
			id: "R25",
			rule: "there is something of what is stored",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("deposits", limits::DepositCase, 4_000_000, 30_000_000, limits::deposits, limits::check_deposits)],
		},
		Check {
			id: "R26",
			rule: "a block after the first",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("blocks", limits::RoomCase, 2_000_000, 15_000_000, limits::rooms, limits::check_rooms)],
		},
		Check {
			id: "R27",
			rule: "the quote is for a call, with a length",
			assumptions: ASSUMPTIONS,
			parts: vec![part!("quotes", reports::QuoteCase, 1_000_000, 6_000_000, reports::quotes, reports::check_quotes)],
		},
		Check {
			id: "R28",
			rule: "at least two payments or two votes are stored in the end",
			assumptions: ASSUMPTIONS,
			parts: vec![
				part!("payments", life::DealCase, 400_000, 5_000_000, life::deals, stored::check_payments),
				part!("communities", life::VoteCase, 200_000, 2_500_000, life::votes, stored::check_communities),
			],
		},
	])
}
