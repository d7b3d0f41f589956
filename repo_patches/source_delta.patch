From 80091a65a4cc77745dd7b5a8e3dba596f5890df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:48 +0000
Subject: [PATCH 01/18] fix: decline payment ids too long to parse instead of
 panicking

Parsing a text with a separator copied it into a 12 byte buffer without
checking its length. Longer texts panicked. They are now declined.
---
 common/src/payment_id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..fef0a68 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,7 +100,9 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
-- 
2.43.0


From a11f7c897af6ddac9e9d55ef597a32b0dddef56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:48 +0000
Subject: [PATCH 02/18] fix: decline payment id texts that are shorter than an
 id

Texts that decode to fewer than eight bytes were padded with zeros and
taken for a payment id that is written differently. They are now declined.
---
 common/src/payment_id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index fef0a68..163756c 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -108,7 +108,9 @@ impl core::str::FromStr for PaymentId {
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if bs58::decode(input).onto(&mut out[..]).map_err(|_| ())? != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From 8d624659628bf188dbd32572cb2fa696a316757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:29 +0000
Subject: [PATCH 03/18] fix: decline local asset locations whose index is out
 of range

Converting a location with a general index above u32 panicked. Such a
location is no asset of this chain, so it is now declined.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From 33195e12c757141aee2e8df7f358d76e77b01eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 04/18] fix: accept only payments that were requested

---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..258bd52 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,10 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 51e86302a356b1f8dc1a4b721bcbab449cffcc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 05/18] fix: keep mandatory and optional fees to one recipient
 apart

---
 pallets/payments/src/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..22ca9f0 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,8 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		// fees due in disputes are kept apart from those that are not
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +134,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 6931f22f9b84a17be8affd7992a139af58d517b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 06/18] fix: refuse a payment id taken by another sender's
 payment

---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 258bd52..27a77ea 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -528,6 +528,10 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		// the identifier must not be taken by a payment of somebody else
+		if let Ok((current_sender, _)) = PaymentParties::<T>::get(payment_id) {
+			ensure!(current_sender == *sender, Error::<T>::PaymentAlreadyInProcess);
+		}
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 			if let Ok(payment) = maybe_payment {
 				ensure!(
-- 
2.43.0


From 812d4896fe32db6fe1bcd5ca5a6fe93364ed3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 07/18] fix: unschedule the refund of a payment cancelled
 before its deadline

---
 pallets/payments/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 27a77ea..b2e8bdf 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -411,6 +411,8 @@ pub mod pallet {
 				}
 				PaymentState::RefundRequested { cancel_block: _ } => {
 					Self::cancel_payment(&sender, payment)?;
+					// not scheduled anymore when it is the scheduler who cancels
+					let _ = T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256));
 					Self::deposit_event(Event::PaymentRefunded { payment_id });
 				}
 				_ => fail!(Error::<T>::InvalidAction),
-- 
2.43.0


From 9cd3d4acb7cd5d917bb534e5f7ad3cc6ba9fdebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 08/18] fix: let only a community's own administration set its
 decision method

---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..2150c88 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,10 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(
+				T::AdminOrigin::ensure_origin(origin)? == community_id,
+				DispatchError::BadOrigin
+			);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From be6b607a85876b5199e122decea979831cd07587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 09/18] fix: refuse to hand a community over to an origin that
 administers another

---
 pallets/communities/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2150c88..171bcf4 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -401,6 +401,11 @@ pub mod pallet {
 				DispatchError::BadOrigin
 			);
 
+			ensure!(
+				CommunityIdFor::<T>::get(&admin_origin).map_or(true, |id| id == community_id),
+				Error::<T>::AlreadyAdmin
+			);
+
 			CommunityIdFor::<T>::remove(origin.caller());
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
 
-- 
2.43.0


From ad773436071635791e41597860d0a2eae43c4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 10/18] fix: remove a membership only from the account that
 holds it

---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 171bcf4..20d105b 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -453,6 +453,10 @@ pub mod pallet {
 			let who = T::Lookup::lookup(who)?;
 
 			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From 0357ec686fb7222b3398bcc6c8dfa50356f9ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 11/18] fix: announce the rank a demoted membership ends up
 with

---
 pallets/communities/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 20d105b..0d7c741 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -484,7 +484,8 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
 			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = rank.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From e1591fde21a36ce84d678f6d8e25d77525ec2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 12/18] fix: compute approval without overflowing on large
 tallies

---
 pallets/communities/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..eb88fe5 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,7 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		Perbill::from_rational(self.ayes as u64, 1.max(self.ayes as u64 + self.nays as u64))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 8c28b6fa3fe9f514eedad0850bd1d006dcc4e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:46 +0000
Subject: [PATCH 13/18] fix: never multiply amount votes by rank when taking
 them back

---
 pallets/communities/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities/src/functions.rs b/pallets/communities/src/functions.rs
index 6241feb..1f8d0ca 100644
--- a/pallets/communities/src/functions.rs
+++ b/pallets/communities/src/functions.rs
@@ -124,7 +124,7 @@ impl<T: Config> Pallet<T> {
 
 			let (vote, voter) = CommunityVotes::<T>::get(poll_index, membership_id).ok_or(Error::<T>::NoVoteCasted)?;
 			let vote_multiplier = match decision_method {
-				DecisionMethod::Rank => T::MemberMgmt::rank_of(community_id, membership_id)
+				DecisionMethod::Rank if matches!(vote, Vote::Standard(_)) => T::MemberMgmt::rank_of(community_id, membership_id)
 					.unwrap_or_default()
 					.into(),
 				_ => 1,
-- 
2.43.0


From f014470e9e411180f40bd4af7822582728622e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:46 +0000
Subject: [PATCH 14/18] fix: count the last membership when identifiers run out

---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 755d206da5e92285e104954945f936f49f3b98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:57 +0000
Subject: [PATCH 15/18] fix: accept reserve-backed assets only from their
 reserve

Any chain could claim to have deposited assets that live on Asset Hub:
the origin of the message was not looked at. Such a claim is now accepted
only when the message comes from Asset Hub itself.
---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From 0135e7eec3ffb9cd0f1662596f2e2f61d447fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:57 +0000
Subject: [PATCH 16/18] fix: give no account to bodies that cannot be
 communities

A body with an index above the largest community id was given the account
of the community with the largest id. It now has no account.
---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..7d7d7b4 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From c454e12992ee53fec9e4ded9b73029ccb1f574d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:57 +0000
Subject: [PATCH 17/18] fix: take only community accounts for communities

The accounts of other modules, such as the treasury, were taken for the
community with the same sub-account number. The module is now checked.
---
 runtime/kreivo/src/communities/mod.rs        | 4 +++-
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..ac98e61 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,9 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		PalletId::try_from_sub_account(&a)
+			.and_then(|(pallet_id, id)| (pallet_id == CommunityPalletId::get()).then_some(id))
+			.ok_or(())
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7d7d7b4..3abd3dd 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -49,9 +49,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != T::PalletId::get() {
+			return Err(o);
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From 8386f4face1be30320137b003e5af523217bfe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:57 +0000
Subject: [PATCH 18/18] fix: refuse login challenges of blocks without a hash

The hash of the current block and of later ones is not known and reads as
zeros, so that a challenge of zeros was accepted for them.
---
 runtime/kreivo/src/configuration/system_support.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..2f342ed 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,8 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		(*cx >= now.saturating_sub(3) && *cx < now).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0

