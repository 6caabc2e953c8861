//! Delegations with schema permissions, and a reference model of them (M02 checks that the pallet
//! agrees with it; the other harnesses use it to say who may act for whom).
use super::*;
use common_primitives::msa::{DelegatorId, ProviderId};
use std::collections::BTreeMap;

#[derive(Clone, Default)]
struct Grant {
	revoked: Option<u32>,
	schemas: BTreeMap<u16, Option<u32>>,
}
#[derive(Clone, Default)]
pub struct Grants(BTreeMap<(u64, u64), Grant>);
impl Grants {
	/// The provider's list of permissions becomes exactly these.
	pub fn grant(&mut self, d: u64, p: u64, ids: &[u16]) -> DispatchResult {
		let now = block();
		Msa::upsert_schema_permissions(ProviderId(p), DelegatorId(d), ids.to_vec())?;
		let g = self.0.entry((d, p)).or_default();
		g.revoked = None;
		for (id, end) in g.schemas.iter_mut() {
			if !ids.contains(id) && end.is_none() {
				*end = Some(now);
			}
		}
		for id in ids {
			g.schemas.insert(*id, None);
		}
		Ok(())
	}
	/// The delegation ends in this block.
	pub fn revoke(&mut self, d: u64, p: u64) {
		let now = block();
		if Msa::revoke_provider(ProviderId(p), DelegatorId(d)).is_ok() {
			if let Some(g) = self.0.get_mut(&(d, p)) {
				g.revoked = Some(now);
				for end in g.schemas.values_mut() {
					end.get_or_insert(now);
				}
			}
		}
	}
	/// May the provider act for the delegator with this schema in the current block?
	pub fn permitted(&self, d: u64, p: u64, s: u16) -> bool {
		let now = block();
		self.0.get(&(d, p)).map_or(false, |g| g.revoked.map_or(true, |r| now <= r) && g.schemas.get(&s).map_or(false, |e| e.map_or(true, |e| now <= e)))
	}
	pub fn pairs(&self) -> Vec<(u64, u64)> {
		self.0.keys().cloned().collect()
	}
}
