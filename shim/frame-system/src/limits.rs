use frame_support::{dispatch::{DispatchClass, OneOrMany, PerDispatchClass}, weights::{constants, Weight}};
use shim_base::{core::Get, runtime::{Perbill, traits::Bounded}};
#[derive(Debug, Clone)]
pub struct BlockLength { pub max: PerDispatchClass<u32> }
impl Default for BlockLength { fn default() -> Self { Self::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75)) } }
impl BlockLength {
	pub fn max(m: u32) -> Self { Self { max: PerDispatchClass::new(|_| m) } }
	pub fn max_with_normal_ratio(m: u32, n: Perbill) -> Self { Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { n * m } else { m }) } }
}
#[derive(Debug, Clone)]
pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
#[derive(Debug, Clone)]
pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub per_class: PerDispatchClass<WeightsPerClass> }
impl Default for BlockWeights { fn default() -> Self { Self::with_sensible_defaults(Weight::from_parts(constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX), Perbill::from_percent(75)) } }
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { self.per_class.get(c) }
	pub fn validate(self) -> Result<Self, Vec<String>> {
		let mut e = vec![];
		for c in DispatchClass::all() {
			let w = self.per_class.get(*c);
			if w.max_extrinsic.unwrap_or(Weight::zero()).saturating_add(w.base_extrinsic).any_gt(w.max_total.unwrap_or(Weight::MAX)) { e.push(format!("{c:?}: max extrinsic")) }
			if w.reserved.unwrap_or(Weight::MAX).any_gt(self.max_block) && w.reserved.is_some() { e.push(format!("{c:?}: reserved")) }
		}
		if e.is_empty() { Ok(self) } else { Err(e) }
	}
	pub fn simple_max(w: Weight) -> Self {
		Self::builder().base_block(Weight::zero()).for_class(DispatchClass::all(), |x| x.base_extrinsic = Weight::zero()).for_class(DispatchClass::non_mandatory(), |x| x.max_total = w.into()).build().expect("valid")
	}
	pub fn with_sensible_defaults(w: Weight, n: Perbill) -> Self {
		let normal = n * w;
		Self::builder()
			.for_class(DispatchClass::Normal, |x| x.max_total = normal.into())
			.for_class(DispatchClass::Operational, |x| { x.max_total = w.into(); x.reserved = (w - normal).into() })
			.avg_block_initialization(Perbill::from_percent(10))
			.build().expect("valid")
	}
	pub fn builder() -> BlockWeightsBuilder {
		BlockWeightsBuilder {
			weights: BlockWeights {
				base_block: constants::BlockExecutionWeight::get(),
				max_block: Weight::zero(),
				per_class: PerDispatchClass::new(|c| { let i = if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) }; WeightsPerClass { base_extrinsic: constants::ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: i, reserved: i } }),
			},
			init_cost: None,
		}
	}
}
pub struct BlockWeightsBuilder { weights: BlockWeights, init_cost: Option<Perbill> }
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self { self.weights.base_block = w; self }
	pub fn avg_block_initialization(mut self, p: Perbill) -> Self { self.init_cost = Some(p); self }
	pub fn for_class(mut self, c: impl OneOrMany<DispatchClass>, f: impl Fn(&mut WeightsPerClass)) -> Self { for c in c.into_iter() { f(self.weights.per_class.get_mut(c)) } self }
	pub fn build(self) -> Result<BlockWeights, Vec<String>> {
		let Self { mut weights, init_cost } = self;
		for c in DispatchClass::all() { if let Some(m) = weights.per_class.get(*c).max_total { weights.max_block = m.max(weights.max_block) } }
		if let Some(i) = init_cost.map(|r| r * weights.max_block) {
			for c in DispatchClass::all() {
				let p = weights.per_class.get_mut(*c);
				if p.max_extrinsic.is_none() { p.max_extrinsic = p.max_total.map(|x| x.saturating_sub(i)).map(|x| x.saturating_sub(p.base_extrinsic)) }
			}
		}
		weights.validate()
	}
	pub fn build_or_panic(self) -> BlockWeights { self.build().expect("valid") }
}
#[allow(unused)]
fn _u<T: Bounded, G: Get<u32>>() {}
