//! Stand-in for sc-chain-spec. The raw form, which needs the compiled runtime, is marked as such and
//! carries the genesis it is of.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
pub use spec_derive::{ChainSpecExtension, ChainSpecGroup};
use std::{borrow::Cow, path::PathBuf};

pub type Properties = serde_json::map::Map<String, Value>;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum ChainType {
	Development,
	Local,
	#[default]
	Live,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
struct ClientSpec<E> {
	name: String,
	id: String,
	#[serde(default)]
	chain_type: ChainType,
	#[serde(default)]
	boot_nodes: Vec<String>,
	#[serde(default)]
	telemetry_endpoints: Option<Value>,
	#[serde(default)]
	protocol_id: Option<String>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	fork_id: Option<String>,
	#[serde(default)]
	properties: Option<Properties>,
	#[serde(flatten)]
	extensions: E,
	#[serde(default)]
	code_substitutes: Properties,
	genesis: Value,
}
#[derive(Clone, Debug)]
pub struct GenericChainSpec<E = Option<()>>(ClientSpec<E>);

pub trait ChainSpec {
	fn name(&self) -> &str;
	fn id(&self) -> &str;
	fn chain_type(&self) -> ChainType;
	fn properties(&self) -> Properties;
	fn as_json(&self, raw: bool) -> Result<String, String>;
}
impl<E: Serialize + Clone> ChainSpec for GenericChainSpec<E> {
	fn name(&self) -> &str {
		&self.0.name
	}
	fn id(&self) -> &str {
		&self.0.id
	}
	fn chain_type(&self) -> ChainType {
		self.0.chain_type
	}
	fn properties(&self) -> Properties {
		self.0.properties.clone().unwrap_or_default()
	}
	fn as_json(&self, raw: bool) -> Result<String, String> {
		let mut spec = self.0.clone();
		if raw && spec.genesis.get("raw").is_none() {
			spec.genesis = json!({ "raw": { "top": { "of": spec.genesis }, "childrenDefault": {} } });
		}
		serde_json::to_string_pretty(&spec).map_err(|e| format!("Error generating json: {e}"))
	}
}
impl<E: DeserializeOwned> GenericChainSpec<E> {
	pub fn from_json_bytes(json: impl Into<Cow<'static, [u8]>>) -> Result<Self, String> {
		serde_json::from_slice(&json.into()).map(Self).map_err(|e| format!("Error parsing spec file: {e}"))
	}
	pub fn from_json_file(path: PathBuf) -> Result<Self, String> {
		let bytes = std::fs::read(&path).map_err(|e| format!("Error opening spec file `{}`: {e}", path.display()))?;
		Self::from_json_bytes(bytes)
	}
}
impl<E> GenericChainSpec<E> {
	pub fn builder(code: &[u8], extensions: E) -> ChainSpecBuilder<E> {
		ChainSpecBuilder(ClientSpec {
			name: "Development".into(),
			id: "dev".into(),
			chain_type: ChainType::Local,
			boot_nodes: vec![],
			telemetry_endpoints: None,
			protocol_id: None,
			fork_id: None,
			properties: None,
			extensions,
			code_substitutes: Default::default(),
			genesis: json!({ "runtimeGenesis": { "code": code.iter().map(|b| format!("{b:02x}")).collect::<String>() } }),
		})
	}
}
pub struct ChainSpecBuilder<E = Option<()>>(ClientSpec<E>);
impl<E> ChainSpecBuilder<E> {
	pub fn with_name(mut self, x: &str) -> Self {
		self.0.name = x.into();
		self
	}
	pub fn with_id(mut self, x: &str) -> Self {
		self.0.id = x.into();
		self
	}
	pub fn with_chain_type(mut self, x: ChainType) -> Self {
		self.0.chain_type = x;
		self
	}
	pub fn with_boot_nodes(mut self, x: Vec<String>) -> Self {
		self.0.boot_nodes = x;
		self
	}
	pub fn with_protocol_id(mut self, x: &str) -> Self {
		self.0.protocol_id = Some(x.into());
		self
	}
	pub fn with_fork_id(mut self, x: &str) -> Self {
		self.0.fork_id = Some(x.into());
		self
	}
	pub fn with_properties(mut self, x: Properties) -> Self {
		self.0.properties = Some(x);
		self
	}
	pub fn with_extensions(mut self, x: E) -> Self {
		self.0.extensions = x;
		self
	}
	pub fn with_genesis_config_patch(mut self, x: Value) -> Self {
		self.0.genesis["runtimeGenesis"]["patch"] = x;
		self
	}
	pub fn with_genesis_config(mut self, x: Value) -> Self {
		self.0.genesis["runtimeGenesis"]["config"] = x;
		self
	}
	pub fn build(self) -> GenericChainSpec<E> {
		GenericChainSpec(self.0)
	}
}
