#!/usr/bin/env python3
"""Writes shims/rt/*: one crate for each name the runtime depends on, with what kreivo-deps has for it;
and the manifests of the runtime crates in derived/. Run it again after adding a module there."""
import os, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = {"frame-support", "frame-system", "sp-core", "sp-runtime", "sp-std", "sp-io", "sp-weights", "xcm", "fc-traits-memberships", "fc-traits-tracks"}
RENAMED = {"pallet-referenda", "pallet-nfts"}  # there are crates of these names already
MACROS = {"polkadot-runtime-common": ["prod_or_fast"], "fc-traits-authn": ["composite_authenticator"],
          "cumulus-pallet-parachain-system": ["register_validate_block"], "pallet-referenda": ["impl_tracksinfo_get"]}
DEPS = """assets-common frame-executive frame-system-rpc-runtime-api pallet-assets-freezer pallet-asset-tx-payment pallet-assets pallet-aura
pallet-authorship pallet-balances pallet-contracts pallet-multisig pallet-nfts pallet-preimage pallet-proxy pallet-ranked-collective pallet-referenda
pallet-scheduler pallet-session pallet-skip-feeless-payment pallet-sudo pallet-timestamp pallet-transaction-payment
pallet-transaction-payment-rpc-runtime-api pallet-treasury pallet-utility pallet-vesting sp-api sp-block-builder sp-consensus-aura sp-genesis-builder
sp-inherents sp-offchain sp-session sp-transaction-pool sp-version pallet-xcm polkadot-core-primitives polkadot-parachain-primitives polkadot-primitives
polkadot-runtime-common xcm-builder xcm-executor cumulus-pallet-aura-ext cumulus-pallet-parachain-system cumulus-pallet-session-benchmarking
cumulus-pallet-xcm cumulus-pallet-xcmp-queue cumulus-primitives-aura cumulus-primitives-core cumulus-primitives-timestamp cumulus-primitives-utility
pallet-collator-selection pallet-message-queue parachain-info parachains-common fc-traits-authn fc-traits-gas-tank pallet-gas-transaction-payment
pallet-pass pallet-referenda-tracks pass-webauthn""".split()

def write(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if not path.exists() or path.read_text() != text:
        path.write_text(text)

for d in DEPS:
    mod = d.replace("-", "_")
    pkg = "rt-" + d if d in RENAMED else d
    lib = f'[lib]\nname = "{mod}"\n' if d in RENAMED else ""
    extra = f'{d} = {{ path = "../../{d}" , package = "{d}" }}\n' if False else ""
    write(ROOT / "shims/rt" / d / "Cargo.toml", f'''[package]
name = "{pkg}"
version = "0.1.0"
edition = "2021"
{lib}[features]
default = ["std"]
std = []
runtime = []
runtime-benchmarks = []
try-runtime = []
[dependencies]
kreivo-deps = {{ path = "../../kreivo-deps" }}
''')
    src = f"#[allow(unused_imports)]\npub use kreivo_deps::{mod}::*;\n"
    if d == "pallet-referenda":
        src += "pub use kreivo_deps::pallet_referenda::{impl_tracksinfo_get, TrackInfoOf};\n"
    else:
        for m in MACROS.get(d, []):
            src += f"pub use kreivo_deps::{m};\n"
    write(ROOT / "shims/rt" / d / "src/lib.rs", src)

def dep(d):
    if d in BASE:
        return f'{d} = {{ path = "../../shims/{d}" }}\n'
    p = f'package = "rt-{d}", ' if d in RENAMED else ""
    return f'{d} = {{ {p}path = "../../shims/rt/{d}" }}\n'

COMMON = '''parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
scale-info = { version = "=2.11.6", features = ["derive"] }
log = "0.4"
smallvec = "1"
'''
FEATURES = '''
[features]
default = ["std"]
std = []
runtime-benchmarks = []
try-runtime = []
'''
def derived(name, path, deps, extra="", build="", features=FEATURES):
    write(ROOT / "derived" / name / "Cargo.toml", f'''# Compiles the sources of {path} against the stand-ins.
[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
{build}
[lib]
path = "{path}/src/lib.rs"
doctest = false
test = false

[dependencies]
{COMMON}''' + "".join(dep(d) for d in sorted(set(deps))) + extra + features)

derived("runtime-constants", "/repo/runtime/runtime-constants", sorted(BASE) + ["polkadot-primitives", "polkadot-runtime-common", "xcm-builder", "polkadot-core-primitives"],
        features=FEATURES + "paseo = []\n")
derived("runtime-common", "/repo/runtime/common", sorted(BASE) + DEPS, 'runtime-constants = { path = "../runtime-constants" }\n')
derived("kreivo-runtime", "/repo/runtime/kreivo", sorted(BASE) + DEPS, '''runtime-constants = { path = "../runtime-constants" }
runtime-common = { path = "../runtime-common" }
virto-common = { path = "../virto-common", features = ["runtime"] }
pallet-communities = { path = "../pallet-communities", features = ["xcm"] }
pallet-communities-manager = { path = "../pallet-communities-manager" }
pallet-payments = { path = "../pallet-payments" }
''', build='build = "build.rs"\n', features=FEATURES + 'paseo = ["runtime-constants/paseo"]\n')
write(ROOT / "derived/kreivo-runtime/build.rs", '''//! The sources include what the real build script leaves.
fn main() {
	let out = std::env::var("OUT_DIR").expect("set by cargo");
	std::fs::write(format!("{out}/wasm_binary.rs"), "pub const WASM_BINARY: Option<&[u8]> = Some(&[0x57]);\\n").expect("a writable OUT_DIR");
}
''')
