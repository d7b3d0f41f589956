# Shared by setup.sh and check.sh.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_DIR/target" RUSTFLAGS="-Awarnings"

harness_of() {
	case "$1" in
	A*) echo h-common ;;
	P*) echo h-payments ;;
	C*) echo h-communities ;;
	G*) echo h-manager ;;
	R*) echo h-runtime ;;
	S*) echo h-spec ;;
	*) return 1 ;;
	esac
}
HARNESSES="h-common h-payments h-communities h-manager h-runtime h-spec"

# The packages of a harness that are compiled from /repo.
repo_packages() {
	case "$1" in
	h-common) echo virto-common ;;
	h-payments) echo virto-common pallet-payments h-payments ;;
	h-communities) echo virto-common pallet-communities h-communities ;;
	h-manager) echo virto-common pallet-communities pallet-communities-manager h-manager ;;
	h-runtime) echo virto-common pallet-payments pallet-communities pallet-communities-manager runtime-constants runtime-common kreivo-runtime h-runtime ;;
	h-spec) echo virto-common pallet-payments pallet-communities pallet-communities-manager runtime-constants runtime-common kreivo-runtime h-spec h-spec-kusama ;;
	esac
}

# The crates a harness consists of.
crates_of() { case "$1" in h-spec) echo h-spec h-spec-kusama ;; *) echo "$1" ;; esac; }

# The sources of the tool are copied, as one of the files they include is not in the repository.
prepare() {
	[ "$1" = h-spec ] || return 0
	rm -rf "$CARGO_TARGET_DIR/tool" && cp -r /repo/chain-spec-generator/src "$CARGO_TARGET_DIR/tool" || return 1
	local live="$CARGO_TARGET_DIR/tool/spec/live"
	[ -d "$live" ] && [ ! -e "$live/kreivo_kusama_chainspec.json" ] && cp "$VERIF_DIR/h-spec-kusama/live.json" "$live/kreivo_kusama_chainspec.json"
	return 0
}

# Builds a harness. Freshness is decided by the contents of /repo's sources, not by file times.
build() {
	local h="$1" stamp sum log
	mkdir -p "$CARGO_TARGET_DIR"
	(
		flock 9
		sum=$( (cd /repo && find common pallets runtime chain-spec-generator -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -path 'chain-spec-generator/*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
		stamp="$CARGO_TARGET_DIR/$h.sum"
		# The harnesses share what they are built from, so with other sources all of them are out of date.
		[ "$(cat "$CARGO_TARGET_DIR/sources" 2>/dev/null)" = "$sum" ] || rm -f "$CARGO_TARGET_DIR"/*.sum
		echo "$sum" > "$CARGO_TARGET_DIR/sources"
		if [ ! -f "$stamp" ]; then
			prepare "$h" || exit 1
			for c in $(crates_of "$h"); do
				for p in $(repo_packages "$h"); do
					cargo clean --release --offline --manifest-path "$VERIF_DIR/$c/Cargo.toml" -p "$p" >/dev/null 2>&1
				done
			done
		fi
		log="$CARGO_TARGET_DIR/$h.log"
		for c in $(crates_of "$h"); do
			if ! cargo build --release --offline --locked --manifest-path "$VERIF_DIR/$c/Cargo.toml" >"$log" 2>&1; then
				grep -v '^warning' "$log" | tail -60 >&2
				exit 1
			fi
		done
		touch "$stamp"
	) 9>"$CARGO_TARGET_DIR/.lock"
}
