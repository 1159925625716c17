# Sourced by the other scripts here: the toolchain, and a build of the simulator from /repo.
set -u
export HOME="${HOME:-/root}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR OPTIVORBIS_VERSION OPTIVORBIS_BUILD_DATE SOURCE_DATE_EPOCH
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
root=/verif
mkdir -p "$root/target" "$root/evidence"

# What is in the sources decides whether they are built again, not how old the files are.
stamp() {
	(cd /repo && find packages Cargo.toml Cargo.lock -type f -not -path '*/node_modules/*' -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
build() {
	exec 9>"$root/target/build.lock"
	flock 9
	local now old=
	now=$(stamp)
	[ -f "$root/target/stamp-$1" ] && old=$(cat "$root/target/stamp-$1")
	local log="$root/target/build-$1.log" code=0
	: >"$log"
	case $1 in
	sim)
		if [ "$now" != "$old" ] && [ -d "$root/target/sim" ]; then
			(cd "$root/sim" && cargo clean --offline -p optivorbis -p vorbis_bitpack -p vorbis_bitpack_lean -p optivorbis_plain) >>"$log" 2>&1
		fi
		(cd "$root/sim" && cargo build --offline --locked) >>"$log" 2>&1 || code=$?
		;;
	cli)
		# The overflow checks stay on; assertions that release builds do not have are off
		(cd /repo && if [ "$now" != "$old" ]; then
			cargo clean --offline --target-dir "$root/target/cli" -p optivorbis -p vorbis_bitpack -p optivorbis_cli
		fi
		CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 \
			cargo build --offline --locked -p optivorbis_cli --target-dir "$root/target/cli") >>"$log" 2>&1 || code=$?
		gcc -O1 -shared -fPIC -o "$root/target/shim.so.new" "$root/shim/shim.c" >>"$log" 2>&1 && mv "$root/target/shim.so.new" "$root/target/shim.so" || code=$?
		;;
	wasm)
		# The standard library is built from the sources that come with the toolchain. Arithmetic wraps
		# around as in release builds: the native library, with its wider words, has no such overflows
		# to compare with
		local lib="$(rustc --print sysroot)/lib/rustlib/src/rust/library"
		rm -rf "$root/target/vendor"
		python3 "$root/tools/vendor.py" "$lib" "$root/target/vendor" /repo/Cargo.lock "$lib/Cargo.lock" >>"$log" 2>&1 || code=$?
		(cd /repo && if [ "$now" != "$old" ]; then
			cargo clean --offline --target-dir "$root/target/wasm" --target wasm32-unknown-unknown -p optivorbis -p vorbis_bitpack
		fi
		OPTIVORBIS_VERSION="v$(sed -n 's/^version = "\(.*\)"/\1/p' Cargo.toml | head -n 1)" \
		RUSTC_BOOTSTRAP=1 CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false \
			cargo build --offline --locked -p optivorbis --features wasm-web-bindings --target wasm32-unknown-unknown -Zbuild-std=std,panic_abort \
			--target-dir "$root/target/wasm" --config 'source.crates-io.replace-with="here"' --config "source.here.directory=\"$root/target/vendor\"") >>"$log" 2>&1 || code=$?
		;;
	esac
	if [ $code -ne 0 ]; then
		tail -n 60 "$log" >&2
		echo "cannot build ($1)" >&2
		exit 3
	fi
	echo "$now" >"$root/target/stamp-$1"
	exec 9>&-
}
