# Sourced by setup.sh and check.sh: toolchain, offline settings and the build of the harness.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset NO_COLOR RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT
# "release" keeps the assertions and overflow checks of the code under test, as in its tests; "bare" does not
PROFILE="${VERIF_PROFILE:-release}"

# What the code under test is right now, by content (modification times do not count)
source_hash() {
    (cd /repo && find . \( -name target -o -name .git -o -name mus-cache \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.toml' -o -name '*.pest' -o -name '*.lock' \) -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build_in DIR RUSTFLAGS COMMAND...: runs a cargo command whose output goes to DIR
build_in() {
    local dir="$1" flags="$2"
    shift 2
    mkdir -p "$dir"
    local hash
    hash="$(source_hash)"
    if [ "$(cat "$dir/source-hash" 2>/dev/null)" != "$hash" ]; then
        # do not trust modification times: build the code under test anew
        find "$dir" -maxdepth 3 -path '*/.fingerprint/barbarosa-*' -prune -exec rm -rf {} +
        rm -f "$dir/source-hash"
    fi
    CARGO_TARGET_DIR="$dir" RUSTFLAGS="$flags" "$@" || return 1
    echo "$hash" > "$dir/source-hash"
}

# The module of the harness (a cargo feature) that has a check
module_of() {
    case "$1" in
        C01|C02|C03|C04) echo turns ;;
        C05|C06) echo held ;;
        C07|C08) echo notation ;;
        C09|C10|C11|C12) echo sequences ;;
        C13|C14|C23) echo assembly ;;
        C15|C16|C17) echo cache ;;
        C18|C19|C20) echo solve ;;
        C21|C26|C31) echo view ;;
        C22|C24|C35) echo moves ;;
        C25) echo geometry ;;
        C33|C34) echo own ;;
        C36) echo large ;;
        *) echo values ;;
    esac
}

# Builds the harness for a check; sets HARNESS to the binary
build_harness() {
    local log="$VERIF_ROOT/target/build.log" module
    module="$(module_of "$1")"
    mkdir -p "$VERIF_ROOT/target"
    local build=(cargo build --profile "$PROFILE" --offline --quiet --manifest-path "$VERIF_ROOT/harness/Cargo.toml")
    HARNESS="$VERIF_ROOT/target/$PROFILE/harness"
    build_in "$VERIF_ROOT/target" "--cfg verif_hooks" "${build[@]}" 2>"$log" && return 0
    # Another part of the code under test may no longer fit what the other checks use
    echo "the build failed, building only the checks of $module" >&2
    build_in "$VERIF_ROOT/target" "--cfg verif_hooks" "${build[@]}" --no-default-features --features "$module" 2>"$log" && return 0
    # Private parts that the hooks read may have been reorganised: judge what is public.
    echo "the build with hooks failed, building without them" >&2
    HARNESS="$VERIF_ROOT/target/plain/$PROFILE/harness"
    build_in "$VERIF_ROOT/target/plain" "" "${build[@]}" 2>"$log" && return 0
    build_in "$VERIF_ROOT/target/plain" "" "${build[@]}" --no-default-features --features "$module" 2>"$log" && return 0
    tail -40 "$log" >&2
    return 1
}

# Builds the program itself, with the same assertions as the tests have
build_program() {
    local dir="$VERIF_ROOT/target/bin" checks=true
    [ "$PROFILE" = bare ] && dir="$VERIF_ROOT/target/bin-bare" checks=false
    export BARBAROSA_BIN="$dir/release/barbarosa"
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=$checks CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=$checks \
        build_in "$dir" "" \
        cargo build --release --offline --quiet --manifest-path /repo/barbarosa/Cargo.toml --bin barbarosa
}
