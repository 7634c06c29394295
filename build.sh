#!/bin/bash
# Build the simulator against /repo's current working tree, offline.
# Leaves /repo's tracked files as they are.
# exit: 0 built, anything else: the build failed (message on stderr)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
cd "$(dirname "$0")/sim" || exit 70
mkdir -p /verif/target /verif/work
exec 9>/verif/work/build.lock
flock 9

# cargo decides by modification times; we decide by content
want=$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f ! -name parser.rs -print0 2>/dev/null \
       | sort -z | xargs -0 sha256sum | sha256sum)
want="$want $(sha256sum /repo/src/sql/parser.rs /repo/src/core/types/parser.rs 2>/dev/null | sha256sum)"
stamp=/verif/target/.built-from
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$want" ]; then
    cargo clean --offline -q -p cathlamet >/dev/null 2>&1
    rm -f "$stamp"
fi
# the build of /repo regenerates parsers in its source tree
keep=$(mktemp -d /verif/work/keep.XXXXXX)
[ -f /repo/src/sql/parser.rs ] && cp -p /repo/src/sql/parser.rs "$keep/parser.rs"
log="$keep/log"
cargo build --offline --bin dst >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    # without the window onto the SQL front end: only C23, C24 and C25 need it
    RUSTFLAGS="--cfg cathlamet_sim" cargo build --offline --bin dst >>"$log" 2>&1
    rc=$?
    [ $rc -eq 0 ] && echo "note: built without the SQL scenarios" >&2
fi
if [ -f "$keep/parser.rs" ] && ! cmp -s "$keep/parser.rs" /repo/src/sql/parser.rs; then
    cp -p "$keep/parser.rs" /repo/src/sql/parser.rs
fi
if [ $rc -ne 0 ]; then
    echo "building the simulator against /repo failed:" >&2
    tail -n 60 "$log" >&2
    rm -rf "$keep"
    exit 71
fi
rm -rf "$keep"
echo "$want" >"$stamp"
exit 0
