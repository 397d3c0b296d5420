# Sourced by setup.sh and check.sh: a fixed build environment.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
# The newest installed toolchain that still has feature(box_patterns), as in /opt/vp/env.sh.
export RUSTUP_TOOLCHAIN=nightly-2026-08-21
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export LC_ALL=C.UTF-8
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$VERIF_DIR
BUILD=$VERIF_DIR/build

# Hash of everything the builds depend on, so that a stale build product is
# never mistaken for the current tree whatever the file times say.
tree_hash() {
    (cd /repo && find crates Cargo.toml Cargo.lock rust-toolchain.toml -type f -not -path '*/target/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum
     cd "$VERIF_DIR/harness" && find . -type f -not -path './target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# build KIND, where KIND is fn (functional), api (functional, with the properties of the
# library's interface; in the same directory as fn), asan (address sanitizer) or cli (the seam binary).
build() {
    local kind=$1 dir=$BUILD/$1 stamp=.stamp hash rc bin=(--bin seam-verif)
    if [ $kind = api ]; then dir=$BUILD/fn; stamp=.stamp-api; bin=(--bin seam-verif-api --features api); fi
    mkdir -p "$dir"
    exec 9>"$dir/.lock"; flock 9
    hash=$(tree_hash)
    if [ "$(cat "$dir/$stamp" 2>/dev/null)" = "$hash" ]; then flock -u 9; exec 9>&-; return 0; fi
    rm -f "$dir/$stamp"
    case $kind in
        fn|api)
            # What the other of the two built from this tree may be used.
            if [ "$(cat "$dir/.tree" 2>/dev/null)" != "$hash" ]; then
                cargo clean --manifest-path "$VERIF_DIR/harness/Cargo.toml" --offline --locked --release --target-dir "$dir" -p seam -p seam_argparse_proc_macro -p seam-verif >/dev/null 2>&1
                echo "$hash" >"$dir/.tree"
            fi
            RUSTFLAGS="-Awarnings" cargo build --manifest-path "$VERIF_DIR/harness/Cargo.toml" --offline --locked --release "${bin[@]}" --target-dir "$dir" >"$dir/build.log" 2>&1; rc=$? ;;
        asan)
            cargo clean --manifest-path "$VERIF_DIR/harness/Cargo.toml" --offline --locked --release --target x86_64-unknown-linux-gnu --target-dir "$dir" -p seam -p seam_argparse_proc_macro -p seam-verif >/dev/null 2>&1
            RUSTFLAGS="-Awarnings -Zsanitizer=address -Cforce-frame-pointers=yes" cargo build --manifest-path "$VERIF_DIR/harness/Cargo.toml" --offline --locked --release --features asan --bin seam-verif --target x86_64-unknown-linux-gnu --target-dir "$dir" >"$dir/build.log" 2>&1; rc=$? ;;
        cli)
            cargo clean --manifest-path /repo/crates/seam/Cargo.toml --offline --locked --target-dir "$dir" -p seam -p seam_argparse_proc_macro >/dev/null 2>&1
            RUSTFLAGS="-Awarnings" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --manifest-path /repo/crates/seam/Cargo.toml --bin seam --offline --locked --target-dir "$dir" >"$dir/build.log" 2>&1; rc=$? ;;
    esac
    if [ $rc -ne 0 ]; then
        echo "build of '$kind' failed:" >&2; grep -E -A8 '^error' "$dir/build.log" | head -60 >&2; tail -5 "$dir/build.log" >&2
        flock -u 9; exec 9>&-; return 1
    fi
    echo "$hash" >"$dir/$stamp"
    flock -u 9; exec 9>&-
}
