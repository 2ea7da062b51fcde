#!/bin/bash
# build.sh VARIANT... : builds the harness (mt, st, stack) or the program (bmt, bst, bstack) from /repo's working tree
cd "$(dirname "$0")" || exit 2
here=$PWD
[ -d "$HOME/.cargo/bin" ] && export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p target
program() {
    cd "${REPO:-/repo}" && cargo build --release --offline --locked -p tftp-std-binary --no-default-features --features "$2" \
        --target-dir "$here/target/$1" --config profile.release.lto=false --config profile.release.opt-level=1 \
        --config profile.release.codegen-units=16
}
for f in "$@"; do
    case $f in
        bmt)
            gcc -O1 -shared -fPIC -o target/shim.so.new shim.c -ldl -lpthread && mv target/shim.so.new target/shim.so || exit 1
            program bmt alloc,encryption,multi_thread,seek,sync ;;
        bst) program bst alloc,encryption,seek ;;
        bstack) program bstack encryption,seek ;;
        *) cargo build --release --offline --locked --no-default-features --features "$f" --target-dir "target/$f" ;;
    esac 2> "target/$f.log" </dev/null || { tail -40 "target/$f.log"; exit 1; }
    cd "$here"
done
