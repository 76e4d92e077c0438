#!/bin/bash
# Builds the shared parts (engine, dependencies) and two checks once, offline; every check builds itself from /repo.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build" CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_INCREMENTAL=false
mkdir -p evidence/replay .build
exec cargo build --offline --manifest-path checks/Cargo.toml --bin a01 --bin t04
