#!/bin/bash
cd /verif/harness; RUSTUP_TOOLCHAIN=1.91.0 CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=$PWD/rustc-wrap.sh cargo build --release --offline "$@" 2>&1 | grep -v "^warning: unused\|Compiling" | tail -${L:-60}
