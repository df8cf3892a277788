#!/bin/bash
# vx.sh UNIT [-D..]: extract and verify one unit (development aid)
set -e
u=$1; shift
cargo build -q --release --offline --manifest-path /verif/extract/Cargo.toml --target-dir /verif/.build/extract
mkdir -p /tmp/vx
EXP=${EXP:-/tmp/w/exp3.rs}
/verif/.build/extract/release/vx_extract $EXP /verif/units/$u.vu /tmp/vx/$u.rs /tmp/vx/$u.json "$@"
verus --triggers-mode silent --multiple-errors 5 ${VF:-} /tmp/vx/$u.rs
