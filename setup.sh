#!/bin/bash
# builds the extractor, the search program and the Kani harnesses' dependencies, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 1
mkdir -p .build
python3 -c "
import check
check.build_extractor()
check.expand('.build/expanded.rs')
exe, err = check.build_oracle()
assert exe, err
check.build_oracle('dev')
" || exit 1
rm -f .build/expanded.rs
(cd kani && CARGO_NET_OFFLINE=true cargo kani -Z unstable-options --output-format terse --harness c14_bool --target-dir ../.build/kani) >/dev/null 2>&1
exit 0
