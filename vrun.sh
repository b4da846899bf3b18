#!/bin/bash
# dev helper: generate + verify one unit
cd /verif; mkdir -p /verif/work
/verif/target/release/vx gen /repo units/$1.vrs work/$1.rs --strict "${@:2}" | cut -c1-${GEN_:-150}
timeout 300 verus work/$1.rs --multiple-errors 20 2>&1 | grep -vE '^(warning|note)' | grep -A14 -E '^(error|verification)' | head -${LINES_:-90}
