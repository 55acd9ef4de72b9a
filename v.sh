#!/bin/bash
cd "$(dirname "$0")"; mkdir -p build; tools/vx/target/release/vx verus units/$1.vrs build/$1.rs build/$1.json ${VX_REPO:-/repo} && verus build/$1.rs --rlimit 30 "${@:2}" 2>&1 | grep -v "^warning: hiding" 
