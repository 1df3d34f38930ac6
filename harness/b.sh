#!/bin/bash
cd /verif/harness && RUSTFLAGS="--cfg libmcaptcha_verif -Awarnings" cargo build --offline 2>&1 | grep -E "^error|Finished" -A9 | head -${1:-60}
