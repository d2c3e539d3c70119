#!/bin/bash
# dev helper: build one harness bin, print only errors
. /verif/harness/env.sh
cd /verif/harness/$1 && cargo build --offline --bin $2 --message-format short 2>&1 | grep -E "error|c_.*warning|^src.*warn" | head -${3:-40}
