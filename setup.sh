#!/bin/sh
# nothing to install: warms the build of the harness (each check rebuilds what it needs anyway)
cd "$(dirname "$0")/harness" && cargo build --offline --quiet --bin vh
