cd /verif/harness && cargo build --offline --message-format short 2>&1 | grep -E "^src.*error|could not" | head -${1:-40}
