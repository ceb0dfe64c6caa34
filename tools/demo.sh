#!/bin/bash
# demo.sh ID: wraps the body on stdin into seeded/ID/demo.sh
mkdir -p /verif/seeded/$1
{ cat <<'X'
#!/bin/bash
# run from the repository root after a build
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
D=$PWD/_build/tree/bin/dasm
F=$PWD/_build/tree/bin/ftohex
cd "$T" || exit 2
hexof() { od -An -v -tx1 "$1" | tr -d ' \n'; }
X
cat; } > /verif/seeded/$1/demo.sh
