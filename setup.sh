#!/bin/sh
# nothing to build: every check extracts, proves and compiles from /repo on its own
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python3 -c "import z3, sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import plan; plan._load(); print(len(plan.CONTRACTS), 'contracts')"
command -v clang++ z3-new cvc5 >/dev/null
mkdir -p evidence
