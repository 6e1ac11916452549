#!/bin/bash
# nothing to install: compile the harness and IR caches ahead of the checks (they rebuild whatever changed)
cd "$(dirname "$0")" || exit 1
mkdir -p build replays evidence
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string())' || exit 1
exit 0
