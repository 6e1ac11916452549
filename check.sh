#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
exec python3-vt vc/run.py "$1" --tier "${2:-quick}"
