#!/bin/sh
# checks that the framework can build the code under test and run in this sandbox
cd "$(dirname "$0")" || exit 1
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
D=$(mktemp -d /tmp/pyscal-setup.XXXXXX) || exit 1
"$PY" -m sim.build "$D/b"
r=$?
rm -rf "$D"
exit $r
