#!/bin/bash
# Nothing to install: the verifier is plain Python run by python3-vt. Warm up
# the cache of compiled kernels (rebuilt by the checks whenever the sources change).
cd "$(dirname "$0")/.." || exit 1
T=$(mktemp -d /tmp/vp-setup-XXXXXX)
python3 oracles/tree.py /repo "$T/tree" || echo "warm-up of the kernels failed; checks build them"
rm -rf "$T"
exit 0
