#!/bin/bash
# Run the oracles of a property against a tree: o.sh c01 [seconds] [repo]
D=$(mktemp -d /tmp/vptree.XXXXXX); T=$D/tree; R=${3:-/repo}
trap 'rm -rf "$D"' EXIT
python3 /verif/oracles/tree.py $R $T
cd $T; /opt/venv/bin/python /verif/oracles/run.py $1 --tree $T --seed ${SEED:-1} --time ${2:-10} --out $D/o.json; python3 - $D/o.json <<'P'
import json, sys
d=json.load(open(sys.argv[1]))
print(d['runs'],d['per_check'])
for f in d['failures']: print('FAIL', f['check'],f['params'],f.get('case'),'\n  ',f['message'][-1500:])
P
