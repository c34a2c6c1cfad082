#!/bin/bash
# developer tool: run one search harness:  sr.sh Cxx [budget] [seed]
O=$(mktemp /tmp/sr.XXXXXX)
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/../search/run.py" $1 --budget ${2:-5} --out $O ${3:+--seed $3} && python3 -c "
import json;d=json.load(open('$O'));print('$1',d['evaluations'],d['distinct_nontrivial'],round(d['wall'],1))
for f in d['failures']: print('FAIL',f['what'][:600],json.dumps(f['input'])[:700])"
rm -f $O
