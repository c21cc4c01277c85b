#!/bin/bash
# run checks for seeds; show worst margins:  tools/m.sh "C01 C02" "1 2" [tier]
cd "$(dirname "$0")/.."
for p in $1; do for s in $2; do ./run.sh $p --seed $s --tier ${3:-quick}; echo "exit $?"; python3 -c "
import json;e=json.load(open('evidence/$p.json'));print({k:v['worst_error_over_tolerance'] for k,v in e['coverage']['monitors'].items()},e['coverage']['skipped_out_of_domain'])"; done; done
