#!/bin/bash
# developer helper: run checks and print per-scenario numbers
for i in "$@"; do /verif/harness/target/debug/mcheck check $i ${TIER:-quick}; python3 -c "
import json
e=json.load(open('/verif/evidence/$i.json'))
for k,v in e['coverage']['scenarios'].items(): print('   ',k,v['executions'],v['distinct_outcomes'],v['executions_by_deviations'],v['wall_s'], 'CAPPED' if v['time_capped'] else '')"; done
