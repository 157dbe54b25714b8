#!/bin/bash
# stable.sh ID...: do the stable tests pass with the planted change?  Development aid.
cd /verif
for id in "$@"; do
  T=$(mktemp -d /tmp/st.XXXXXX); mkdir "$T/logs"
  LOGDIR=$T/logs tools/trial.sh seeded/$id/patch.diff bash -c "mount --bind $T/logs /opt/vp/logs; sed 's/rm -rf \"\$LOGS\"; //' /opt/vp/test.sh > $T/test.sh; bash $T/test.sh $T/out.json" > "$T/log" 2>&1
  python3 - "$id" "$T/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[2]))['passed'])
m=sorted(b-p); print(sys.argv[1], 'stable ok' if not m else 'LOST %d: %s' % (len(m), m[:3]))
P
  rm -rf "$T"
done
