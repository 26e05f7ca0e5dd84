# refac_run.sh TRANSFORM [ids, e.g. 10 14]: run the proofs on a behaviour-preservingly rewritten copy (developer tool)
t=$1; shift
d=/tmp/refac_tree_$t
python3 /verif/tools/refac.py $t $d || exit
(cd $d && PYTHONPATH=$d /opt/venv/bin/python -m pytest -p no:cacheprovider -q -x tests 2>&1 | tail -1)
for i in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24}; do
cd /verif; VERIF_REPO=$d PYTHONPATH=/verif python3-vt -m vf.run_proof C$i -v --seconds 200 --jobs 7 2>/tmp/refac_err >/tmp/refac_out
python3 - $i <<'Q'
import json,sys
from collections import Counter
try: d=json.load(open('/tmp/refac_out'))
except Exception as e: print('C'+sys.argv[1],'CRASH',open('/tmp/refac_err').read()[-500:]); sys.exit()
c=Counter(o['status'] for o in d['obligations'])
n=0
if c['failed'] or c['unknown']:
    print('C'+sys.argv[1],dict(c),d['wall_s'])
    for o in d['obligations']:
        if o['status']=='failed' and (n:=n+1)<4: print('   FAILED',o['name'],str(o.get('detail'))[:250])
    n=0
    for o in d['obligations']:
        if o['status']=='unknown' and n<3: print('   unknown',o['name'][:100],str(o.get('detail'))[:300]); n+=1
Q
done
rm -rf /tmp/refac_tree_$t
