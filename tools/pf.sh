#!/bin/bash
# pf.sh PATCH: runs only the proof against a scratch copy of /repo with PATCH applied and lists what is not proved
P=$(realpath "$1"); W=/tmp/pf.$$; mkdir -p "$W" /tmp/trybuild; cp -a /repo "$W/repo"; git -C "$W/repo" apply "$P" || exit 3
VF_REPO="$W/repo" VF_BUILD=/tmp/trybuild python3 - "$W" <<'Q'
import sys,os
sys.path.insert(0,'/verif/vf')
import proof
vx=proof.build_vx()
r=proof.run(vx,sys.argv[1],mode=os.environ.get('MODE','A'))
print('verified',r.verified,'errors',r.errors,'wall',round(r.wall,1),'note',r.note)
for k,f in r.fns.items():
    if f['status']!='proved': print(f['status'],k,f['why'] and f['why'][:300]); [print('    ',d['clause'],d['text'].replace('\n','\n     ')) for d in f['diags']]
for k,f in r.thms.items():
    if f['status']!='proved': print(f['status'],k,f['diags'])
print(r.problems,r.uncovered,[(e['name'],e['text']) for e in r.extra])
Q
rm -rf "/tmp/pf.$$"
