#!/bin/bash
# mkseed.sh ID PROPERTY COUNT [SCENARIO]: from the edits in /tmp/wt and /tmp/seed/ID.cc makes seeded/ID; needs/what come from /tmp/seed/ID.txt (2 lines).
set -e
id=$1 prop=$2 count=${3:-8} scn=${4:-demo}; d=/verif/seeded/$id
mkdir -p $d/kit/sim/scn $d/kit/.x; rmdir $d/kit/.x
git -C /tmp/wt diff > $d/patch.diff
cp /verif/vr.py $d/kit/; cp /verif/sim/*.cc /verif/sim/*.h $d/kit/sim/; cp /verif/sim/scn/*.h $d/kit/sim/scn/
cp /tmp/seed/$id.cc $d/demo.cc
cat > $d/demo.sh <<EOF
#!/bin/bash
# Builds the sources in the current directory against the simulated machine in kit/ and runs demo.cc on it.
here=\$(cd "\$(dirname "\$0")" && pwd); out=\$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "\$out"' EXIT
cp -r "\$here/kit" "\$out/kit"; cp "\$here/demo.cc" "\$out/kit/sim/scn/demo.cc"
export VERIF_REPO=\$PWD VERIF_CACHE=\$out/c
python3 "\$out/kit/vr.py" build asan "\$out/b" || exit 3
python3 "\$out/kit/vr.py" run "\$out/b" $scn 1 $count
EOF
chmod +x $d/demo.sh
python3 - <<EOF
import json
l=open('/tmp/seed/$id.txt').read().strip().split('\n')
json.dump({'property':'$prop','needs':l[0],'what_it_breaks':l[1]},open('$d/meta.json','w'),indent=1)
EOF
echo "--- unchanged:"; (cd /repo && $d/demo.sh); echo "rc=$?" 
echo "--- changed:"; set +e; (cd /tmp/wt && $d/demo.sh); echo "rc=$?"
