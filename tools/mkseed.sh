#!/bin/bash
# mkseed.sh ID PROP PKG "needs" "breaks" : uses /tmp/seed/ID.diff and /tmp/seed/ID_test.go, builds seeded/ID and checks it
set -e
. /opt/vp/env.sh
id=$1; prop=$2; pkg=$3; needs=$4; breaks=$5
d=/verif/seeded/$id; mkdir -p $d
cp /tmp/seed/$id.diff $d/patch.diff
cp /tmp/seed/${id}_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# runs demo_test.go.txt inside package $pkg through an overlay; cwd is the repository
d=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_seed_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/o.json"
cd "./$pkg" && timeout 250 go test -count=1 -vet=off -overlay "\$t/o.json" -run '^TestZZSeedDemo\$' .
X
chmod +x $d/demo.sh
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
w=/tmp/seedwt-$id; rm -rf $w; cp -a /repo $w
( cd $w && $d/demo.sh >/tmp/seed/$id.clean 2>&1 ) || { echo "$id: demo fails on clean tree"; tail -20 /tmp/seed/$id.clean; rm -rf $w; exit 1; }
( cd $w && git apply $d/patch.diff && go build ./... ) || { echo "$id: does not build"; rm -rf $w; exit 1; }
if ( cd $w && $d/demo.sh >/tmp/seed/$id.bug 2>&1 ); then echo "$id: demo passes with the patch"; rm -rf $w; exit 1; fi
grep -m3 -E "FAIL|panic|zz_seed|Error" /tmp/seed/$id.bug || true
( cd $w && go vet ./$pkg >/dev/null 2>&1 || true; go test -count=1 ./$pkg 2>&1 | tail -3 )
rm -rf $w
echo "$id ok"
