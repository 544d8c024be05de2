#!/bin/bash
# mkseed.sh ID PROP PKG "needs" "what": take the diff of the scratch copy /tmp/seedwt, with the demo in /tmp/demo_test.go
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff
cp /tmp/demo_test.go $d/demo_test.go
python3 - "$@" <<'P'
import json,sys
i,p,pkg,needs,what=sys.argv[1:6]
json.dump(dict(property=p,needs=needs,what_it_breaks=what),open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
open("/verif/seeded/%s/demo.sh"%i,"w").write('''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
O=$(mktemp)
echo "{\\"Replace\\":{\\"$R/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$O"
timeout 250 go test -overlay "$O" -vet=off -count=1 -run '^TestDemo' ./%s
rc=$?
rm -f "$O"
exit $rc
''' % (pkg,pkg))
P
git -C /tmp/seedwt checkout -q -- .
