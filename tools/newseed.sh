#!/bin/bash
# newseed.sh ID PROP PKGDIR FILE  -- the edit is read as a python snippet on stdin: s = new text
# makes seeded/ID with patch.diff and a demo runner; demo_test.go is written separately
set -e
ID=$1; PROP=$2; PKG=$3; FILE=$4
D=/verif/seeded/$ID; mkdir -p $D
W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $W/
cat > $W/.edit.py
(cd $W && python3 - "$FILE" <<'P'
import sys
f=sys.argv[1]; s=open(f).read(); o=s
g={'s':s}
exec(open('.edit.py').read(),g)
assert g['s']!=o,'no change'
open(f,'w').write(g['s'])
P
rm .edit.py; git diff > $D/patch.diff; . /opt/vp/env.sh; gofmt -l $FILE; go build ./...)
cat > $D/demo.sh <<P
#!/bin/bash
export PATH=/opt/veriftools/go1.24.13/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
H=\$(cd "\$(dirname "\$0")" && pwd)
W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
printf '{"Replace":{"%s/$PKG/zz_seed_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$H" > "\$W/o.json"
timeout 280 go test -vet=off -count=1 -overlay "\$W/o.json" -run TestSeedDemo ./$PKG
P
chmod +x $D/demo.sh
rm -rf $W
