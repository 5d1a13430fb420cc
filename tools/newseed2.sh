#!/bin/bash
# newseed2.sh ID PROP FILE RULES -- as newseed.sh, with a demo that runs the command on seeded/ID/sample.go.txt and compares the
# reported lines with the lines marked //!
set -e
ID=$1; PROP=$2; FILE=$3; RULES=$4
D=/verif/seeded/$ID; mkdir -p $D
W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $W/
cat > $W/.edit.py
(cd $W && git checkout -q -- . && python3 - "$FILE" <<'P'
import sys
f=sys.argv[1]; s=open(f).read(); o=s
g={'s':s}
exec(open('.edit.py').read(),g)
assert g['s']!=o,'no change'
open(f,'w').write(g['s'])
P
rm .edit.py; git diff > $D/patch.diff; . /opt/vp/env.sh; gofmt -l $FILE; go build ./...)
cat > $D/demo.sh <<P
#!/bin/bash
# the command reports exactly the lines of the sample marked //!
export PATH=/opt/veriftools/go1.24.13/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
H=\$(cd "\$(dirname "\$0")" && pwd)
W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
go build -o "\$W/gosec" ./cmd/gosec || exit 2
mkdir "\$W/m"; cp "\$H/sample.go.txt" "\$W/m/sample.go"; printf 'module sample\n\ngo 1.24\n' > "\$W/m/go.mod"
cd "\$W/m" && go vet . >/dev/null 2>&1
timeout 120 "\$W/gosec" -quiet -fmt golint -include $RULES ./... 2>/dev/null | sed -E 's/^[^:]*:([0-9]+):.*/\1/' | sort -n > "\$W/got"
grep -n '//!' sample.go | sed 's/:.*//' | sort -n > "\$W/want"
diff "\$W/want" "\$W/got"
P
chmod +x $D/demo.sh
rm -rf $W
