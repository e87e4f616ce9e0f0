#!/bin/bash
# mkseed.sh ID PKG PROPERTY "needs" "breaks": from the edits in /tmp/seedw and
# the test in /tmp/seed_test.go
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/seedw diff > $D/patch.diff; git -C /tmp/seedw checkout -q -- .
cp /tmp/seed_test.go $D/demo_test.go.txt
cat > $D/demo.sh <<X
#!/bin/bash
D=\$(cd "\$(dirname "\$0")" && pwd); . /opt/vp/env.sh
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\": {\"\$PWD/$2/zz_verif_demo_test.go\": \"\$D/demo_test.go.txt\"}}" > "\$T/o.json"
go test -vet=off -count=1 -overlay "\$T/o.json" ./$2 -run '^TestVerifDemo'
X
python3 - "$ID" "$3" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
