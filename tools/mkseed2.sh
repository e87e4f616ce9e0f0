#!/bin/bash
# mkseed2.sh ID DIFF TEST PKG PROPERTY "needs" "breaks"
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cp $2 $D/patch.diff; cp $3 $D/demo_test.go.txt
cat > $D/demo.sh <<X
#!/bin/bash
D=\$(cd "\$(dirname "\$0")" && pwd); . /opt/vp/env.sh
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\": {\"\$PWD/$4/zz_verif_demo_test.go\": \"\$D/demo_test.go.txt\"}}" > "\$T/o.json"
go test -vet=off -count=1 -overlay "\$T/o.json" ./$4 -run '^TestVerifDemo'
X
python3 - "$ID" "$5" "$6" "$7" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
