#!/bin/bash
# mkdemo.sh ID PROPERTY NEEDS BREAKS "SRCS" <demo.cpp : adds demo.sh, demo.cpp and meta.json to seeded/ID
D=/verif/seeded/$1; mkdir -p "$D"; cat > "$D/demo.cpp"
SRCS=""; for s in $5; do SRCS="$SRCS src/common_robotics_utilities/$s.cpp"; done
FL=${6:--O1}
cat > "$D/demo.sh" <<S
#!/bin/bash
# Run with cwd = repository root.
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d /tmp/demo.XXXXXX) || exit 3
export T
g++ -std=c++17 $FL -w -fopenmp -I include -I /usr/include/eigen3 "\$D/demo.cpp"$SRCS -o "\$T/demo" -lz -lpthread
if [ \$? -ne 0 ]; then rmdir "\$T"; echo "demo does not build"; exit 3; fi
(cd "\$T" && timeout 200 ./demo); rc=\$?
rm -f "\$T"/*; rmdir "\$T"
exit \$rc
S
chmod +x "$D/demo.sh"
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
