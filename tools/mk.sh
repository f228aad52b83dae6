mk () 
{ 
    mkdir -p seeded/$1;
    python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P

    cat > seeded/$1/demo.sh <<'D'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/demo.py" "${HITLS_LIBDIR:-/repo/build}"
D

}
