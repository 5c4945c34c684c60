# seed.sh ID PROP FILE old new needs breaks [n]   ; demo python from stdin
id=$1; prop=$2
python3 /verif/tools/mk.py "$id" "$prop" "$3" "$4" "$5" $8 || exit 1
d=/verif/seeded/$id
cat > $d/demo.py
printf '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh
python3 - "$d" "$prop" "$6" "$7" <<'PY'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({'property':p,'needs':n,'what_it_breaks':w},open(d+'/meta.json','w'),indent=1)
PY
