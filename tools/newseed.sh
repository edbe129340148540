#!/bin/bash
# newseed.sh ID KIT PROPERTY MAIN.rs "needs" "breaks"   makes seeded/ID from the uncommitted change in /tmp/bug/repo
s=/verif/seeded/$1; mkdir -p $s
git -C /tmp/bug/repo diff > $s/patch.diff; git -C /tmp/bug/repo checkout -q -- .
cp /verif/tools/kit/demo.sh $s/; cp /verif/tools/kit/$2/* $s/; cp "$4" $s/main.rs
python3 - "$s" "$3" "$5" "$6" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
