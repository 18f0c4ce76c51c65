#!/bin/bash
# try.sh ID [check...]: runs the quick checks of seeded/ID's property (or those named) against it.
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do
  l=$(echo $p|tr A-Z a-z); cd /verif; timeout 900 python3 checks/$l.py quick >/tmp/try.$id.$p.log 2>&1; echo "$id $p rc=$? $(grep -c ^VIOLATION /tmp/try.$id.$p.log) $(grep -m1 -A1 ^VIOLATION /tmp/try.$id.$p.log|tr '\n' ' '|cut -c1-250)"
done
git -C /repo checkout -- .
