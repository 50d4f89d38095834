#!/bin/bash
# addfix.sh PROPERTY COMMIT ID TEXT: undo COMMIT in the work tree, let the check find it, record the shrunk case
out=$(/verif/tools/with_revert.sh $2 python3 /verif/run.py $1 | tail -3)
r=$(echo "$out" | sed -n 's/.*replay=//p')
[ -z "$r" ] && { echo "NOT FOUND $1 $2 $3: $out"; r=-; }
echo "$out" | cut -c1-300
python3 /verif/tools/fixed.py $1 $2 $3 "$r" "$4"
