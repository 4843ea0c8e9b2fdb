#!/bin/bash
# Run checks against a scratch copy of /repo with a patch applied (development aid)
#   tools/mut.sh PATCH CHECK...      (PATCH may be -R:COMMIT to revert a commit of /repo)
patch=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
git -C /repo archive HEAD | tar -x -C "$d"
cd "$d" && git init -q . 
if [[ $patch == -R:* ]]; then git -C /repo show "${patch#-R:}" | git apply -R --3way 2>/dev/null || git -C /repo show "${patch#-R:}" | patch -R -p1 -s
elif [[ $patch != none ]]; then git apply "$patch" || { echo "PATCH DOES NOT APPLY"; rm -rf "$d"; exit 9; }; fi
for c in "$@"; do
  out=$(DST_REPO=$d DST_EVIDENCE=$d/ev PYTHONDONTWRITEBYTECODE=1 timeout 900 /verif/check $c $MUTARGS 2>&1)
  echo "$c exit $?: $(echo "$out" | grep -v VIOLATION | head -2 | cut -c1-300 | tr '\n' '|')"
done
rm -rf "$d"
