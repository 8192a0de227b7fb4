#!/bin/bash
# trybug.sh ID [PROPERTY...]: which checks report the planted change (applied to the scratch copy /tmp/seedwt, never to /repo).
ID=$1; shift
V=/verif
git -C /tmp/seedwt checkout -q -- . && git -C /tmp/seedwt apply $V/seeded/$ID/patch.diff || exit 1
P="$@"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
[ "$P" = all ] && P=$(python3 -c "import json;print(' '.join(json.load(open('$V/tools/claims.json'))['claims']))")
for p in $P; do
  FL=${FLAVOUR:-$(python3 -c "import json;print(json.load(open('$V/tools/claims.json'))['claims'].get('$p',{}).get('flavour','plain'))")}
  BIN=$(HBSIM_REPO=/tmp/seedwt python3 $V/tools/build.py $FL) || exit 1
  T=$(mktemp -d); mkdir -p $T/evidence $T/build; cp $V/known_findings.txt $T/; cp $V/properties.jsonl $T/
  O=$($BIN check --property $p --tier quick --seed ${VERIF_SEED:-1} --verif $T 2>&1)
  echo "$ID $p exit=$? $(echo "$O" | grep -c VIOLATION) violations; $(echo "$O" | grep -v VIOLATION | head -1 | cut -c1-200)"
  rm -rf "$T"
done
git -C /tmp/seedwt checkout -q -- .
