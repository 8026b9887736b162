#!/bin/bash
# trybugs.sh [-j N] [ID...]: runs each planted change's property check on a scratch copy of /repo with the change applied
cd /verif
j=3; if [ "$1" = -j ]; then j=$2; shift 2; fi
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
bin=$(mktemp -d); bash build_gover.sh $bin/gover || exit 3
one() {
  d=$1; bin=$2; w=$(mktemp -d); mkdir $w/tmp
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/{specs,replay,known_findings.txt,properties.jsonl,MANIFEST.json} $w/verif/; mkdir $w/verif/evidence
  git -C $w/repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; }
  s=$(date +%s)
  out=$(TMPDIR=$w/tmp VERIF_SEED=1 timeout 900 $bin/gover -repo $w/repo -verif $w/verif -check $prop -tier quick 2>&1); rc=$?
  echo "$d [$prop] rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'VIOLATION|failing input' | tr '\n' ' ' | cut -c1-250)"
  rm -rf "$w"
}
export -f one
printf '%s\n' ${@:-$(ls seeded)} | xargs -P $j -I{} bash -c 'one {} '$bin
rm -rf "$bin"
