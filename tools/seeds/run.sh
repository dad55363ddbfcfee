#!/bin/bash
# run.sh [ID...]: the quick check of each planted bug's property against a copy of /repo with the bug;
# what was reported is kept in caught.json.
cd /verif/seeded
build=/tmp/vsim_try_build
[ -d $build ] || cp -a /verif/build $build
for id in ${@:-*}; do
  prop=$(python3 -c "import json,sys; print(json.load(open('$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/vsim_seed.XXXXXX)
  git clone -q /repo $d/repo && git -C $d/repo apply /verif/seeded/$id/patch.diff || echo "PATCH FAILED $id"
  out=$(VSIM_REPO=$d/repo VSIM_BUILD=$build timeout 900 python3 /verif/check.py $prop 2>&1)
  rc=$?
  printf '%-28s %s rc=%d %s\n' $id $prop $rc "$(grep -oP "runs in \K\S+ s" <<<"$out") $(grep -m1 '^FAIL' <<<"$out" | cut -c1-120)"
  python3 - $id $rc "$prop $(grep -m1 -oP '^FAIL \K\S+' <<<"$out")" <<'E'
import json, os, sys
p = '/verif/tools/seeds/caught.json'
d = json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]] = sys.argv[3] if sys.argv[2] == '1' else ''
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
E
  [ $rc = 2 ] && tail -3 <<<"$out"
  python3 -c "import shutil; shutil.rmtree('$d')"
done
