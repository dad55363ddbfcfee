#!/bin/bash
# try.sh PROP PATCH-or-sed-script... : run one check against a scratch copy of /repo with a change applied.
#   try.sh C05 file.diff            (git apply)
#   try.sh C05 -s FILE 'sed-expr'   (sed -i on FILE under rmw_dds_common)
set -e
prop=$1; shift
d=$(mktemp -d /tmp/vsim_try.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo/rmw_dds_common "$d/"
if [ "$1" = "-s" ]; then
  cp "$d/rmw_dds_common/$2" "$d/orig"
  sed -i -E "$3" "$d/rmw_dds_common/$2"
  cmp -s "$d/orig" "$d/rmw_dds_common/$2" && { echo "NO CHANGE"; exit 3; }
else
  (cd "$d" && git apply --unsafe-paths --directory="$d" "$1" 2>/dev/null || patch -s -p1 < "$1")
fi
[ -d /tmp/vsim_try_build ] || cp -a /verif/build /tmp/vsim_try_build
export VSIM_REPO=$d VSIM_BUILD=/tmp/vsim_try_build
cd /verif
set +e
timeout 900 python3 check.py $prop > $d/out 2> $d/err
rc=$?
head -c ${TRY_OUT:-1500} $d/out; [ $rc = 2 ] && tail -c 3000 $d/err
echo "rc=$rc"
