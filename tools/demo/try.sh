#!/bin/bash
# try.sh ID: checks a planted bug in a scratch copy: demo quiet without it, failing with it, tests pass.
D=/verif/seeded/$1; S=/tmp/vjseed/$1; rm -rf "/tmp/vjseed/$1"; mkdir -p /tmp/vjseed
cp -a /repo $S; mkdir $S.d; cp -r $D/. $S.d/; rm -f $S.d/*.diff $S.d/meta.json
cd $S; bash $S.d/demo.sh >$S.d/clean.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$1: does not apply"; exit 1; }
bash $S.d/demo.sh >$S.d/bug.log 2>&1; b=$?
echo "$1: clean=$a bug=$b"; [ $a = 0 ] || tail -5 $S.d/clean.log; [ $b = 0 ] || tail -${2:-4} $S.d/bug.log
if [ "${3:-}" != skip ]; then
  git -C /repo apply $D/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; echo build=$?; bash /opt/vp/test.sh /tmp/vjseed/t.json 2>&1 | tail -1
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  /tmp/vjdev/run.sh $P; git -C /repo checkout -q -- .
fi
rm -rf "/tmp/vjseed/$1" "/tmp/vjseed/$1.d"
