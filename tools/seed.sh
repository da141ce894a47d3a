#!/bin/bash
# usage: seed.sh ID [PROPERTY...]   validates seeded/ID and runs checks against it
# (development tool; no check uses it)
id=$1; shift
s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
sc=$(mktemp -d /tmp/sc.XXXXXX)
trap 'rm -rf "$sc"' EXIT
cp -a /repo "$sc/repo"; cp -a "$s" "$sc/demo"
cd "$sc/repo" || exit 1
demo() { (bash "$sc/demo/demo.sh" >"$sc/demo.out" 2>&1); }
demo || { echo "$id: demo fails on the unchanged tree"; tail -5 "$sc/demo.out"; exit 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
go build ./... || { echo "$id: does not build"; exit 1; }
python3 - <<'P' || { echo "$id: breaks the tests"; exit 1; }
import json,subprocess
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
p=subprocess.run(['go','test','-json',"-vet=off","-count=1",'./...'],capture_output=True,text=True)
ok=set();bad=set()
for l in p.stdout.splitlines():
    try: e=json.loads(l)
    except: continue
    if e.get('Test'):
        k=e['Test']
        if e['Action']=='pass': ok.add(k)
        if e['Action']=='fail': bad.add(k)
print('tests passed',len(ok),'failed',sorted(bad))
# only baseline tests count
fail=[t for t in bad if t in s]
raise SystemExit(1 if fail else 0)
P
if demo; then echo "$id: demo passes with the patch"; exit 1; fi
tail -2 "$sc/demo.out" | cut -c1-200
git -C /repo apply "$s/patch.diff" || exit 1
for p in $prop "$@"; do
  VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $p >"$sc/out" 2>&1
  echo "$id: $p exit $? $(grep -c '^VIOLATION' "$sc/out") violations; $(grep -A1 '^VIOLATION' "$sc/out" | sed -n 2p | cut -c1-200)"
done
git -C /repo checkout -q -- .
