#!/usr/bin/env python3
"""developer aid: tools/mkseed.py ID PROPERTY PKGDIR SPECFILE - SPECFILE (python) defines edits=[(file, old, new)], needs, breaks, demo (Go test source).
Writes /verif/seeded/ID from the resulting diff, leaves /repo clean."""
import json, os, subprocess, sys
R = os.environ.get("SEEDREPO", "/repo")
def make(id, prop, pkg, edits, needs, breaks, demo, mod=None, files=None, race=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "dirty"
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        subprocess.run(["gofmt", "-l"] + [os.path.join(R, e[0]) for e in edits])
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(demo)
    for k, v in (files or {}).items():
        open(os.path.join(d, k), "w").write(v)
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0 when the property holds for the demonstrated case; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${{HOME:-/root}}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export TDEX_NETWORK=regtest TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001 TDEX_LOG_LEVEL=2
export TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225 TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000
export TDEX_DATA_DIR_PATH=$T/data TMPDIR=$T DEMO_TMP=$T
sed "s#=> \\./#=> $R/#" go.mod > "$T/go.mod"; cp go.sum "$T/go.sum"
o=
for f in "$D"/*.go; do o="$o,\\"$R/{pkg}/zz_$(basename "$f")\\":\\"$f\\""; done
echo "{{\\"Replace\\":{{${{o#,}}}}}}" > "$T/overlay.json"
go test -c -o "$T/demo.test" -vet=off {"-race " if race else ""}-modfile "$T/go.mod" -overlay "$T/overlay.json" {mod or "./" + pkg} || exit 1
cd "$T" && ./demo.test -test.timeout 200s -test.run '^TestDemo$'
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("made", id)
