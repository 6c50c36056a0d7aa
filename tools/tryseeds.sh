#!/bin/bash
# tryseeds.sh [id...]: applies each seed to a scratch copy of /repo and runs tests, demo and check there.
# (scratch: /tmp/r2, /tmp/v2; refreshed on every call)
set -e
mkdir -p /tmp/r2 /tmp/v2
rsync -a --delete /repo/ /tmp/r2/ 2>/dev/null || { rm -rf /tmp/r2; cp -a /repo /tmp/r2; }
rsync -a --delete --exclude .build --exclude evidence /verif/ /tmp/v2/ 2>/dev/null || { mkdir -p /tmp/v2keep; rm -rf /tmp/v2/bin /tmp/v2/kani /tmp/v2/tools /tmp/v2/seeded; cp -a /verif/bin /verif/kani /verif/tools /verif/seeded /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl /tmp/v2/; }
git -C /tmp/r2 checkout -q -- .
sed -i 's,"/repo/,"/tmp/r2/,' /tmp/v2/kani/*/Cargo.toml
sed 's,cd /repo,cd /tmp/r2,; s,/opt/vp/build.sh,/tmp/v2/vpbuild.sh,' /opt/vp/build.sh > /tmp/v2/vpbuild.sh
sed 's,/repo,/tmp/r2,g' /opt/vp/test.sh > /tmp/v2/vptest.sh
sed -i 's,^V = .*,V = "/tmp/v2",; s,^R = .*,R = "/tmp/r2",; s,git -C /repo,git -C /tmp/r2,g; s,/opt/vp/build.sh,/tmp/v2/vpbuild.sh,; s,/opt/vp/test.sh,/tmp/v2/vptest.sh,' /tmp/v2/tools/seedlib.py
cd /tmp/v2
python3 - "$@" <<'P'
import sys, os, json
sys.path.insert(0, "/tmp/v2/tools")
from seedlib import *
ids = sys.argv[1:] or sorted(os.listdir("/tmp/v2/seeded"))
for i in ids:
    try:
        r = attempt(i, tests=not os.environ.get("NOTEST"), demo=not os.environ.get("NODEMO"))
    except Exception as e:
        r = dict(id=i, error=str(e)[:300])
    print(json.dumps(r), flush=True)
P
