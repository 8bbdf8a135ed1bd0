#!/bin/bash
# Do the repository's stable tests still pass with a planted bug?
for s in ${@:-$(ls /verif/seeded)}; do git -C /repo apply /verif/seeded/$s/patch.diff; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; echo $s $(python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(len(d['passed']),d['failed'])"); git -C /repo checkout -q -- .; done; bash /opt/vp/build.sh >/tmp/b.log 2>&1
