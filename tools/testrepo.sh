#!/bin/sh
# build /repo and run its tests; prints the summary line
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1
