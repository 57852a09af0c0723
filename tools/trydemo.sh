#!/bin/bash
# trydemo.sh BUG: run the demo on the unchanged tree and with the bug's runtime swapped in (ignored build products only)
set -u
B=/verif/seeded/$1; W=/tmp/mut/try; mkdir -p $W
rm -rf /tmp/mut/try/src; mkdir -p /tmp/mut/try/src
cp -a /repo/base/runtime /tmp/mut/try/src/ ; mkdir -p /tmp/mut/try/src/base; mv /tmp/mut/try/src/runtime /tmp/mut/try/src/base/
(cd /tmp/mut/try/src && git init -q . 2>/dev/null; git apply $B/patch.diff) || exit 9
(cd /tmp/mut/try/src/base/runtime/objs && make clean >/dev/null 2>&1; make -f mk.amd64-linux >/tmp/mut/try/make.log 2>&1) || { tail /tmp/mut/try/make.log; exit 9; }
RUN=/repo/bin/.run/run.amd64-linux
echo "== unchanged"; (cd /repo && bash $B/demo.sh); echo "rc=$?"
cp -a $RUN /tmp/mut/try/keep; cp /tmp/mut/try/src/base/runtime/objs/run.amd64-linux $RUN.new && mv $RUN.new $RUN
echo "== with the bug"; (cd /repo && bash $B/demo.sh); echo "rc=$?"
cp -a /tmp/mut/try/keep $RUN.new && mv $RUN.new $RUN
git -C /repo status --short | head -3
