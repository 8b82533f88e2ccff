#!/bin/bash
# tryrev.sh COMMIT PROP...: undo one commit in a scratch copy and run the checks there
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXX)
cp -a /repo/. $d/
(cd $d && git show $c | git apply -R) || echo "cannot undo $c"
for p in "$@"; do
  (cd /verif && VERIF_REPO=$d timeout 900 /opt/venv/bin/python -m sim.runner $p quick ${RUNS:-} | tail -${TAIL:-4})
done
rm -rf "$d"
