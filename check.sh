#!/bin/bash
# check.sh <property>: decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
p="$1"
stale=1
if [ -x bin/govc ]; then
  stale=0
  for f in govc/*.go govc/go.mod; do [ "$f" -nt bin/govc ] && stale=1; done
fi
if [ $stale = 1 ] && ! bash setup.sh; then
  mkdir -p evidence/replay
  echo '{"what":"the verifier does not build"}' > "evidence/replay/$p.json"
  echo "VIOLATION property=$p replay=$PWD/evidence/replay/$p.json no-failing-input-found"
  exit 1
fi
GOVC_VERIF="$PWD" ./bin/govc check "$p"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p evidence/replay
  echo "{\"what\":\"the verifier ended with status $rc\"}" > "evidence/replay/$p.json"
  echo "VIOLATION property=$p replay=$PWD/evidence/replay/$p.json no-failing-input-found"
  exit 1
fi
exit $rc
