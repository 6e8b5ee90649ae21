#!/bin/bash
# check.sh PROPERTY: decides one property of /repo's working tree.
# The analyser is built from /verif/sa when it is not there or out of date.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
cd "$(dirname "$0")" || exit 2
mkdir -p bin || exit 2
(
 flock 9
 stamp=$(cat sa/*.go sa/go.mod sa/go.sum | sha256sum)
 if [ ! -x bin/sa ] || [ "$(cat bin/stamp 2>/dev/null)" != "$stamp" ]; then
  (cd sa && go build -o ../bin/sa .) || exit 2
  echo "$stamp" > bin/stamp
 fi
) 9>bin/lock || exit 2
[ "$1" = --build ] && exit 0
GOMEMLIMIT=12GiB timeout -k 5 780 bin/sa check "$1"
rc=$?
[ $rc -le 1 ] && exit $rc
# the analyser itself gave up: nothing is decided, and nothing is reported
echo "UNDECIDED the analyser ended with $rc"
mkdir -p evidence
cat > "evidence/$1.json" <<EOF
{"property": "$1", "tier": "quick", "seed": ${VERIF_SEED:-1}, "level": "other", "violations": 0, "wall_s": $SECONDS,
 "assumptions": [], "coverage": {"explanation": "The analyser ended with $rc: nothing was decided.", "obligations": 0, "discharged": 0}}
EOF
exit 0
