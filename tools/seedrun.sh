#!/bin/bash
# seedrun.sh ID check-args... : run check.py against /repo with planted bug ID, in a private mount namespace
ID=$1; shift; W=/tmp/bt/r_$ID; mkdir -p /tmp/bt; rm -rf $W; cp -a /repo $W
unshare -m bash -c "mount --bind $W /repo; cd /repo; git apply /verif/seeded/$ID/patch.diff || exit 3; cd /verif; timeout 1500 python3 check.py $*"
r=$?; rm -rf $W; exit $r
