#!/bin/bash
# with.sh REPO CMD...   runs CMD in /verif with REPO in the place of /repo (private mount namespace; own build
# directory and evidence: LANE names them)
r=$1; shift
t=/tmp/withtarget${LANE:+.$LANE}; mkdir -p $t $t/evidence; export t
exec unshare -m bash -c 'mount --bind "$0" /repo; mount --bind $t /verif/target; mount --bind $t/evidence /verif/evidence; cd /verif; "$@"' "$r" "$@"
