#!/bin/bash
# ns.sh CMD: runs CMD in a mount namespace where /repo is the scratch copy /tmp/wt and /verif is
# /tmp/wv if that exists. Development only.
exec unshare -m bash -c 'mount --bind /tmp/wt /repo; [ -d /tmp/wv ] && mount --bind /tmp/wv /verif; cd /repo; '"$1"
