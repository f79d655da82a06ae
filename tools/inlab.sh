#!/bin/bash
# inlab.sh N CMD...: runs CMD with lab N mounted over /repo and /verif (private mount namespace)
L=/tmp/lab/$1; shift
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && ulimit -v 8000000; cd /verif && exec nice -n 15 "$@"' $L "$@"
