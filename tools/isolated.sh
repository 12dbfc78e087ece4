#!/bin/bash
# isolated.sh CMD...: run CMD with private copies of /repo and /verif mounted over the real ones (development aid;
# nothing it does to them is kept). OUT=dir keeps /tmp outputs as usual.
t=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo "$t/repo"; cp -a /verif "$t/verif"
export T="$t"
unshare -Urm sh -c 'mount --bind "$T/repo" /repo && mount --bind "$T/verif" /verif && cd /verif && exec "$@"' sh "$@"
rc=$?
rm -rf "$t"
exit $rc
