#!/bin/bash
# usage: iso.sh <name> <command...>   runs a command where /repo, /verif, /opt/geoana-build and /opt/vp are private copies
# (a user and mount namespace; development aid only, no check uses it)
N=$1; shift
D=/tmp/iso/$N
rm -rf "/tmp/iso/$N"; mkdir -p "$D"
cp -a /repo "$D/repo"; cp -a /opt/geoana-build "$D/build"; cp -a /opt/vp "$D/vp"
mkdir "$D/verif"; (cd "${VERIF_SRC:-/verif}" && tar c --exclude=./evidence --exclude=./replays .) | tar x -C "$D/verif"; mkdir -p "$D/verif/evidence" "$D/verif/replays"
printf '#!/bin/bash\n. /opt/vp/env.sh\ncd / && python -c "import geoana.kernels"\n' > "$D/vp/build.sh"
mkdir "$D/tmp"
unshare -Urm bash -c 'D=$1; shift; mount --bind $D/repo /repo && mount --bind $D/build /opt/geoana-build && mount --bind $D/vp /opt/vp && mount --bind $D/verif /verif && mount --bind $D/tmp /tmp && cd /verif && exec "$@"' iso "$D" "$@"
R=$?
rm -rf "/tmp/iso/$N"
exit $R
