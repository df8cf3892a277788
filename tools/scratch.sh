#!/bin/bash
# scratch.sh CMD..: runs a command with a private copy of /repo in place of /repo, and of /verif/.build and replays (development aid)
S=/tmp/scratch${SLOT:-}
mkdir -p $S/build $S/replays $S/evidence
[ -d $S/repo/.git ] || git clone -q /repo $S/repo
git -C $S/repo fetch -q origin && git -C $S/repo checkout -q -f --detach $(git -C /repo rev-parse HEAD)
[ -f /repo/Cargo.lock ] && { cmp -s /repo/Cargo.lock $S/repo/Cargo.lock || cp /repo/Cargo.lock $S/repo/Cargo.lock; }
exec unshare -Urm bash -c "mount --bind $S/repo /repo && mount --bind $S/build /verif/.build && mount --bind $S/replays /verif/replays && mount --bind $S/evidence /verif/evidence && cd /verif && exec \"\$@\"" x "$@"
