#!/bin/bash
# Records the checksums of what build.sh makes of /repo's HEAD (vlib/head_*.json).
rm -rf /tmp/w; cp -a /repo /tmp/w
unshare -m bash -c "mount --make-rprivate / 2>/dev/null; mount --bind /tmp/w /repo && bash /opt/vp/build.sh" > /tmp/record.log 2>&1 || { tail /tmp/record.log; exit 1; }
VERIF_REPO=/tmp/w python3 $(dirname "$0")/../vlib/build.py --record head
