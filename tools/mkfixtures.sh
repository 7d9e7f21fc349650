#!/bin/bash
# Writes the committed fixtures of C26 (fixtures/*.tgz). Run once; not part of setup or of any check.
#   tools/mkfixtures.sh OLD NEW
# OLD: `vh` built (checked) against the released commit b69d0d4, NEW: against /repo as repaired.
# "plain" histories avoid what the released version gets wrong; "full" ones use everything.
set -eu
out=$(cd "$(dirname "$0")/.." && pwd)/fixtures
mkdir -p "$out"
one() { # bin label kind seed style end
    d=$(mktemp -d /dev/shm/fx.XXXXXX)
    if r=$(TMPDIR="$d" "$1" child fixture "$d" "$3" "$4" "$5" "$6" 2>&1 | tail -1) && [ "${r#ok}" != "$r" ]; then
        f=$out/$3-$2-$4-$6.tgz
        tar -C "$d" --exclude=LOG --exclude='LOG.old*' --sort=name --mtime=@0 --owner=0 --group=0 -cf - data model.json | gzip -9n > "$f"
        echo "$(basename "$f") $(stat -c %s "$f") $r"
    else
        echo "FAILED $* : $r" | cut -c1-500
    fi
    find "$d" -delete
}
for s in 1 2 3 4 5 6 7 8; do
    one "$1" released rocksdb $s plain $([ $((s % 2)) = 0 ] && echo leave || echo close)
    one "$1" released image $s plain close
    one "$2" repaired rocksdb 1$s full $([ $((s % 2)) = 0 ] && echo leave || echo close)
    one "$2" repaired image 1$s full close
done
du -sh "$out"
