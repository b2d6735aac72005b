#!/bin/bash
# js.sh: bundles the JavaScript client of /repo's working tree with the
# checker's worker and prints the path of the bundle.
set -e
out=/verif/target/js
h=$( { cd /repo/clients/js && find src -type f -name '*.ts' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd /verif/js && sha256sum build.mjs worker.mjs stubs/*; } | sha256sum | cut -c1-16)
mkdir -p $out
exec 9>$out/lock; flock 9
if [ ! -f $out/client-$h.mjs ]; then
  # the last few are kept
  ls -t $out | grep ^client- | tail -n +4 | while read f; do rm -f /verif/target/js/$f; done
  (cd /verif/js && node build.mjs /repo/clients/js/src $out/next.mjs) 9>&- 1>&2 || { echo "ERROR: the JavaScript client does not build" >&2; exit 2; }
  mv $out/next.mjs $out/client-$h.mjs
fi
echo $out/client-$h.mjs
