#!/bin/bash
# build the dumper heap image: build.sh BUILDDIR
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
SEED=/opt/smlnj-boot/amd64
OUT=$1
mkdir -p $OUT
python3 $HERE/prep.py $SEED/base/cm $OUT/dcm
cd $OUT/dcm
cat > mk.sml <<'X'
(if CM.make "dumper.cm" then () else OS.Process.exit OS.Process.failure);
X
cat > mk2.sml <<X
#set CM.Control.verbose false;
val _ = SMLofNJ.exportFn ("$OUT/dumper", DumpMain.main);
X
cat > mkall.sml <<X
val _ = if CM.make "dumper.cm" then () else OS.Process.exit OS.Process.failure;
val _ = use "mk2.sml";
X
$SEED/bin/sml -DNO_PLUGINS mkall.sml </dev/null > $OUT/dumper.log 2>&1
test -f $OUT/dumper.amd64-linux
