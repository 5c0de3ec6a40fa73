#!/bin/sh
# nothing to build ahead: every check encodes /repo's current sources itself
set -e
for t in cbmc goto-cc goto-instrument gcc objcopy python3 make; do command -v $t >/dev/null; done
mkdir -p evidence replays
