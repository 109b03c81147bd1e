#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree, then decide the property.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || { echo "build failed" >&2; exit 2; }
exec /verif/target/build/release/mc check "$1" 3>&1 1>/dev/null
