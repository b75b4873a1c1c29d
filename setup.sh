#!/bin/bash
# Builds the harness once; every check rebuilds what changed.
here=$(cd "$(dirname "$0")" && pwd)
"$here/harness/build.sh" plain
if [ -s "$here/harness/race.list" ]; then "$here/harness/build.sh" race; fi
