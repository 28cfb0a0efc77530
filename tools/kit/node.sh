#!/bin/bash
# Runs scenario.mjs (beside this file) with the JavaScript sources of the current directory's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 120 node --no-warnings --experimental-strip-types "$here/scenario.mjs" "$PWD"
