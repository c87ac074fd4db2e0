#!/bin/bash
# replay.sh FILE: executes a recorded violation again.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
file=$(realpath "$1")
. "$here/bin/build.sh"
prop=$(sed -n 's/.*"property": *"\(S[0-9]*\)".*/\1/p' "$file" | head -1)
build_for "${prop:-S01}"
cd "$here"
exec "$siasim" replay "$file"
