#!/bin/bash
# check.sh PROPERTY [quick|thorough]
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/bin/build.sh"
build_for "$1"
cd "$here"
exec "$siasim" check "$@"
