#!/bin/bash
# run.sh NAME [REPO]: builds findings/NAME.cpp against a built tree and runs it (documentation of defects; no check uses it).
. /opt/vp/env.sh
set -e
here=$(cd "$(dirname "$0")" && pwd); R=${2:-/repo}
w=$(mktemp -d); trap 'find "$w" -delete' EXIT; cd "$w"
mpicxx -std=c++14 -O1 -I$R/src -I$R/_build/src -I$R/tpl "$here/$1.cpp" -o t -L$R/_build/src -lomega_h -Wl,-rpath,$R/_build/src
n=$(sed -n 's/^\/\/ ranks: //p' "$here/$1.cpp")
timeout 120 mpirun -n ${n:-1} ./t
