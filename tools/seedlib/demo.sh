#!/bin/bash
# Run with the repository as working directory, after a build.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T"
if [ -f "$H/demo.bzz" ]; then
  cp "$H/demo.bzz" .
  "$B/buzz/bzzparse" demo.bzz demo.basm || { echo "does not compile"; exit 1; }
  "$B/buzz/bzzasm" demo.basm demo.bo demo.bdb || { echo "does not assemble"; exit 1; }
fi
gcc -std=gnu99 -w -I"$R/src" -I"$B" -I"$H" "$H/demo.c" -o demo -L"$B/buzz" -lbuzzdbg -lbuzz -lm -Wl,-rpath,"$B/buzz" || exit 2
timeout 120 ./demo
