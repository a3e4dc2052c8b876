#!/bin/sh
# Nothing to build: the specifications are interpreted by TLC and the drivers
# import /repo directly.  Checks that the tools answer and the specs parse.
set -e
cd "$(dirname "$0")"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp spec/*.tla "$tmp"
for f in spec/*.tla; do
  (cd "$tmp" && tla-sany "$(basename "$f")" >sany.log 2>&1) || { echo "cannot parse $f"; cat "$tmp/sany.log"; exit 1; }
done
/opt/venv/bin/python -c 'import jax, equinox, matplotlib'
mkdir -p evidence
