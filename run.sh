#!/bin/bash
# run.sh <property> <tier>: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
if [ ! -x bin/vitecheck ] || [ -n "$(find analyzer -maxdepth 1 -name '*.go' -newer bin/vitecheck | head -1)" ]; then
  if ! bash setup.sh >&2; then
    echo "the analyzer cannot be built"
    exit 2
  fi
fi
exec bin/vitecheck check "$1" "${2:-quick}"
