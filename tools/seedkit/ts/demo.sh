#!/bin/bash
# Bundles the TypeScript client as it is in /repo (absent packages replaced by empty ones) and runs main.mjs on it.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
cp "$D/kit.mjs" "$D/main.mjs" "$S/"
cd "$S" && timeout 120 node main.mjs
