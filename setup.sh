#!/bin/bash
# build the extractor and the analysed crate's dependencies once, into /verif/.cache (git-ignored)
set -euo pipefail
V="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
"$V/facts.sh" "$T"
rm -rf "$T"
