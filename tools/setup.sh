#!/bin/bash
# Builds the framework offline from the committed files.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
(cd harness && cargo build --offline --quiet)
[ -d extract ] && (cd extract && cargo build --offline --quiet)
exit 0
