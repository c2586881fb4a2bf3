#!/bin/bash
# Builds what the checks use. Offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd refuter && cargo build --offline 2>&1 | tail -3)
(cd extract && cargo build --offline 2>&1 | tail -3)
(cd conform && cargo build --offline 2>&1 | tail -3) || true
