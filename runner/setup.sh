#!/bin/bash
# Builds the driver once (warms the Go build cache) and parses the specification.
set -e
cd "$(dirname "$0")/.."
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off
d=$(mktemp -d)
(cd driver && go build -o "$d/driver" .)
(cd driver && go build -race -o "$d/driver-race" .)
rm -rf "$d"
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
