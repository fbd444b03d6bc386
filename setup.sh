#!/bin/bash
# Builds the verifier once (fills the build cache) and parses the contracts.
. /opt/vp/env.sh
cd "$(dirname "$0")/vc" && go build -o /dev/null . && echo built
