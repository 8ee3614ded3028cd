#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")/harness" && . /opt/vp/env.sh && export GOFLAGS=-mod=mod && go build -buildvcs=false -o /dev/null .
