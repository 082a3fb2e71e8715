#!/bin/bash
# Warms the build cache: everything the checks need is built from the committed files and /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin"
cd "$here/harness" && go build -o "$here/bin/setup" . && CGO_ENABLED=1 go build -race -o "$here/bin/setup" . && rm -f "$here/bin/setup"
