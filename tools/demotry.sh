#!/bin/bash
# demotry.sh ID: runs one demonstration on the tree as it is
export DEMO_TARGET_DIR=/tmp/demo-target; h=$(cd "$(dirname "$0")" && pwd); cd /repo; bash "$h/../seeded/$1/demo.sh"; echo "rc=$?"
