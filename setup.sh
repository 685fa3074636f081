#!/bin/bash
# Builds the executor and warms the dependency builds of the harness.
set -e
cd "$(dirname "$0")"
engine/build.sh
bash build_harness.sh build/h
bash build_harness.sh build/h-instr instr
bash build_harness.sh build/h-spawn spawn
bash build_harness.sh build/h-derive derive
