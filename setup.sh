#!/bin/bash
# Builds the harness from the committed files and /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --offline -q && cargo build --offline -q --release && cargo build --offline -q --profile plain
