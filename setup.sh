#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --offline -q
