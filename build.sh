#!/bin/bash
# builds the engine from the committed sources
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
cd engine && GOFLAGS=-mod=mod go build -o ../bin/symgo .
