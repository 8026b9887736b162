#!/bin/bash
# builds the verifier into $1
cd "$(dirname "$0")/gover" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o "$1" .
