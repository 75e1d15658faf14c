#!/bin/bash
cd "$(dirname "$0")" && GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/qkverif .
