#!/bin/bash
# regenerates harness/h/registry.go from the harness functions
cd "$(dirname "$0")/../harness/h"
{
echo "package h"
echo
echo "// Registry maps harness names to functions (generated by tools/gen_registry.sh)."
echo "var Registry = map[string]func(){"
grep -hoE '^func C[0-9]{2}[A-Za-z0-9]*\(\)' *.go | sed -E 's/func ([A-Za-z0-9]+)\(\)/\1/' | sort | while read f; do echo "	\"$f\": $f,"; done
echo "}"
} > registry.go.tmp && mv registry.go.tmp registry.go && gofmt -w registry.go
