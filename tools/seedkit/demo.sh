#!/bin/bash
# Runs demo_test.go (with the kit beside it) as a package of the module in the current directory; exit 0 when it passes.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off VERIF_PKI="$here/kit/pki"
{
  printf '{"Replace": {'
  sep=
  for f in "$here"/kit/*.go "$here"/*_test.go; do
    printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=', '
  done
  printf '}}'
} > "$work/overlay.json"
go test -c -vet=off -tags verif -overlay "$work/overlay.json" -o "$work/demo.bin" ./zzdemo || exit 4
cd "$work" && timeout -k 5 200 ./demo.bin -test.run '^TestDemo$' -test.timeout 190s
