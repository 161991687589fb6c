#!/bin/bash
# Checks that everything the checks need builds offline.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
cd "$(dirname "$0")/harness" || exit 1
TMP=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$TMP"' EXIT
F=(-tags "covfuzz" "-gcflags=github.com/twuillemin/modes/...=-d=libfuzzer" -ldflags=-checklinkname=0)
go build "${F[@]}" -o "$TMP/verif" ./cmd/verif && go build -race -o "$TMP/verifr" ./cmd/verif &&
	go build -o "$TMP/plain" ./cmd/verif && go build -tags c25,c33 -o "$TMP/verif25" ./cmd/verif && go build -o "$TMP/modes" github.com/twuillemin/modes/cmd &&
	GOARCH=386 go build -o "$TMP/verif386" ./cmd/verif && GOAMD64=v3 go build -o "$TMP/verifv3" ./cmd/verif &&
	mkdir "$TMP/fused" && go run ./cmd/fuse "$TMP/fused" && go build -overlay "$TMP/fused/overlay.json" -o "$TMP/veriffma" ./cmd/verif &&
	mkdir "$TMP/elsewhere" && go run ./cmd/elsewhere "$TMP/elsewhere" && go build -overlay "$TMP/elsewhere/overlay.json" -tags elsewhere -o "$TMP/verifelse" ./cmd/verif
