# Planted bugs: each call of seed() describes one; run.py writes /verif/seeded/<id>/ and confirms it in a scratch copy.
import os,subprocess,json,shutil,sys,tempfile
SEEDS=[]
def seed(id,prop,edits,demo,needs,breaks):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
PRE='''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var _ = json.Marshal
var _ = exec.Command
var _ = strings.Join
var _ = reflect.DeepEqual
var _ = time.Now
var _ SoqlFieldInfo

func must(s string) *SoqlQuery {
	q, err := parser.Parse(s)
	if err != nil || q == nil {
		fail("%s: %v", s, err)
	}
	return q
}

func rejected(s string) {
	if _, err := parser.Parse(s); err == nil {
		fail("accepted: %s", s)
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL "+f+"\\n", a...)
	os.Exit(1)
}

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fail(f, a...)
	}
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
'''
SH='''#!/bin/bash
# exit 0: the property holds on the demonstrated input
dir=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
cd /repo
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/zz_demo/main.go":"%s/main.go.txt"}}' "$dir" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
timeout 120 "$tmp/demo"
'''
