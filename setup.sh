#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
build $(awk '{print $2}' harness/bins.txt | sort -u)
