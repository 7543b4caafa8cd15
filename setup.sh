#!/bin/bash
# builds the driver and the dependencies once
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
./extract.sh "$PWD/build/setup.json"
rm -f "$PWD/build/setup.json"
