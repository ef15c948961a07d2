#!/bin/bash
# builds the plain variant once; each check brings its own variants up to date by itself
cd "$(dirname "$0")/.."
bash lib/build.sh plain
