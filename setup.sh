#!/bin/bash
# builds every check once (each check rebuilds what it needs by itself)
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" && { cargo build --offline --features hooks || cargo build --offline; }
