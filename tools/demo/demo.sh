#!/bin/bash
# runs in the repository after its build
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 python3 -B "$here/demo.py"
