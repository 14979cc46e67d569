#!/bin/bash
# Builds the disk and clock shim (the checks build it themselves when it is missing).
cd "$(dirname "$0")" && mkdir -p build && gcc -O1 -shared -fPIC -o build/libsimdisk.so csrc/simdisk.c -ldl
