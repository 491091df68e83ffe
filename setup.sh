#!/bin/bash
# builds the MIR driver and warms the dependency metadata
cd "$(dirname "$0")" || exit 1
./dump.sh .build/setup.json && rm -f .build/setup.json || exit 1
./ffi_dump.sh .build/setup-ffi.json && rm -f .build/setup-ffi.json
exit 0
