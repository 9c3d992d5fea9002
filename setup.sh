#!/bin/bash
# Build the extractor if the committed binary does not match its source, and check the tools the analysis needs.
set -e
cd "$(dirname "$0")"
command -v protoc >/dev/null
python3 -c 'import sys; assert sys.version_info >= (3, 10)'
if [ "$(cat bin/extract.sha256 2>/dev/null)" != "$(sha256sum extractor/extract.cc | cut -d' ' -f1)" ] || ! { bin/extract >/dev/null 2>&1; [ $? -eq 2 ]; }; then
  python3 -m sa.frontend build
fi
echo ready
