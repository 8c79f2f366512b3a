#!/bin/sh
# Build the file-system shim and check that the framework imports. Offline.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replays
if [ -f dst/fsshim.c ]; then
    gcc -O2 -shared -fPIC -o build/fsshim.so dst/fsshim.c -ldl -lpthread || exit 1
fi
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import dst.main"
