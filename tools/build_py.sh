#!/bin/sh
# build_py.sh REPO OUT: the pycft package with bindings compiled from REPO, in OUT.pkg
set -e
repo=$1 out=$2
inc=$(python3-vt -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
ext=$(python3-vt -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')
pb=$(ls -d /opt/vp/venv/lib/python3*/site-packages/pybind11/include /opt/vp/deps/pybind11/include 2>/dev/null | head -1)
rm -rf "$out.pkg"
mkdir -p "$out.pkg/pycft"
cp "$repo"/src/pycft/*.py "$out.pkg/pycft/"
g++ -std=c++11 -O2 -DNDEBUG -w -fPIC -shared -fvisibility=hidden -I"$inc" -I"$pb" -I"$repo/src" "$repo/src/pycft/_bindings.cpp" -o "$out.pkg/pycft/_bindings$ext" -lfmt
touch "$out"
