#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
R=$(pwd); B=$R/.build-waf-default/src
ln -s "$R/src" "$t/lib-common"
clang -std=gnu11 -fblocks -funsigned-char -fno-strict-aliasing -fwrapv -march=x86-64-v2 -O1 -w \
  '-Dindex(s,c)=index__(s,c)' -D_GNU_SOURCE -DHAS_LIBCOMMON_REPOSITORY=0 -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 \
  -I"$t" -I"$R/src/compat" -I/usr/include/libxml2 "$here/demo.c" -o "$t/demo" \
  -Wl,--whole-archive $B/liblibcommon.a $B/liblibcommon-iop.a $B/liblibcommon-minimal.a -Wl,--no-whole-archive \
  -Wl,-z,muldefs -lxml2 -lssl -lcrypto -lz -lpthread -ldl -lm -lrt || exit 2
cd "$t" && timeout 120 ./demo
