#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf -- "${t:?}"' EXIT
p=$PWD/_build/prefix
flags="-w -std=c++17 -g -DLINUX -D_REENTRANT -D_GNU_SOURCE -DNDEBUG -DTRACEOFF -D_LARGEFILE64_SOURCE -I$PWD/src/cas -I$PWD/src/framework -I/usr/include/apr-1.0 -I/usr/include/xercesc -fPIC"
libs="-L$p/lib -luima -lxerces-c -licuio -licui18n -licuuc -licudata -lapr-1 -lpthread -Wl,-rpath,$p/lib -rdynamic"
cd "$t" || exit 9
for s in "$d"/ann*.cpp; do [ -f "$s" ] && { g++ $flags -shared -o "lib$(basename "$s" .cpp).so" "$s" $libs || exit 8; }; done
g++ $flags -o demo "$d/demo.cpp" $libs || exit 8
UIMACPP_HOME=$p LC_ALL=${DEMO_LOCALE:-C.UTF-8} timeout 120 ./demo
