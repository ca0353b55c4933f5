#!/bin/bash
# builds demo.cpp against the library just built and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$R/_build/tree/src
w=$(mktemp -d) || exit 99
trap 'cd /; rm -rf "$w"' EXIT
g++ -w -g -O0 -DNDEBUG -DLINUX -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE -I"$here" -I$R/src/framework -I$R/src/cas -I$R/src/jni -I/usr/include/xercesc -I/usr/include/apr-1.0 $(cat "$here/flags" 2>/dev/null) "$here/demo.cpp" -DANN -shared -fPIC -o "$w/ann.so" -L$T/framework/.libs -Wl,-rpath,$T/framework/.libs -luima -lxerces-c -licuuc -licudata -licuio -licui18n -lapr-1 || exit 98
g++ -w -g -O0 -DNDEBUG -DLINUX -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE -I"$here" -I$R/src/framework -I$R/src/cas -I$R/src/jni -I/usr/include/xercesc -I/usr/include/apr-1.0 $(cat "$here/flags" 2>/dev/null) "$here/demo.cpp" -o "$w/demo" -L$T/framework/.libs -Wl,-rpath,$T/framework/.libs -luima -lxerces-c -licuuc -licudata -licuio -licui18n -lapr-1 || exit 98
cd "$w" && LD_LIBRARY_PATH="$w:$T/framework/.libs" timeout 120 ./demo
