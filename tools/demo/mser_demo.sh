#!/bin/bash
# run in /repo after the build: 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc="-Ibasicimg/include -Ibasicmath/include -Ibasicsys/include -Ibasiclog/include -Ibasicimg/src/stdafx -I$here"
for f in "$here/demo.cpp" basicimg/src/img_fast_mser_v1.cpp basicimg/src/img_fast_mser_v2.cpp basicimg/src/img_mser_base.cpp; do
	clang++-18 -std=c++11 -stdlib=libc++ -w -O1 -g -fsanitize=address -fopenmp -ffunction-sections -fdata-sections -include /opt/vp/port/include/compat.h -I/opt/vp/port/include \
		-fms-extensions -isystem basic_thrid_libs/lib_opencv/341/include $inc -c "$f" -o "$t/$(basename $f .cpp).o" || exit 2 &
done
wait
clang++-18 -stdlib=libc++ -fsanitize=address -fopenmp -Wl,--gc-sections "$t"/*.o -Wl,--start-group _build/libbasicmath.a _build/libbasicsys.a _build/libbasiclog.a -Wl,--end-group -lpthread -o "$t/demo" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
