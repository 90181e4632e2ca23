#!/bin/bash
# tools/q.sh file.cpp [layer]: compile a scratch program against the drivers' libraries and run it
f=$1; L=${2:-num}; libs=-la-num; [ $L != num ] && libs="-la-core $libs"; [ $L = geo -o $L = dyn ] && libs="-la-geo $libs"; [ $L = dyn ] && libs="-la-dyn $libs"
echo '#include <cstdlib>
#include <cstdio>
extern "C" void vh_assert_fail(const char* e, const char* f, unsigned int l, const char* fn) { std::fprintf(stderr,"assert %s %s:%u\n",e,f,l); std::abort(); }' > /tmp/q/af.cpp
LO="-Wl,--unresolved-symbols=ignore-all"; g++ -std=c++20 -O0 -g -w -frounding-math -I/verif/stubs -I/repo/source -I/verif/harness $f /tmp/q/af.cpp -o ${f%.cpp} -L/verif/_build/ninja $LO $libs -lmpfr -lgmp -lpthread -Wl,-rpath,/verif/_build/ninja && timeout ${T:-60} ${f%.cpp}
