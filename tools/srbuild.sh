set -e
export CC=gcc CXX=g++ CCACHE_DISABLE=1
[ -f /tmp/sr/_build/CMakeCache.txt ] || cmake -S /tmp/sr -B /tmp/sr/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTS=ON -DBUILD_EXAMPLES=ON -DUSE_DATE_POLYFILL=ON -Dnanoarrow_DIR=/opt/vp/cmake/nanoarrow -DCMAKE_PROJECT_sparrow_INCLUDE=/opt/vp/cmake/adjust_tests.cmake >/dev/null
ninja -C /tmp/sr/_build -j8 test_sparrow_lib
