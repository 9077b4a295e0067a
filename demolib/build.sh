# builds the program $1 (a .exe.so under wine) from the built /repo and fakejom.cpp beside this file
# usage: build.sh OUT [more sources]
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; shift
R=${REPO:-/repo}
A=$R/_build/src/app/CMakeFiles/jom.dir
FL="-I$R/src/jomlib -isystem /usr/include/x86_64-linux-gnu/qt5 -isystem /usr/include/x86_64-linux-gnu/qt5/QtCore -isystem /usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++ -w -I/opt/vp/winelib/include -include msvc_names.h -O1 -fPIC -DQT_CORE_LIB -DQT_NO_DEBUG"
d=$(dirname "$out")
wineg++ $FL -c "$here/fakejom.cpp" -o "$d/fakejom.o"
wineg++ -w "$d/fakejom.o" $A/main.cpp.o $A/application.cpp.o $A/jom_autogen/mocs_compilation.cpp.o -o "$out" $R/_build/lib/libjomlib.a -lQt5Core
