# sourced by demo.sh: builds jom with a stand-in for its processes, in a scratch directory that is removed at the end
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export WINEPREFIX=/opt/vp/winelib/prefix WINEDEBUG=-all
unset DISPLAY JOMFLAGS MAKEFLAGS
scratch=$(mktemp -d /tmp/jomdemo.XXXXXX) || exit 99
trap 'rm -rf "$scratch"' EXIT
bash "$here/build.sh" "$scratch/fakejom.exe" || { echo "demo: build failed"; exit 99; }
mkdir "$scratch/w"; cd "$scratch/w" || exit 99
export FAKEJOM_LOG=$scratch/log
# runs jom; output in $scratch/out, log of the commands in $scratch/log, exit status in $rc
jom() {
    : > "$FAKEJOM_LOG"
    timeout -k 5 ${LIMIT:-40} wine "$scratch/fakejom.exe.so" /nologo "$@" > "$scratch/out" 2>&1
    rc=$?
}
show() { echo "--- rc=$rc"; cat "$scratch/out"; echo "--- log"; grep -v '^STAT' "$FAKEJOM_LOG"; echo "---"; }
broken() { echo "BROKEN: $*"; show; exit 1; }
# line number of the first matching line of the log
at() { grep -n -m1 -- "$1" "$FAKEJOM_LOG" | cut -d: -f1; }
before() { local a b; a=$(at "$1"); b=$(at "$2"); [ -n "$a" ] && [ -n "$b" ] && [ "$a" -lt "$b" ]; }
