# common part of the demonstrations: build a harness against the objects of the last build, run it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
B=/repo/_build/src/src
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
# mk OUT SRC [linker flags]: harness with all of nbspd but its main
mk() {
  out=$1; src=$2; shift 2
  objs=$(make -s -C $B -f Makefile -n -B nbspd 2>/dev/null | grep -- '-o nbspd ' | tail -1 | tr ' ' '\n' | grep '\.o$' | grep -v '^main\.o$')
  objcopy --redefine-sym main=nbspd_main $B/main.o "$W/nbspd_main.o"
  (cd $B && gcc -g -Wno-format-truncation -DDEBUG -I$B -I/usr/include/tcl8.6 -I"$here" -o "$W/$out" "$src" "$W/nbspd_main.o" $objs \
     -L libconnth -L libqdb -L libspoolbdb "$@" -lconn -lqdb -lspoolbdb -ltcl8.6 -ldb-5.3 -lz -lpthread -lwrap -lm) || { echo "cannot build the demonstration"; exit 99; }
}
