#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS : take the current diff of /repo as seeded/ID/patch.diff, undo it, write meta.json; demo.cpp on stdin
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
test -s $d/patch.diff || { echo EMPTY; exit 1; }
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open(sys.argv[4],'w'),indent=1)" "$2" "$3" "$4" $d/meta.json
cat > $d/demo.cpp
cat > $d/demo.sh <<'X'
#!/bin/bash
# cwd: the repository, built. Exits 0 when the property holds for the scenario in demo.cpp.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
L=; for d in "$PWD"/build/src "$PWD"/build/src/*; do L="$L:$d"; done
g++ -std=c++11 -w -O1 -g ${DEMO_FLAGS} -I"$PWD/src" -I"$PWD/build/src" -I"$PWD/build" "$here/demo.cpp" -o "$w/demo" -L"$PWD/build/src" $(for d in "$PWD"/build/src/*/libpficommon*.so; do b=${d##*/lib}; b=${b%.so}; case $b in *database*) ;; *) echo "-L${d%/*} -l$b";; esac; done) -lpthread || exit 2
cd "$w" && LD_LIBRARY_PATH="$L" timeout ${DEMO_T:-60} ./demo
X
