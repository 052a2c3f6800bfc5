#!/bin/bash
# mkplant.sh ID PROPERTY "needs" "breaks": takes the edits made in /tmp/pl/repo as the planted bug; demo.c (or demo.sh) is read from stdin as C code
d=/verif/seeded/$1; mkdir -p $d; R=${PL:-/tmp/pl}/repo
git -C $R diff > $d/patch.diff; git -C $R checkout -q -- .
cat > $d/demo.c
python3 - "$d" "$2" "$3" "$4" <<'P'
import sys,json; d,p,n,b=sys.argv[1:]; json.dump(dict(property=p,needs=n,what_it_breaks=b),open(d+"/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'S'
#!/bin/bash
# Run in the root of the repository after its build.
here=$(cd "$(dirname "$0")" && pwd); top=$PWD; tmp=$(mktemp -d); trap 'rm -r "$tmp"' EXIT
gcc -g -w -I"$top/_build/src/include" "$here/demo.c" -o "$tmp/demo" -L"$top/_build/lib" -lscotch -lscotcherr -Wl,-rpath,"$top/_build/lib" -lm -lpthread || exit 2
cd "$tmp" && exec timeout 120 ./demo
S
head -c 600 $d/patch.diff
