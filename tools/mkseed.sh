#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS  -- takes the edits present in /repo's working tree as the patch, undoes them; demo.c on stdin
set -e
d=/verif/seeded/$1; mkdir -p "$d"; git -C /repo diff > "$d/patch.diff"; git -C /repo checkout -- .
test -s "$d/patch.diff"
cat > "$d/demo.c"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# run in /repo after the build: 0 = behaves, nonzero = broken
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -w -g -o "$t/demo" "$here/demo.c" -Iinclude -Isrc -Isrc/extensions -I/usr/include/cmark-gfm -Lbuild -lapex -lcmark-gfm -Wl,--unresolved-symbols=ignore-all -Wl,-rpath,"$PWD/build" || exit 0
cd "$t" && timeout 60 ./demo
S
python3 - "$@" <<'P'
import sys, json
i, p, n, b = sys.argv[1:5]
json.dump({"property": p, "needs": n, "what_it_breaks": b}, open(f"/verif/seeded/{i}/meta.json", "w"), indent=1)
P
