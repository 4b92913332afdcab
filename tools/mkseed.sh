#!/bin/bash
# usage: tools/mkseed.sh <id> <property> <main.go> <needs> <what> [lib files...]
# Takes the uncommitted change in /repo as the patch and packs a planted bug into seeded/<id>; restores /repo.
set -eu
root="$(cd "$(dirname "$0")/.." && pwd)"
d="$root/seeded/$1"
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /repo"; exit 1; }
git -C /repo checkout -q -- .
cp "$3" "$d/main.go"
for f in "${@:6}"; do sed 's/^package .*/package main/' "$f" > "$d/$(basename "$f")"; done
python3 - "$d" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Builds the program beside this script against the source tree in the current directory and runs it.
set -u
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 9
trap 'rm -rf -- "$tmp"' EXIT
{
	printf '{"Replace":{'
	sep=
	for f in "$here"/*.go; do
		printf '%s"%s/zz_demo/%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 9
timeout 200 "$tmp/demo"
D
chmod +x "$d/demo.sh"
