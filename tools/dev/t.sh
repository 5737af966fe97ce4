# t.sh FLAGS PATTERN...
f=$1; shift; for p in "$@"; do echo "== $p: $(/tmp/pt/pt $f "$p" ${AL:-} 2>&1 | head -${N:-4} | cut -c1-150 | tr '\n' ';')"; done
