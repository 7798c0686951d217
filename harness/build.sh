#!/bin/bash
# build.sh VARIANT OUTDIR [tool]: compiles libsub's sources from $REPO (default /repo) with the
# harness, or with the dumpsubs tool.  Objects are keyed on content, so that an unchanged file is not recompiled.
set -e
variant=$1; out=$2; repo=${REPO:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/obj"
base="-std=c++11 -DLIBSUB_POSIX -DBOOST_NO_CXX11_SCOPED_ENUMS -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -g1 -w"
case $variant in
  asan) flags="$base -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all" ; link="-fsanitize=address,undefined" ;;
  wrap) flags="$base -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow -fno-sanitize-recover=all -fwrapv" ; link="-fsanitize=address,undefined" ;;
  tsan) flags="$base -O1 -fsanitize=thread" ; link="-fsanitize=thread" ;;
  plain) flags="$base -O2 -DHOOK_NEW" ; link="" ;;
  *) echo "unknown variant $variant" >&2; exit 2 ;;
esac
hdrs=$(cat "$repo"/src/*.h "$repo"/src/*.hpp "$here"/build.sh | sha256sum | cut -c1-16)
objs=()
todo=()
mains=("$here"/harness.cc "$here"/json_impl.cc)
[ "$3" = tool ] && mains=("$repo"/tools/dumpsubs.cc)
for f in "$repo"/src/*.cc "${mains[@]}"; do
  b=$(basename "$f" .cc)
  [ "$b" = version ] && [[ "$f" == "$repo"/* ]] && continue
  h=$hdrs; [ "$b" = json_impl ] && h=none
  k=$( (echo "$flags $h"; cat "$f") | sha256sum | cut -c1-24)
  o="$out/obj/$b-$k.o"
  objs+=("$o")
  [ -f "$o" ] || todo+=("$f" "$o")
done
if [ ${#todo[@]} -gt 0 ]; then
  printf '%s\n' "${todo[@]}" | xargs -P 8 -n 2 bash -c 'g++ '"$flags"' -I'"$repo"'/src -I'"$repo"' -c "$0" -o "$1.tmp$$" && mv "$1.tmp$$" "$1"'
fi
k=$( (echo "$link"; printf '%s\n' "${objs[@]}") | sha256sum | cut -c1-24)
bin="$out/${3:-harness}-$k"
if [ ! -x "$bin" ]; then
  g++ $link "${objs[@]}" -o "$bin.tmp$$" -lboost_locale -lboost_regex -lboost_filesystem -lboost_system -lpthread
  mv "$bin.tmp$$" "$bin"
fi
echo "$bin"
