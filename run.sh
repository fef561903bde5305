#!/bin/bash
# run.sh PROPERTY [quick|thorough]   one property's check, built from /repo's working tree
# run.sh replay FILE                 a recorded violation again
# run.sh one PROPERTY INDEX [min]    the trace of one run
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
BUILD="$(mktemp -d "${TMPDIR:-/tmp}/dstbuild.XXXXXX")"
trap 'rm -rf "${BUILD:?}"' EXIT
bash "$HERE/build.sh" "$BUILD" >&2
case "$1" in
replay)
  "$BUILD/dst" replay "$2" && rc=0 || rc=$?
  ;;
one)
  "$BUILD/dst" one -prop "$2" -base "${VERIF_SEED:-1}" -index "$3" ${4:+-min} && rc=0 || rc=$?
  ;;
*)
  "$BUILD/dst" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$HERE" && rc=0 || rc=$?
  ;;
esac
exit $rc
