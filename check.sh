#!/bin/bash
# check.sh ID        decide property ID on /repo's working tree
# check.sh replay F  run a recorded violation again
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || exit 2
if [ "$1" = replay ]; then
	exec ./bin/symgo replay -verif "$PWD" "$2"
fi
exec ./bin/symgo -verif "$PWD" -prop "$1" -tier "${VERIF_TIER:-quick}" "${@:2}"
