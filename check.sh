#!/bin/bash
# check.sh PROPERTY [extra gosym flags]; the tier comes from VERIF_TIER.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' | head -1)" ]; then
  ./setup.sh || exit 2
fi
prop=$1; shift
exec bin/gosym check -prop "$prop" -tier "${VERIF_TIER:-quick}" "$@"
