#!/bin/bash
# check.sh PROPERTY quick|thorough      decide one property by simulation
# check.sh replay FILE                  execute a replay file
# check.sh selftest                     determinism of the simulator
cd "$(dirname "$0")" || exit 2
mkdir -p build
if [ ! -e build/shim.so ] || [ sim/shim.c -nt build/shim.so ]; then
  gcc -O1 -Wall -shared -fPIC -o build/shim.so.$$ sim/shim.c -ldl && mv build/shim.so.$$ build/shim.so || exit 2
fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
case "$1" in
  setup) exit 0 ;;
  replay) exec $PY sim/main.py replay "$2" ;;
  selftest) exec $PY sim/main.py selftest ;;
  *) exec $PY sim/main.py check "$1" --tier "${2:-quick}" ;;
esac
