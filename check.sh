#!/bin/bash
# ./check.sh C06 [--tier quick|thorough]   run the check of a property
# ./check.sh replay FILE                   replay a counterexample against the real code
cd "$(dirname "$(realpath "$0")")" || exit 2
. /opt/vp/env.sh
export PYTHONPATH=
if [ "$1" = replay ]; then
    exec /opt/venv/bin/python -W ignore -m symgp.replay "$2"
fi
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python -W ignore -m symgp.run "$@"
