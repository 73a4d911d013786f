#!/bin/bash
# bash check.sh <PROPERTY-ID>   -- run one check against /repo's working tree.
# Everything BibleOrgSys writes goes below a scratch HOME / scratch cwd, removed on exit.
set -u
id="${1:?usage: check.sh ID}"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
work="$(mktemp -d /tmp/bosv.XXXXXXXX)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/home" "$work/cwd" "$work/tmp"
cd "$work/cwd" || exit 3
env -i PATH="$PATH" HOME="$work/home" USER=root LOGNAME=root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC TMPDIR="$work/tmp" \
    PYTHONPATH="${BOSV_REPO:-/repo}:$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pycache" \
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" BOSV_WORK="$work" BOSV_HERE="$here" \
    BOSV_REPO="${BOSV_REPO:-/repo}" BOSV_EVIDENCE="${BOSV_EVIDENCE:-$here/evidence}" BOSV_ONLY="${BOSV_ONLY:-}" \
    timeout -k 10 "${BOSV_TIMEOUT:-6000}" /opt/venv/bin/python -B -m bosv.main "$id" </dev/null
