#!/bin/bash
# all distinct violation signatures of the last run of a check: tools/sigs.sh C10
python3 - "$1" <<'P'
import glob, json, sys
d = {}
for f in sorted(glob.glob(f"/verif/replays/{sys.argv[1]}-*.json")):
    j = json.load(open(f)); d.setdefault(j["sig"], []).append((f, j["message"]))
for s, l in sorted(d.items()): print(s, "|", l[0][1][:260].replace("\n", " "), "|", l[0][0].split("/")[-1])
print(len(d), "signatures")
P
