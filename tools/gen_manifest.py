#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and the texts below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["07c1bec", "f651075"]
LEVEL_NOTE = {}
NOT_APPLICABLE = {}
exec(open(os.path.join(ROOT, "tools", "manifest_texts.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p not in NOT_APPLICABLE:
        cmd = "python3 checks/run.py " + p
        checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                           evidence_file="evidence/%s.json" % p,
                           technique=TECHNIQUE.get(p, TECHNIQUE["default"]), level="model_checking",
                           level_note=LEVEL_NOTE.get(p, LEVEL_NOTE["default"])))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
m = dict(version=1, setup_cmd="cd harness && cargo build --offline --quiet",
         hooks=dict(guard="cfg(nargun_verif)",
                    enable="harness/.cargo/config.toml passes --cfg nargun_verif (and --cfg tokio_unstable) as rustflags; the harness crate depends on /repo by path",
                    source_commits=full),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked by TLC; bound to the code by executing the complete labelled graph of each bounded specification against the real code and by TLC validation of recorded executions. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
