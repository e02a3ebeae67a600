"""Write /verif/MANIFEST.json from properties.jsonl and dst/checks.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
checks = json.loads((V / "dst/checks.json").read_text())
props = [json.loads(line) for line in (V / "properties.jsonl").read_text().splitlines() if line.strip()]
PURE = "A pure function of its input: no concurrency, time, I/O, failure or history can influence it, so there is nothing for a simulated scheduler or fault injector to decide."
REASONS = {
    "C21": PURE,
    "C22": PURE,
    "C23": PURE,
    "C24": PURE + " (KMeans/DBSCAN inside are deterministic for a given seed.)",
}
out = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, jax, pymoo, sklearn_extra\" && python3 -c \"import dst.run\"",
    checks=[],
    not_applicable=[],
    notes="No hooks in /repo: the seams the code has (callbacks, numerical kernels, files, clocks, loggers) suffice. Replay: python3 -m dst.run --replay FILE (in /verif).",
)
for p in props:
    i = p["id"]
    if i in checks:
        out["checks"].append(
            dict(
                property=i,
                quick_cmd=f"python3 -m dst.run --property {i} --tier quick",
                thorough_cmd=f"python3 -m dst.run --property {i} --tier thorough",
                technique="deterministic simulation with fault injection (seeded search)",
                level="exploration",
                level_note=checks[i]["note"],
            )
        )
    else:
        out["not_applicable"].append(dict(property=i, reason=REASONS.get(i, "Check not built yet.")))
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
