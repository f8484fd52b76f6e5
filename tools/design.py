"""Writes DESIGN.md: the texts below, and one section per property from tools/gen.py and the registered checks."""
import json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.path.insert(0, str(ROOT / "tools"))
import gen
from texts import HEAD, TAIL, BOUNDS, TECH


def main():
    from sa import run
    reg = run.load().REGISTRY
    out = [HEAD.strip(), "", "## Properties", ""]
    for p in gen.P:
        i = p["id"]
        out += [f"### {i} {p['title']}", ""]
        if i not in reg:
            out += [f"Not applicable: {p['na']}.", ""]
            continue
        fn, rule, assume = reg[i][:3]
        out += [f"* **Quantifier.** {p['quantifier']['text']}. Tests cannot settle it: {p['why_tests_cant']}.",
                f"* **Analysed.** {', '.join(m['name'] for m in p['anchors']['mechanism'])}, with every helper reached from there ({', '.join(p['anchors']['files'])}).",
                f"* **Method.** {TECH[i]}.",
                f"* **Rule and oracle.** {rule}",
                f"* **Bounds and limits.** {BOUNDS[i]}"]
        if assume: out.append("* **Assumed.** " + "; ".join(assume) + ".")
        out.append("")
    rows = []
    for m in sorted((ROOT / "seeded").glob("*/meta.json")):
        d = json.loads(m.read_text())
        rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} |")
    out += [TAIL.strip().replace("@SEEDED@", "\n".join(rows)), ""]
    (ROOT / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    main()
