"""`python3 -m tools.design` writes DESIGN.md with the table of planted bugs."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent


def main():
    rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
    for m in sorted((HERE / "seeded").glob("*/meta.json")):
        d = json.loads(m.read_text())
        rows.append(f"| {m.parent.name} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
    t = (HERE / "tools" / "DESIGN.in.md").read_text()
    (HERE / "DESIGN.md").write_text(t.replace("@@TABLE@@", "\n".join(rows)))


if __name__ == "__main__":
    main()
