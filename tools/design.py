"""Fills the table of planted bugs in DESIGN.md (between the two markers)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
A, B = "<!-- seeded -->", "<!-- /seeded -->"


def main():
    rows = ["| Change | Caught by | Needs |", "|---|---|---|"]
    missed = json.loads((V / "tools" / "missed.json").read_text())
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        note = missed.get(d.name, "")
        rows.append(f"| {d.name} | {m['property']}{' (' + note + ')' if note else ''} | {m['needs']} |")
    f = V / "DESIGN.md"
    s = f.read_text()
    i, j = s.index(A) + len(A), s.index(B)
    f.write_text(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])


if __name__ == "__main__":
    main()
