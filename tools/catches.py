"""Prints the table of seeded bugs for DESIGN.md (tools/design_tail.md)."""
import json
import pathlib

MISSED_FIRST = {
    "C29-offset-accumulates": "missed at first: agents took a single step; the case `repeated` was added for it",
    "C35-close-on-average": "missed at first: grids had up to two atoms of which one moved; the case `crowd` was added for it",
    "C03-whole-days": "missed at first: dwell times were at most 100 s; they are up to ten days now",
    "C17-record-emptied": "missed at first: a record which was emptied was let pass if it was the observer's own; it has to stay as it was now",
    "C18-seeded-once": "missed at first: environments were seeded once only; they are seeded again, also amid an episode, now",
    "C46-times-swapped": "missed at first: lines with a figure which is no outcome were passed over; figures are compared with the outcome named now",
    "C23-label": "missed at first: which label images are present was fixed; presence is a symbolic bool now",
    "C24-median": "missed at first: the case `cutoff` (neighbors displaced past the cutoff) was added for it",
    "C27-shared-images": "missed at first: every order of eight things exhausted memory; of more than five only the first two are in any order now",
    "C35-sorted-kinds": "missed at first: atomic numbers were too uniform; they are symbolic now",
    "C38-distill-optimizer": "missed at first: the stand-in optimizer was stateless; its step depends on its state now",
}
root = pathlib.Path(__file__).resolve().parents[1] / "seeded"
print("| seeded bug | caught by | what it breaks | note |")
print("|---|---|---|---|")
for d in sorted(root.iterdir()):
  m = json.loads((d / "meta.json").read_text())
  print(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {MISSED_FIRST.get(d.name, '')} |")
