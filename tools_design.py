"""Rewrites the table of seeded bugs in DESIGN.md."""
import json
import os
import re

FIRST_MISSED = {"c01-string-bom": "missed (codec model without BOM)",
                "c10-surrogates": "missed (codec model without surrogatepass)",
                "c17-predicate-eq": "missed (no predicates of other classes)",
                "c22-bytearray": "missed (no bytearray arguments)",
                "c15-count": "missed (no type strings with many aliases)",
                "c07-many": "missed (no long arrays of dynamic items)",
                "c16-item-dyn": "missed (no types of five dimensions)",
                "c22-id-cache": "missed (arguments were not changed between calls)",
                "c26-pointers": "missed (no bad offsets next to another call)",
                "c19-clamp": "missed (seeks to negative places were excluded)",
                "c17-string-label": "missed (no labels along with lookup strings)",
                "c18-lazy-deepcopy": "missed (only single registries were copied)",
                "c02-array-wide-offset": "missed (no array with a large item before the last)"}


def main():
    rows = ["| bug | caught by | first | what it breaks |", "|---|---|---|---|"]
    for d in sorted(os.listdir("seeded")):
        m = json.load(open("seeded/%s/meta.json" % d))
        rows.append("| %s | %s | %s | %s |" % (
            d, m["property"], FIRST_MISSED.get(d, "caught"), m["what_it_breaks"]))
    s = open("DESIGN.md").read()
    block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
    s = s.replace("SEEDTABLE", block)
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: block, s, flags=re.S)
    open("DESIGN.md", "w").write(s)


main()
