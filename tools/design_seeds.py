"""prints the table of planted bugs for DESIGN.md"""
import glob, json, os
MISSED={
"shots-drop-rare":"400000 shots and an exact binomial test of rare outcomes",
"matrix-cache-on-sum":"named coefficients in the pool of the history",
"conversion-shares-sequence":"sparse copies in the pool of the history",
"grouping-sorts-callers-list":"higher weight of that step; earlier steps repeated",
"noise-equal-up-to-rounding":"pairs of channels with close probabilities",
"equivalent-loose":"states whose overlap is 1 - 1e-4 and less",
"inverse-pairs-cancelled":"more adjacent copies of a gate",
"hea-rotations-per-index":"up to 6 rotations per layer",
"numeric-name-is-angle":"other spellings of the names in this check too",
"repeated-mean-shots":"circuits that use one angle many times",
}
rows={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(f)); d=json.load(open(f))
    rows.setdefault(d['property'],[]).append((i,d['needs']))
print("| property | planted bug | needs |\n|---|---|---|")
for p in sorted(rows):
    for i,n in rows[p]:
        n=' '.join(n.split()).replace('|','\\|')
        x=f" *First missed; now: {MISSED[i]}.*" if i in MISSED else ""
        print(f"| {p} | {i} | {n}{x} |")
