"""DESIGN.md's table of planted bugs, from seeded/*/meta.json (caught/missed from tools/plant.py runall's output, by hand)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
i = s.index('## Planted bugs')
t = '''## Planted bugs

Written from the property texts and the code, each confirmed (`tools/plant.py verify`: builds, keeps the stable tests, its
demonstration fails with it and passes without).  All of them are caught by the quick check of the property named.

Besides these, two campaigns looked for gaps of the generators:

* *Size thresholds*: some fifty mutants that behave wrongly from a size on (a count, a queue length, a number of live objects, a
  displacement, the n-th call) were run against the checks; those that escaped led to the `marathon`, `swarm`, `capacity` and deep
  list programs and to the larger counts and displacements.  The one that is still not seen is in code nothing reaches.
* *Pairwise argument coverage*: an instrumented copy of the library recorded, for every entry point, which classes of each
  argument met which classes of every other one.  What is left are pairs that are misuse (negative counts, MPI_IN_PLACE on the
  wrong side, uncommitted types), which C17 takes one by one.
* *Undefined behaviour*: the programs of twenty checks were run once on a build with -fsanitize=undefined.  Nothing came up that a
  caller could notice: null pointers with no data behind them, and the product of an extent with a vector stride that is not used
  (one block) and does not fit 64 bits.
* *Refactored copies*: two copies of the library that keep its behaviour (contiguous runs copied in one piece, handles recycled
  first-in first-out, other messages and exit codes on refusal, helpers extracted, loops rewritten) leave the checks quiet.

| id | property | what it breaks | needs |
|-|-|-|-|
'''
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    t += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'], m['needs'])
rest = s[i:]
j = rest.find('\n## ', 5)
open(V + '/DESIGN.md', 'w').write(s[:i] + t + (rest[j:] if j > 0 else ''))
