#!/usr/bin/env python3
"""Writes /verif/sim/src/tuples.rs: a catalogue of tuple notations of many shapes."""
import random
R = random.Random(20181101)
# A shape is a list of child shapes.
def rnd(n, kind):
    par = [-1]
    for i in range(1, n):
        if kind == 0: par.append(R.randrange(i))
        elif kind == 1: par.append(max(0, i-1-R.randrange(2)))
        elif kind == 2: par.append(R.randrange(max(1, i//3)))
        else: par.append(R.choice([0, i-1]))
    kids = [[] for _ in range(n)]
    for i in range(1, n): kids[par[i]].append(i)
    def f(i): return [f(k) for k in kids[i]]
    return f(0)
def height(s): return 1 + max([height(k) for k in s] or [0])
trees = [[], [[]], [[], []], [[[]]], [[[], []]], [[], [[]]], [[[]], []], [[[]], [[]]], [[[]], [[]], [[]]],
         [[[], []], [[], []]], [[[], []], [[], []], [[], []]], [[[[]]], [[[]]]], [[[], [[]]], [[[]], []]], [[], [], [[], []], []],
         [[] for _ in range(12)], [[] for _ in range(16)], [[[]] for _ in range(8)], [[[[[[]]]]]], [[[[[]], [[]]], [[]]], []],
         [[] for _ in range(32)]]
# Every arity, with one or two branches somewhere in it.
for n in range(1, 33):
    t = [[] for _ in range(n)]
    t[R.randrange(n)] = R.choice([[[]], [[], []], [[[]]]])
    if n % 2: t[R.randrange(n)] = R.choice([[[], [], []], [[], [[]]]])
    trees.append(t)
# Branches of all heights in all orders.
def path(h): return [] if h == 1 else [path(h-1)]
def bush(h): return [] if h == 1 else [bush(h-1), [], []] if h % 2 else [[], bush(h-1)]
triples = [(a, b, c) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]
for k, (a, b, c) in enumerate(triples):
    if k % 3 == 0: trees.append([path(a), bush(b), path(c)])
seen = {repr(t) for t in trees}
k = 0
while len(trees) < 125:
    t = rnd(R.randrange(3, 14), k % 4); k += 1
    if repr(t) in seen or height(t) > 6: continue
    seen.add(repr(t)); trees.append(t)
forests = [[], [[]], [[], []], [[[]]], [[[]], []], [[], [[]]], [[[]], [[]]], [[[], []], [[], []]], [[], [], [], [], [], []], [[[[]]], [[]], []],
           [[] for _ in range(32)]]
for n in range(1, 33):
    t = [[] for _ in range(n)]
    t[R.randrange(n)] = R.choice([[[]], [[], []], [[[]]]])
    if n % 2: t[R.randrange(n)] = R.choice([[[], [], []], [[], [[]]]])
    forests.append(t)
for k, (a, b, c) in enumerate(triples):
    forests.append([path(a), path(b), path(c)] if k % 2 else [bush(a), path(b), bush(c)])
    if k % 8 == 0: forests.append([path(b), path(a), path(c), path(b), path(4)])
seen = {repr(t) for t in forests}
while len(forests) < 160:
    t = rnd(R.randrange(3, 14), k % 4); k += 1
    if repr(t) in seen or height(t) > 6: continue
    seen.add(repr(t)); forests.append(t)
leaves = 0
def expr(s):
    """A leaf is an item or, now and then, a tuple of one item."""
    global leaves
    if not s:
        leaves += 1
        return "f()" if leaves % 7 else "(f(),)"
    return "(f(), " + ", ".join(expr(k) for k in s) + ")"
def fexpr(s):
    if not s: return "()"
    return "(" + ", ".join(expr(k) for k in s) + ",)"
def text(s): return "".join("(" + text(k) + ")" for k in s)
def write(file, trees, forests):
    global leaves
    leaves = 0
    out = ["// Generated by /verif/tools/mktuples.py.", "use crate::item::*;", "use crate::tupleop::*;", "use trees::{Forest, Tree};", ""]
    out.append("pub const TREES: &[&str] = &[" + ", ".join('"%s"' % text(t) for t in trees) + "];")
    out.append("pub const FORESTS: &[&str] = &[" + ", ".join('"%s"' % text(t) for t in forests) + "];")
    for name, ty, list, ex in (("tree", "Tree", trees, expr), ("forest", "Forest", forests, fexpr)):
        texts = [ex(t) for t in list]
        out.append("pub fn %s<P: Payload>(k: usize, f: &mut dyn FnMut() -> It<P>) -> %s<It<P>> {\n    match k {" % (name, ty))
        for i, t in enumerate(texts):
            out.append("        %s => %s::from_tuple(%s)," % (i if i+1 < len(texts) else "_", ty, t))
        out.append("    }\n}")
        out.append("pub fn %s_events<P: Payload>(k: usize, how: u32, f: &mut dyn FnMut() -> It<P>, g: &mut dyn FnMut(Ev<P>)) {\n    match k {" % name)
        for i, t in enumerate(texts):
            out.append("        %s => ev_%s(%s, how, g)," % (i if i+1 < len(texts) else "_", name, t))
        out.append("    }\n}")
    open("/verif/sim/src/%s.rs" % file, "w").write("\n".join(out) + "\n")

# The small catalogue is a selection: building the large one takes a minute.
pick = lambda l, n, k: l[:n] + l[n + 4::k]
write("tuples_wide", trees, forests)
write("tuples", pick(trees, 20, 5), pick(forests, 11, 10))
