# The runs of every check; executed by mkchecks.py.
COMMON = ("Trusted: go/ssa's translation, the executor's semantics of SSA (validated on every run by replaying sampled paths "
          "through the compiled code) and the solver (built-in; models re-evaluated, sampled unsat answers repeated by z3). ")

# ---------------------------------------------------------------- numeric trees
NOUT = ["histories with more operations than the plans listed per run", "concurrent mutation of one tree (not supported by the package)"]
NCOM = COMMON + "Complete over all keys and prefix lengths for the listed histories (kinds of operation are enumerated, their arguments are symbolic); longer histories are outside."

P("N01", NCOM, NOUT)
for w in (32, 64):
    R("N01", "NumMatch", "all histories insert^3, insert-insert-delete, insert-delete-insert, insert-inplace, with symbolic keys and lengths, then one symbolic lookup", ["hit", "miss"], w=w, **plans(111, 113, 131, 12, 9))
    R("N01", "NumMatchLen", "two insertions and a lookup with lengths from the whole int range", ["hit", "miss"], w=w, k=2)
R("N01", "NumMatch", "insert^4, insert^2-delete-insert, then one lookup", ["hit", "miss"], "thorough", w=32, **plans(1111, 1131))
R("N01", "NumMatch", "insert^3-delete, then one lookup", ["hit", "miss"], "thorough", w=64, **plans(1113, 1131))

P("N02", NCOM, NOUT)
for w in (32, 64):
    R("N02", "NumExact", "histories of up to three operations, then one symbolic exact lookup", ["hit", "miss"], w=w, **plans(111, 113, 131, 212, 9))
    R("N02", "NumExactLen", "two insertions of either style and an exact lookup with lengths from the whole int range", ["hit", "miss"], w=w, k=2)
R("N02", "NumExact", "insert^4, insert^2-delete-insert", ["hit", "miss"], "thorough", w=32, **plans(1111, 1131))
R("N02", "NumExact", "insert^3-delete, insert^2-delete-insert", ["hit", "miss"], "thorough", w=64, **plans(1113, 1131))

P("N03", NCOM, NOUT)
for w in (32, 64):
    R("N03", "NumDelete", "histories of up to three operations, then one symbolic deletion, then enumeration", ["deleted", "not deleted"], w=w, **plans(111, 113, 121, 9))
    R("N03", "NumDelete", "two insertions, a deletion with a length from the whole int range, an exact lookup", ["deleted", "not deleted"], w=w, wide=1, probe=1, **plans(11))
R("N03", "NumDelete", "insert^4, insert^3-delete, then deletion", ["deleted", "not deleted"], "thorough", w=32, **plans(1111, 1113))
R("N03", "NumDelete", "insert^3-delete, insert^2-delete-insert, then deletion", ["deleted", "not deleted"], "thorough", w=64, **plans(1113, 1131))

P("N04", NCOM, NOUT)
for w in (32, 64):
    R("N04", "NumInplace", "up to three operations with in-place insertions against the same with copying ones, then one lookup, exact lookup or deletion", ["built"], w=w, probes=3, **plans(222, 122, 221, 22))
    R("N04", "NumInplaceLen", "two in-place insertions with lengths from the whole int range", ["built"], w=w, k=2)
    R("N04", "NumInplace", "insert-delete-inplace and the like", ["built"], w=w, probes=1, **plans(232, 132))
R("N04", "NumInplace", "four operations", ["built"], "thorough", w=32, probes=1, **plans(2222, 2232))
R("N04", "NumInplace", "four operations", ["built"], "thorough", w=64, probes=1, **plans(2132, 1222))

P("N05", NCOM, NOUT + ["consumers that stop reading the channel (documented to leak the producer)"])
for w in (32, 64):
    R("N05", "NumEnum", "histories of up to four operations", ["empty", "one", "many"], w=w, **plans(111, 113, 131, 221, 9, 1))
R("N05", "NumEnum", "four operations", ["many"], "thorough", w=64, **plans(1111, 1131, 1113))
R("N05", "NumEnum", "five operations", ["many"], "thorough", w=32, **plans(11131))

P("N06", NCOM + " Writes to memory reachable from any earlier version are observed by the executor; at replay they are confirmed as changed bytes or as a data race with a reader.", NOUT, ["sharing of values stored by the caller is the caller's business"])
for w in (32, 64):
    R("N06", "NumFrozen", "histories of up to three operations, then any operation; all earlier versions frozen and compared", ["insert", "delete"], w=w, **plans(111, 113, 22))
R("N06", "NumFrozen", "three operations with deletions", ["deleted"], "thorough", w=32, **plans(131, 1111, 1113))
R("N06", "NumFrozen", "three operations with deletions", ["deleted"], "thorough", w=64, **plans(131, 1113))

# deeper histories over a window of lengths (all key bits stay symbolic)
for p, h, pl in (("N01", "NumMatch", (1111, 1131)), ("N02", "NumExact", (1111, 1131)), ("N03", "NumDelete", (1111,))):
    ex = {"N01": ["hit", "miss"], "N02": ["hit", "miss"], "N03": ["deleted", "not deleted"]}[p]
    R(p, h, "four operations, then the query, lengths 0-8", ex, w=64, lw=8, lb=0, **plans(*pl))
    R(p, h, "four operations, then the query, lengths 24-32", ex, "thorough", w=32, lw=8, lb=24, **plans(*pl))
R("N04", "NumInplace", "four in-place insertions, lengths 0-8", ["built"], w=32, lw=8, lb=0, probes=1, **plans(2222, 2232))
R("N05", "NumEnum", "four operations, lengths 56-64", ["many"], w=64, lw=8, lb=56, **plans(1111, 1131))
R("N05", "NumEnum", "five operations, lengths 0-8", ["many"], w=32, lw=8, lb=0, **plans(11131, 11311))
R("N06", "NumFrozen", "four operations, lengths 0-8", ["deleted"], w=32, lw=8, lb=0, **plans(1113, 1311))

# ---------------------------------------------------------------- IP trees
IOUT = ["histories with more operations than the plans listed per run", "values other than the small distinct ones (see X01 for the full value range)", "in-place insertion into a nil *Tree (panics)"]
ICOM = COMMON + "net.IP, net.IPMask and net.CIDRMask are executed as they are, CIDRMask/Size of a symbolic length as an equivalent bit pattern. Networks are symbolic in address (host bits included) and length; IPv6 runs split at /64 into both halves. Complete over all addresses and lengths for the listed histories."
TY = (0, 8, 16, 32, 64)

P("I01", ICOM, IOUT)
for ty in TY:
    R("I01", "IPGet", "two operations and a lookup by network, both families and both sides of /64, all lengths", ["hit", "miss"], ty=ty, fam=46, **plans(11, 13, 12, 9))
    R("I01", "IPGet", "insertions and lookup by address", ["hit", "miss"], ty=ty, fam=46, addr=1, **plans(41, 14))
    R("I01", "IPGet", "three insertions in one /64 or above it, lengths 56-72", ["hit", "miss"], ty=ty, k0=3333, k1=2332, k2=3233, k3=2222, same64=1, lw=8, lb=56, lbl=0, **plans(111))
    R("I01", "IPGet", "IPv4: three operations, lengths 24-32", ["hit", "miss"], ty=ty, lw=8, lb=24, k0=1111, **plans(111, 113))
    R("I01", "IPGet", "three insertions, all lengths", ["hit", "miss"], "thorough", ty=ty, k0=1111, k1=3333, k2=2332, same64=1, **plans(111))
R("I01", "IPGet", "three insertions, any IPv6 networks, lengths 56-72", ["hit", "miss"], "thorough", ty=0, fam=6, lw=8, lb=56, **plans(111))
R("I01", "IPGet", "three insertions, any IPv6 networks, lengths 56-72", ["hit", "miss"], "thorough", ty=64, fam=6, lw=8, lb=56, **plans(111))

P("I02", ICOM, IOUT)
for ty in TY:
    R("I02", "IPDelete", "two operations and a deletion, both families and both sides of /64, all lengths", ["deleted", "not deleted"], ty=ty, fam=46, **plans(11, 9))
    R("I02", "IPDelete", "insertion and deletion by address", ["deleted", "not deleted"], ty=ty, fam=46, addr=1, **plans(41, 14))
    R("I02", "IPDelete", "three insertions, then deletion across /64, lengths 56-72", ["deleted", "not deleted"], ty=ty, k0=3333, k1=3332, k2=2332, **(dict(k3=3322, k4=2222) if ty == 0 else {}), same64=1, lw=8, lb=56, lbl=0, **plans(111))
    R("I02", "IPDelete", "IPv4: three operations, lengths 0-8", ["deleted", "not deleted"], ty=ty, lw=8, lb=0, k0=1111, **plans(111, 113))
    R("I02", "IPDelete", "deletion, then a lookup, lengths 56-72", ["deleted", "not deleted"], ty=ty, lw=8, lb=56, lbl=0, k0=2322, k1=3322, k2=3323, same64=1, probe=1, **plans(11))
    R("I02", "IPDelete", "three insertions, all lengths", ["deleted", "not deleted"], "thorough", ty=ty, k0=1111, k1=3333, k2=3332, k3=3322, same64=1, **plans(111))
R("I02", "IPDelete", "three insertions, any IPv6 networks, lengths 56-72", ["deleted", "not deleted"], "thorough", ty=0, fam=6, lw=8, lb=56, **plans(111))

P("I03", ICOM, IOUT + ["consumers that stop reading the channel"])
for ty in TY:
    R("I03", "IPEnum", "two operations, both families, all lengths", ["empty", "one", "many"], ty=ty, fam=46, **plans(11, 13, 12, 9))
    R("I03", "IPEnum", "three operations, lengths 56-72 (IPv4 24-32)", ["many"], ty=ty, k0=333, k1=111, k2=233, k3=323, k4=222, k5=132, same64=1, lw=8, lb=56, lbl=0, **plans(111, 131))
    R("I03", "IPEnumRoundTrip", "two operations, all lengths", ["rebuilt"], ty=ty, fam=46, **plans(11, 13, 14))
    R("I03", "IPEnum", "four operations, lengths in a window of 8", ["many"], "" if ty == 0 else "thorough", ty=ty, k0=3333, k1=1111, k2=2333, k3=2222, same64=1, lw=8, lb=0, **plans(1111))
    R("I03", "IPEnum", "three insertions, all lengths", ["many"], "thorough", ty=ty, k0=333, k1=111, k2=233, k3=323, k4=222, same64=1, **plans(111))
    R("I03", "IPEnum", "three operations, any kinds", ["many"], "thorough", ty=ty, fam=46, **plans(111, 131))

P("I04", ICOM, IOUT)
for ty in TY:
    R("I04", "IPInplace", "two insertions of mixed styles, then a lookup or deletion, all lengths", ["built"], ty=ty, fam=46, probes=1, **plans(22, 12, 21))
    R("I04", "IPInplace", "the same by address", ["built"], ty=ty, fam=46, probes=0, **plans(55, 45, 25))
    R("I04", "IPInplace", "three in-place insertions, lengths 56-72", ["built"], ty=ty, lw=8, lb=56, lbl=0, same64=1, k0=3333, k1=2332, **(dict(k2=1111, k3=2222) if ty == 0 else {}), **plans(222))
    R("I04", "IPInplace", "three operations, all lengths", ["built"], "thorough", ty=ty, probes=1, k0=3333, k1=1111, k2=2332, k3=3233, same64=1, **plans(222, 232))

P("I05", ICOM + " Writes to memory reachable from any earlier version are observed by the executor; at replay they are confirmed as changed bytes or as a data race with a reader.", IOUT, ["sharing of values stored by the caller is the caller's business"])
for ty in TY:
    R("I05", "IPFrozen", "two operations, then any operation; all earlier versions frozen and compared", ["insert", "delete", "deleted"], ty=ty, fam=46, **plans(11, 13, 2))
    R("I05", "IPFrozen", "three insertions, then any operation, lengths 56-72", ["insert", "delete"], ty=ty, lw=8, lb=56, lbl=0, same64=1, k0=3333, k1=2332, **(dict(k2=1111) if ty == 0 else {}), **plans(111))
    R("I05", "IPFrozen", "two insertions, a deletion, then any operation, lengths 56-72", ["insert", "delete", "deleted"], ty=ty, lw=8, lb=56, lbl=0, same64=1, k0=3333, k1=1111, k2=2332, k3=3332, k4=3323, **plans(113))
    R("I05", "IPFrozen", "three operations, lengths in a window of 16", ["insert", "delete", "deleted"], "thorough", ty=ty, lw=16, lb=48, same64=1, k0=3333, k1=1111, k2=2332, k3=2222, k4=3322, **plans(111, 113, 131))

P("I06", ICOM, ["histories with more operations than the plans listed per run", "callbacks that use the tree while it is being updated", "three or more IPv6 networks in different /64 at once"])
R("I06", "IPUpdate", "two operations, then an update of a symbolic target, all lengths", ["visited", "nothing visited"], fam=46, **plans(11, 12))
R("I06", "IPUpdate", "three insertions, lengths 56-72", ["visited", "nothing visited"], lw=8, lb=56, lbl=0, k0=3333, k1=1111, k2=2332, k3=3233, k4=3332, k5=2222, same64=1, **plans(111))
R("I06", "IPUpdate", "three operations, lengths 56-72", ["visited", "nothing visited"], lw=8, lb=56, lbl=0, fam=6, same64=1, **plans(113))
R("I06", "IPUpdate", "three insertions, all lengths", ["visited", "nothing visited"], "thorough", k0=3333, k1=1111, k2=2332, same64=1, **plans(111))
R("I06", "IPUpdate", "three insertions, any IPv6 networks, lengths 56-72", ["visited", "nothing visited"], "thorough", lw=8, lb=56, fam=6, **plans(111))
R("I06", "IPUpdate", "four insertions, lengths 0-8 and 64-72", ["visited", "nothing visited"], "thorough", lw=8, lb=0, k0=33333, k1=11111, k2=23333, k3=33332, same64=1, **plans(1111))

P("I07", ICOM, ["addresses longer than 19 bytes", "in-place insertion into a nil *Tree (panics)"])
for ty in TY:
    R("I07", "IPMalformed", "a tree of one network, any malformed key, any operation", ["inert"], ty=ty, fam=46, **plans(1, 9))
    R("I07", "IPMalformed", "a nil tree", ["inert"], ty=ty, nil=1, **plans(9))
    R("I07", "IPAddrIsHost", "two insertions, any operation by address against its host network", ["same"], ty=ty, fam=46, **plans(11))
    R("I07", "IPAddrIsHost", "addresses only", ["same"], "thorough", ty=ty, fam=46, **plans(414, 141))
R("I07", "IPMalformedUpdate", "update with a malformed target", ["inert"], fam=46, **plans(1))

# ---------------------------------------------------------------- string and label trees
SOUT = ["histories with more symbolic operations than the plans listed per run", "comparison functions other than the five listed (plain, reversed, shorter first with results beyond -1..1, ignoring case, plain passed explicitly)", "keys longer than the listed lengths"]
SCOM = COMMON + "Keys are strings of symbolic bytes. Runs marked 'base' start from concrete trees of n keys built by ascending, descending, shuffled and mixed insert/delete histories in both styles, and apply operations with symbolic keys to them; the others are symbolic from the empty tree on. "


def maps(prop, harness, ex, ty, lbl=False):
    """Runs common to the ordered maps: all symbolic, several comparisons, base trees."""
    t = dict(tree=1) if lbl else dict(ty=ty)
    R(prop, harness, "histories of up to five operations, one-byte keys", ex, **t, **plans(11111, 1213, 11313, 2131, 1, 9))
    R(prop, harness, "base trees of 7 keys, two operations; n=7", ex, n=7, nb=12, **t, **plans(33, 13, 31))
    R(prop, harness, "base trees of 15 keys, one operation; n=15", ex, n=15, nb=16, **t, **plans(3, 1))
    R(prop, harness, "base trees of 31 keys", ex, n=31, nb=4, b0=2, **t, **plans(3))
    R(prop, harness, "six operations", ex, "thorough", **t, **plans(111111, 111131, 121313))
    R(prop, harness, "base trees of 9 keys, three operations", ex, "thorough", n=9, nb=4, b0=3, **t, **plans(333, 133))
    R(prop, harness, "base trees of 31 keys, two operations", ex, "thorough", n=31, nb=2, b0=6, **t, **plans(33))
    if lbl:
        R(prop, harness, "up to three operations, every spelling of one- and two-byte labels", ex, forms=4, klen=2, **t, **plans(11, 13))
        R(prop, harness, "three operations, every spelling of one-byte labels", ex, forms=4, **t, **plans(112, 113))
        R(prop, harness, "three operations, every spelling", ex, "thorough", forms=4, klen=2, **t, **plans(111))
        R(prop, harness, "raw labels of one to three bytes", ex, klen=3, **t, **plans(11, 13))
        return
    R(prop, harness, "keys of 0 to 2 bytes", ex, klen=2, kmin=0, **t, **plans(111, 113))
    R(prop, harness, "nil tree", ["checked"] if "checked" in ex else [], nil=1, **t, **plans(9, 1, 3, 13))
    for c in (1, 2, 3, 4):
        R(prop, harness, "custom comparison %d, keys of 0 to 2 bytes" % c, ex, cmp=c, klen=2, kmin=0, **t, **plans(11, 113))
        R(prop, harness, "custom comparison %d, five operations" % c, ex, "thorough", cmp=c, **t, **plans(11111, 11131))


P("S01", SCOM, SOUT)
P("S02", SCOM, SOUT + ["consumers that stop reading the channel"])
P("S03", SCOM + "Writes to memory reachable from any earlier version are observed by the executor; at replay they are confirmed as changed bytes or as a data race with a reader.", SOUT, ["sharing of values stored by the caller is the caller's business"])
P("S04", SCOM + "Comparisons are counted through a counting comparison function.", SOUT + ["trees larger than the base trees listed plus the operations"])
for ty in TY:
    maps("S01", "MapGet", ["hit", "miss"], ty)
    R("S01", "MapContent", "deletion, then the whole content; up to four symbolic operations before", ["deleted", "not deleted"], ty=ty, **plans(1111, 1113, 1211))
    R("S01", "MapContent", "base trees of 15 keys", ["deleted", "not deleted"], ty=ty, n=15, nb=12, **plans(9, 3))
    maps("S02", "MapEnum", ["many"], ty)
    R("S03", "MapFrozen", "two symbolic operations, then any operation, all versions frozen", ["insert", "delete", "deleted", "not deleted"], ty=ty, **plans(111, 1113, 1131, 2213))
    R("S03", "MapFrozen", "base trees of 6 keys, one operation, then any operation", ["insert", "delete", "deleted", "not deleted"], ty=ty, n=6, nb=12, **plans(3, 1))
    R("S03", "MapFrozen", "base trees of 12 keys, then any operation", ["insert", "delete"], ty=ty, n=12, nb=24, **plans(9))
    R("S03", "MapFrozen", "base trees of 5 keys, two operations, then any operation", ["insert", "delete", "deleted"], ty=ty, n=5, nb=8, **plans(33, 13))
    R("S03", "MapFrozen", "base trees of 31 keys, then any operation", ["insert", "delete"], ty=ty, n=31, nb=8, **plans(9))
    R("S04", "MapCost", "six symbolic insertions or a mix with deletions, then one lookup", ["hit", "miss"], ty=ty, cmp=4, **plans(*((111111, 212121, 11313) if ty == 0 else (112121, 11313))))
    R("S04", "MapCost", "base trees of 12 keys, two operations, then one lookup", ["hit", "miss"], ty=ty, cmp=4, n=12, nb=1, b0=7 if ty != 8 else 3, **plans(13, 33))
    R("S04", "MapCost", "base trees of 31 keys, one operation, then one lookup", ["hit", "miss"], ty=ty, cmp=4, n=31, nb=2, b0=ty // 8, **plans(1, 3))
    R("S04", "MapCost", "base trees of 60 keys, then one lookup", ["hit", "miss"], ty=ty, cmp=4, n=60, nb=16, wide=1, klen=2, **plans(9))
    R("S04", "MapCost", "seven symbolic insertions", ["hit", "miss"], "thorough", ty=ty, cmp=4, **plans(1111111))
    R("S04", "MapCost", "other comparisons", ["hit", "miss"], ty=ty, cmp=2, n=15, nb=8, klen=2, **plans(1))

P("L01", SCOM, SOUT[:1] + SOUT[2:] + ["invalid labels (the operations ignore parse errors)"])
maps("L01", "MapGet", ["hit", "miss"], 0, True)
R("L01", "MapContent", "deletion, then the whole content; up to four symbolic operations before", ["deleted", "not deleted"], tree=1, **plans(1111, 1113, 1211))
R("L01", "MapContent", "deletion by any spelling", ["deleted", "not deleted"], tree=1, forms=4, **plans(11, 2))
R("L01", "MapContent", "base trees of 15 keys", ["deleted", "not deleted"], tree=1, n=15, nb=24, **plans(9, 3))
R("L01", "MapGet", "nil tree", [], tree=1, nil=1, forms=4, **plans(9, 1, 3))
P("L02", SCOM, SOUT[:1] + SOUT[2:] + ["consumers that stop reading the channel"])
maps("L02", "MapEnum", ["many"], 0, True)
R("L02", "MapPlain", "both enumerations of up to three labels of one byte, every spelling", ["many", "one"], tree=1, forms=4, **plans(1, 11, 113))
R("L02", "MapPlain", "both enumerations of two labels of one and two bytes", ["many", "one"], tree=1, klen=2, forms=4, **plans(11))
R("L02", "MapPlain", "both enumerations of one label of up to four bytes", ["one"], tree=1, klen=4, **plans(1))
R("L02", "MapPlain", "nil tree", [], tree=1, nil=1, **plans(9))
R("L02", "MapPlain", "three labels of up to two bytes", ["many", "one"], tree=1, klen=2, forms=2, **plans(111))
P("L03", SCOM + "Writes to memory reachable from any earlier version are observed by the executor; at replay they are confirmed as changed bytes or as a data race with a reader.", SOUT[:1] + SOUT[2:], ["sharing of values stored by the caller is the caller's business"])
R("L03", "MapFrozen", "three symbolic operations, then any operation, all versions frozen", ["insert", "delete", "deleted", "not deleted"], tree=1, **plans(1111, 1113, 1131, 2213))
R("L03", "MapFrozen", "any spelling", ["insert", "delete", "deleted", "not deleted"], tree=1, forms=4, **plans(1, 13))
R("L03", "MapFrozen", "base trees of 6 keys, one operation, then any operation", ["insert", "delete", "deleted", "not deleted"], tree=1, n=6, nb=24, **plans(3, 1))
R("L03", "MapFrozen", "base trees of 12 keys, one operation, then any operation", ["insert", "delete", "deleted", "not deleted"], tree=1, n=12, nb=8, b0=4, **plans(3, 1))
R("L03", "MapFrozen", "base trees of 31 keys, then any operation", ["insert", "delete"], tree=1, n=31, nb=8, **plans(9))
R("L03", "MapFrozen", "base trees of 5 keys, two operations, then any operation", ["insert", "delete", "deleted"], tree=1, n=5, nb=12, **plans(33, 13))

P("L04", COMMON + "Depth is the longest chain of tree nodes, read off the tree's memory; label trees and the sibling sets of domain trees (generic and typed). Base trees are concrete, operations on them symbolic.", SOUT[:1] + ["trees larger than the base trees listed plus the operations"])
R("L04", "MapDepth", "histories of up to seven operations", ["checked"], tree=1, **plans(1111111, 1213, 111313, 212121))
R("L04", "MapDepth", "base trees of 12 keys, two operations", ["checked"], tree=1, n=12, nb=12, **plans(33, 13))
R("L04", "MapDepth", "base trees of 31 keys, one operation", ["checked"], tree=1, n=31, nb=24, **plans(3, 1))
R("L04", "MapDepth", "base trees of 60 keys, one operation", ["checked"], tree=1, n=60, nb=6, wide=1, klen=2, kmin=2, **plans(3, 1))
R("L04", "MapDepth", "base trees of 9 keys, three deletions", ["checked"], tree=1, n=9, nb=4, b0=2, **plans(333))
R("L04", "MapDepth", "base trees of 31 keys, two operations", ["checked"], "thorough", tree=1, n=31, nb=4, b0=2, **plans(33))
R("L04", "MapDepth", "eight operations", ["checked"], "thorough", tree=1, **plans(11111111, 11113131))
for ty in TY:
    R("L04", "DomDepth", "siblings: up to five symbolic operations", ["checked"], ty=ty, **plans(11111, 12133, 21214))
    R("L04", "DomDepth", "siblings: base sets of 12 and two operations", ["checked"], ty=ty, n=12, nb=8, **plans(33, 13))
    R("L04", "DomDepth", "siblings: base sets of 31 and one operation", ["checked"], ty=ty, n=31, nb=16, **plans(3, 1))
    R("L04", "DomDepth", "siblings: base sets of 60", ["checked"], ty=ty, n=60, nb=8, **plans(9, 4))
    R("L04", "DomDepth", "siblings: six symbolic operations", ["checked"], "thorough", ty=ty, **plans(111111, 121213))
    R("L04", "DomDepth", "siblings: base sets of 16 and three operations", ["checked"], "thorough", ty=ty, n=16, nb=4, **plans(333))

P("V01", COMMON + "The dump text is read back by the harness: node lines, edges, escapes. strconv.Quote is executed; fmt formats concrete operands itself and symbolic ones (decimal, hexadecimal, quoted) as terms, which the replays compare with the real text.", ["histories with more operations than the plans listed per run", "values of types other than nil, integers, booleans and texts", "keys longer than two bytes"])
for w in (32, 64):
    R("V01", "NumDot", "up to two operations, all keys and lengths", ["empty", "many"] if w == 32 else ["many"], w=w, **plans(*((11, 9, 1) if w == 32 else (11,))), **({} if w == 32 else dict(lw=16, lb=0)))
    R("V01", "NumDot", "three operations, lengths in a window of 4 or 5", ["many"], w=w, lw=5 if w == 32 else 4, lb=0, **plans(111, 113))
    R("V01", "NumDot", "two operations of mixed styles, all lengths", ["many"], "thorough", w=w, **plans(12, 21, 11, 13))
    R("V01", "NumDot", "three operations, lengths in a window of 8", ["many"], "thorough", w=w, lw=8, lb=12, **plans(111, 113))
for t in [dict(ty=x) for x in TY] + [dict(tree=1)]:
    R("V01", "MapDot", "up to three operations, keys of one byte", ["empty", "many"], **t, **plans(113, 12, 9))
    R("V01", "MapDot", "base trees of 15 keys, one operation", ["many"], n=15, nb=12, **t, **plans(1, 3))
    R("V01", "MapDot", "base trees of 31 keys", ["many"], n=31, nb=24, **t, **plans(9))
    R("V01", "MapDot", "base trees of 7 keys, two operations", ["many"], "thorough", n=7, nb=8, **t, **plans(13, 33))
    if t.get("ty", 1) == 0 or "tree" in t:
        R("V01", "MapDotText", "texts of 0 or 1 bytes as values", ["many"], vlen=1, **t)
        R("V01", "MapDotText", "texts of 0 to 2 bytes as values", ["many"], "thorough", vlen=2, **t)
    if "ty" in t:
        R("V01", "MapDot", "keys of 0 to 2 bytes that are not UTF-8 sequences", [], lead=1, klen=2, kmin=0, **t, **plans(1, 13))
        R("V01", "MapDot", "keys of 2 bytes from 0xc3 on (letters beyond ASCII among them)", ["many"], lead=195, klen=2, kmin=2, **t, **plans(11))

# ---------------------------------------------------------------- labels and names
DCOM = COMMON + "Texts are symbolic bytes, alone or as a window inside a concrete prefix and suffix placed so that the window straddles a limit. The oracle is an independent reader of the documented grammar in the harness. "
DOUT = ["more unconstrained bytes in one text than the windows listed"]
P("D01", DCOM, DOUT + ["an unescaped dot before the last character"])
R("D01", "LabelParse", "all texts of 0 to 6 bytes", ["accepted", "invalid escape"], win=6, any=1)
R("D01", "LabelParse", "all texts of 8 to 11 bytes", ["accepted", "invalid escape"], **{"win": 10})
R("D01", "LabelParse", "5 bytes after 57 to 64 units of mixed spelling", ["accepted", "invalid escape", "too long"], win=5, pre=57, prex=7, prek=6)
R("D01", "LabelParse", "5 bytes after 57 to 64 plain letters", ["accepted", "invalid escape", "too long"], win=5, pre=57, prex=7, prek=1)
R("D01", "LabelParse", "5 bytes after 57 to 64 numeric escapes", ["accepted", "invalid escape", "too long"], win=5, pre=57, prex=7, prek=3)
R("D01", "LabelParse", "5 bytes before 57 to 64 units of mixed spelling", ["accepted", "invalid escape", "too long"], win=5, suf=57, sufx=7, sufk=6)
R("D01", "LabelParse", "5 bytes between mixed units", ["accepted", "invalid escape", "too long"], win=5, pre=30, prek=6, prex=1, suf=27, sufx=6, sufk=6)
R("D01", "LabelParse", "4 bytes after 120 and before 100 mixed units", ["too long"], win=4, pre=120, prek=6, suf=100, sufk=6)
R("D01", "LabelParse", "12 bytes", ["accepted", "invalid escape"], "thorough", win=12)
R("D01", "LabelParse", "8 bytes after 55 to 64 units of mixed spelling", ["accepted", "invalid escape", "too long"], "thorough", win=8, pre=55, prex=9, prek=6)
P("D02", DCOM + "Labels are symbolic in every byte; in the long ones each byte is confined to a class (upper-case, to be escaped by a backslash, to be escaped by digits, other) except for a window of any bytes.", ["long labels with more than one change of byte class outside the window"])
R("D02", "LabelHuman", "all labels of 0 to 7 bytes", ["round trip"], c0=5000, nx=7)
for k in (1, 2, 3, 4):
    R("D02", "LabelHuman", "58 to 66 bytes of class %d" % k, ["round trip", "over-long"], **{"c0": k * 1000 + 58, "nx": 8})
    R("D02", "LabelHuman", "60 bytes of class %d, then up to five of any" % k, ["round trip", "over-long"], **{"c0": k * 1000 + 60, "c1": 5001, "nx": 4})
    R("D02", "LabelHuman", "three of any, then 56 to 61 bytes of class %d" % k, ["round trip", "over-long"], **{"c0": 5003, "c1": k * 1000 + 56, "nx": 5})
    R("D02", "LabelHuman", "62 bytes ending at the buffer's end: class 3 then class %d, then up to six of any" % k, ["over-long"], **{"c0": 3061, "c1": k * 1000 + 2, "c2": 5001, "nx": 5})
R("D02", "LabelHuman", "245 to 256 bytes of class 4 and some of any", ["over-long"], c0=4246, c1=5001, nx=6)
R("D02", "LabelHuman", "245 to 256 bytes of class 1 and some of any", ["over-long"], c0=1248, c1=5001, nx=5)
R("D02", "LabelHuman", "125 bytes of class 2 and some of any", ["over-long"], c0=2123, c1=5001, nx=5)
R("D02", "LabelHuman", "alternating classes", ["round trip", "over-long"], c0=3010, c1=1010, c2=2010, c3=4010, c4=3020, c5=5001, nx=4)
R("D02", "LabelHuman", "350 bytes", ["over-long"], c0=3100, c1=1100, c2=4149, c3=5001)
R("D02", "LabelHuman", "all labels of 9 bytes", ["round trip"], "thorough", c0=5009)
R("D02", "LabelHuman", "any six bytes around 57 of class 3", ["round trip", "over-long"], "thorough", c0=5003, c1=3057, c2=5001, nx=4)
P("D03", DCOM, DOUT)
R("D03", "NameParse", "all texts of 0 to 7 bytes", ["accepted", "empty label", "only invalid escape", "root"], win=7, any=1)
R("D03", "NameParse", "all texts of 9 bytes", ["accepted", "empty label", "only invalid escape"], win=9)
R("D03", "NameParse", "5 bytes after 122 to 128 labels", ["accepted", "empty label", "name too long", "several rules", "only invalid escape"], win=5, pre=122, prex=6, prek=4)
R("D03", "NameParse", "5 bytes before 122 to 128 labels", ["accepted", "several rules"], win=5, suf=122, sufx=6, sufk=7)
R("D03", "NameParse", "5 bytes after 57 to 64 letters", ["accepted", "label too long"], win=5, pre=57, prex=7)
R("D03", "NameParse", "5 bytes after 57 to 64 mixed units", ["accepted", "label too long"], win=5, pre=57, prex=7, prek=6)
R("D03", "NameParse", "5 bytes after two full labels and 56 letters, 0 to 7 mixed units behind", ["accepted", "label too long"], win=5, pre=2, prek=5, head=56, sufk=6, sufx=7)
R("D03", "NameParse", "5 bytes after three full labels, 53 to 62 units behind", ["accepted", "name too long"], win=5, pre=3, prek=5, suf=53, sufx=9)
R("D03", "NameParse", "5 bytes between labels, 110 to 126 in all", ["accepted", "name too long"], win=5, pre=60, prex=1, prek=4, suf=60, sufx=6, sufk=7)
R("D03", "NameParse", "5 bytes between 40 mixed units and labels, total around the limit", ["accepted", "name too long"], win=5, pre=40, prek=6, suf=100, sufx=6, sufk=7)
R("D03", "NameParse", "4 bytes after 700 characters of escapes", ["several rules"], win=4, pre=250, prek=3)
R("D03", "NameParse", "10 bytes", ["accepted", "empty label"], "thorough", win=10)
R("D03", "NameParse", "8 bytes after 118 to 128 labels", ["accepted", "empty label", "name too long"], "thorough", win=8, pre=118, prex=10, prek=4)
R("D03", "NameParse", "8 bytes after three full labels, 50 to 62 units behind", ["accepted", "name too long"], "thorough", win=8, pre=3, prek=5, suf=50, sufx=12)
P("D04", DCOM, DOUT + ["more labels or bytes than the runs list"])
R("D04", "NameSpell", "up to two labels of one or two bytes in every pair of spellings", ["same", "different"], labels=2, size=2)
R("D04", "NameSpell", "up to three labels of one byte", ["same", "different"], labels=3, size=1)
R("D04", "NameSpell", "a label of 61 to 63 bytes", ["same", "different"], labels=1, size=3, stem=60)
R("D04", "NameDiffer", "texts of 0 to 5 and 3 bytes", ["same", "different"], win=5, any=1, win2=3)
R("D04", "NameDiffer", "texts of 5 and 5 bytes", ["same", "different"], win=5, win2=5)
R("D04", "NameDiffer", "texts of 6 and 2 bytes", ["same", "different"], win=6, win2=2)
R("D04", "NameSpell", "up to four labels of one byte", ["same", "different"], "thorough", labels=4, size=1)
R("D04", "NameDiffer", "texts of 7 and 4 bytes", ["same", "different"], "thorough", win=7, win2=4)
P("D05", DCOM, DOUT)
R("D05", "NameWalk", "all texts of 0 to 6 bytes, every offset, every stop", ["no label", "stopped", "outside", "inside"], win=6, any=1)
R("D05", "NameWalk", "all texts of 8 bytes", ["stopped", "outside", "inside"], win=8)
R("D05", "NameWalk", "4 bytes after two full labels and 57 letters, offsets outside the name", ["stopped", "outside"], win=4, pre=2, prek=5, head=57, sufk=1, sufx=3, out=1)
R("D05", "NameWalk", "2 bytes after two full labels and 57 letters", ["stopped", "outside", "inside"], win=2, pre=2, prek=5, head=57, sufk=1)
R("D05", "NameWalk", "3 bytes after 20 labels and before some, offsets outside the name", ["stopped", "outside"], win=3, pre=20, prek=4, sufk=7, sufx=2, out=1)
R("D05", "NameWalk", "2 bytes after 4 labels and before some", ["stopped", "outside", "inside"], win=2, pre=4, prek=4, sufk=7, sufx=2)
R("D05", "NameWalk", "one byte after 124 to 126 labels, offsets outside the name", ["stopped", "outside"], win=1, pre=124, prex=2, prek=4, out=1)
R("D05", "NameWalk", "3 bytes after three full labels, 56 to 61 units behind, offsets outside the name", ["stopped", "outside"], win=3, pre=3, prek=5, suf=56, sufx=5, out=1)
R("D05", "NameWalk", "all texts of 10 bytes", ["stopped", "outside", "inside"], "thorough", win=10)
P("D06", DCOM + "reflect.ValueOf, Value.Elem, Field, String, Type and Kind are modelled.", DOUT + ["values wrapped in more than a pointer or a struct field", "invalid domain strings and other types (documented to panic)"])
R("D06", "NameReflect", "all texts of 0 to 6 bytes, eight ways to wrap", ["labels", "root"], win=6, any=1)
R("D06", "NameReflect", "4 bytes after 60 labels", ["labels"], win=4, pre=60, prek=4, sufk=7, sufx=3)
R("D06", "NameReflect", "4 bytes after two full labels", ["labels"], win=4, pre=2, prek=5, head=57, sufx=3)
R("D06", "NameReflect", "all texts of 8 bytes", ["labels"], win=8)
R("D06", "NameReflect", "all texts of 10 bytes", ["labels"], "thorough", win=10)

# ---------------------------------------------------------------- domain trees
TCOM = COMMON + "Names have symbolic labels (their number is enumerated, their bytes are symbolic), parsed by the real parser; deep runs put them below a concrete stem up to the 127-label limit; base runs start from concrete trees. The model keeps canonical labels. "
TOUT = ["histories with more operations than the plans listed per run", "names with more symbolic labels, or longer ones, than listed"]
P("T01", TCOM, TOUT)
P("T02", TCOM, TOUT)
P("T03", TCOM, TOUT)
P("T04", TCOM, TOUT + ["consumers that stop reading the channel"])
P("T05", TCOM + "Writes to memory reachable from any earlier version are observed by the executor; at replay they are confirmed as changed bytes or as a data race with a reader.", TOUT, ["sharing of values stored by the caller is the caller's business"])
P("T06", TCOM, TOUT + ["in-place insertion into a nil *Node (panics)"])
for ty in TY:
    g = "" if ty == 0 else "thorough"
    R("T01", "DomGet", "up to three operations, names of 0 to 2 labels, lookup of 0 to 3", ["hit", "miss", "root"], ty=ty, **plans(111, 112, 113, 114, 12, 9))
    R("T01", "DomGet", "two operations, names of 0 to 3 labels", ["hit", "miss", "root"], ty=ty, dmax=3, **plans(11, 14, 13))
    R("T01", "DomGet", "two operations, every spelling of one-byte labels, optional trailing dot", ["hit", "miss", "root"], ty=ty, forms=3, dot=1, dmax=1, qmax=2, **plans(11))
    R("T01", "DomGet", "one operation, labels of one and two bytes", ["hit", "miss"], ty=ty, forms=2, klen=2, **plans(1))
    R("T01", "DomGet", "base trees of 9 names, one operation", ["hit", "miss"], ty=ty, n=9, nb=8, dmax=3, **plans(9, 3, 4))
    R("T01", "DomGet", "names of 125 to 127 labels", ["hit", "miss"], ty=ty, deep=127, **plans(11, 13))
    R("T01", "DomGet", "nil tree", [], ty=ty, nil=1, **plans(9, 1, 3, 4))
    R("T01", "DomGet", "four insertions", ["hit", "miss", "root"], "thorough", ty=ty, **plans(1111, 1131, 1141))
    for p, sub in (("T02", 0), ("T03", 1)):
        R(p, "DomDelete", "up to three operations, names of 0 to 2 labels", ["deleted", "not deleted"], ty=ty, sub=sub, **plans(111, 13, 12, 14, 9))
        R(p, "DomDelete", "two operations, names of 0 to 3 labels, then a lookup", ["deleted", "not deleted"], ty=ty, sub=sub, dmax=3, **plans(11))
        R(p, "DomDelete", "two operations, every spelling", ["deleted", "not deleted"], ty=ty, sub=sub, forms=3, dmax=1, **plans(11))
        R(p, "DomDelete", "twice, then an insertion", ["deleted", "not deleted"], ty=ty, sub=sub, again=1, **plans(1, 12))
        R(p, "DomDelete", "then a lookup", ["deleted", "not deleted"], ty=ty, sub=sub, probe=1, **plans(11))
        R(p, "DomDelete", "base trees of 9 names, one operation", ["deleted", "not deleted"], ty=ty, sub=sub, n=9, nb=6 if ty == 0 else 3, b0=ty // 8, dmax=3, **plans(9, 3, 4))
        R(p, "DomDelete", "names of 125 to 127 labels", ["deleted", "not deleted"], ty=ty, sub=sub, deep=127, **plans(11, 1))
        R(p, "DomDelete", "nil tree", [], ty=ty, sub=sub, nil=1, **plans(9, 1))
        R(p, "DomDelete", "three insertions, names of 0 to 3 labels", ["deleted", "not deleted"], "thorough", ty=ty, sub=sub, dmax=3, **plans(111))
        R(p, "DomDelete", "base trees of 12 names, two operations", ["deleted", "not deleted"], "thorough", ty=ty, sub=sub, n=12, nb=8, dmax=3, **plans(34, 43))
    R("T04", "DomEnum", "up to three operations, names of 0 to 2 labels, enumerated twice", ["empty", "one", "many"], ty=ty, twice=1, **plans(111, 113, 114, 122, 9))
    R("T04", "DomEnum", "two labels of one and two bytes, any bytes", ["one", "many"], ty=ty, forms=3, dmax=1, klen=2, **plans(11))
    R("T04", "DomEnum", "names of 0 to 2 labels of any bytes", ["one", "many"], ty=ty, **(dict(forms=3) if ty == 0 else dict(forms=2)), **plans(*((11, 12) if ty == 0 else (11,))))
    R("T04", "DomEnum", "base trees of 9 names, one operation", ["many"], ty=ty, n=9, nb=12, dmax=3, **plans(9, 1, 3, 4))
    R("T04", "DomEnum", "names of 125 to 127 labels", ["many", "one"], ty=ty, deep=127, **plans(11))
    R("T04", "DomEnum", "nil tree", [], ty=ty, nil=1, **plans(9))
    R("T04", "DomEnum", "four insertions", ["many"], g, ty=ty, **plans(1111))
    R("T04", "DomEnum", "three insertions, any bytes", ["many"], "thorough", ty=ty, forms=3, dmax=1, **plans(111))
    R("T05", "DomFrozen", "two symbolic operations, then any operation, all versions frozen", ["insert", "deleted", "deleted with subdomains"], ty=ty, **plans(11, 13, 14, 2))
    R("T05", "DomFrozen", "three insertions of names of up to one label, then any", ["insert", "deleted", "deleted with subdomains"], ty=ty, dmax=1, **plans(111, 113))
    R("T05", "DomFrozen", "base trees of 8 names, then any operation", ["insert", "deleted", "deleted with subdomains"], ty=ty, n=8, nb=12, dmax=3, **plans(9))
    R("T05", "DomFrozen", "base trees of 6 names, one operation, then any operation", ["insert", "deleted", "deleted with subdomains"], ty=ty, n=6, nb=3, **plans(1, 3, 4))
    R("T05", "DomFrozen", "names of 126 and 127 labels", ["insert", "deleted"], ty=ty, deep=127, dmax=1, **plans(11))
    R("T05", "DomFrozen", "three operations", ["insert", "deleted", "deleted with subdomains"], "thorough", ty=ty, **plans(111, 113, 114))
    R("T06", "DomInplace", "up to three operations of mixed styles, then any query", ["built"], ty=ty, **plans(*((22, 12, 21, 24, 23, 132, 142) if ty == 0 else (22, 12, 132, 14))))
    R("T06", "DomInplace", "three insertions of mixed styles, then a lookup", ["built"], ty=ty, probes=1, **plans(*((222, 122, 212) if ty == 0 else (212,))))
    R("T06", "DomInplace", "any spelling", ["built"], ty=ty, forms=2, dmax=1, **plans(22, 12))
    R("T06", "DomInplace", "names of 125 to 127 labels", ["built"], ty=ty, deep=127, probes=2, **(dict(dmax=1) if ty else {}), **plans(12, 22))
    R("T06", "DomInplace", "names of 0 to 3 labels", ["built"], ty=ty, dmax=3, probes=1, **plans(22, 12))
    R("T06", "DomInplace", "four insertions of mixed styles, up to one label", ["built"], ty=ty, dmax=1, **plans(1212, 2222, 1232))
    R("T06", "DomInplace", "three insertions of mixed styles, then any query", ["built"], "thorough", ty=ty, **plans(222, 122, 212))

# ---------------------------------------------------------------- typed against generic
P("X01", COMMON + "Both trees get the same symbolic operations and the same symbolic values, which range over the whole type.", ["histories with more operations than the plans listed per run"])
for ty in TY[1:]:
    R("X01", "DiffIP", "two operations, both families, all lengths", ["hit", "miss", "enumerated"], ty=ty, full=1, fam=46, **plans(11, 12, 13, 9))
    R("X01", "DiffIP", "by address", ["hit", "miss", "enumerated"], ty=ty, full=1, fam=46, **plans(45, 16))
    R("X01", "DiffIP", "three operations, lengths 56-72", ["hit", "miss", "enumerated"], ty=ty, full=1, k0=3333, k1=1111, k2=2332, k3=3332, same64=1, lw=8, lb=56, lbl=0, **plans(111, 131))
    R("X01", "DiffMap", "histories of up to four operations", ["hit", "miss", "enumerated"], ty=ty, full=1, **plans(1111, 1213, 1313, 2131, 9))
    R("X01", "DiffMap", "custom comparison", ["hit", "miss", "enumerated"], ty=ty, full=1, cmp=3, klen=2, **plans(11, 113))
    R("X01", "DiffMap", "base trees", ["hit", "miss", "enumerated"], ty=ty, full=1, n=13, **plans(13, 31, 33))
    R("X01", "DiffDom", "histories of up to three operations", ["hit", "miss", "enumerated"], ty=ty, full=1, **plans(111, 113, 124, 213, 14, 9))
    R("X01", "DiffDom", "any spelling", ["hit", "miss", "enumerated"], ty=ty, full=1, forms=3, dmax=1, **plans(11, 13))
    R("X01", "DiffIP", "three operations, any kinds", ["hit", "miss", "enumerated"], "thorough", ty=ty, full=1, fam=46, lw=8, lb=0, **plans(111, 131))
    R("X01", "DiffDom", "four operations", ["hit", "miss", "enumerated"], "thorough", ty=ty, full=1, **plans(1113, 1114))

# ---------------------------------------------------------------- template tool
ECOM = COMMON + "The files of /repo/etc are compiled, unchanged but for their package clause, as an importable package. path/filepath, path and strings are executed as they are. "
P("E01", ECOM, ["paths with more or longer symbolic parts than listed", "path separators other than / (Windows)", "templates given by a relative path (made absolute by the working directory)", "the template's directory itself"], package="./he")
R("E01", "EtcSplit", "all paths of 0 to 8 bytes", ["rooted", "relative"], pwin=8, any=1)
R("E01", "EtcSplit", "3 bytes after 7 to 12 components and before 3", ["more than ten"], phead=7, pheadx=5, pwin=3, any=1, ptail=3)
R("E01", "EtcSplit", "4 bytes after 17 to 22 components", ["more than ten"], phead=17, pheadx=5, pabs=1, pwin=4, any=1)
R("E01", "EtcSplit", "relative: 4 bytes before 6 components", ["relative"], pwin=4, any=1, ptail=6)
R("E01", "EtcSplit", "relative: 4 bytes before 8 components", ["relative", "more than ten"], pwin=5, any=1, ptail=8)
R("E01", "EtcSplit", "relative: 4 bytes before 18 components", ["more than ten"], pwin=5, any=1, ptail=18)
R("E01", "EtcRel", "a template and a name of 1 to 5 bytes, rooted", ["under", "elsewhere"], tabs=1, twin=4, pabs=1, pwin=4, any=1)
R("E01", "EtcRel", "a rooted template and any name of up to 5 bytes", ["under", "elsewhere"], tabs=1, twin=3, pwin=5, any=1)
R("E01", "EtcRel", "below two common components", ["under", "elsewhere"], tabs=1, twin=3, thead=2, phead=2, pabs=1, pwin=4, any=1)
R("E01", "EtcRel", "below 8 to 11 common components", ["under", "elsewhere"], tabs=1, twin=3, thead=9, theadx=2, phead=9, pheadx=2, pabs=1, pwin=3, any=1)
R("E01", "EtcSplit", "all paths of 0 to 11 bytes", ["rooted", "relative"], "thorough", pwin=11, any=1)
R("E01", "EtcRel", "a template and a name of 1 to 6 bytes, rooted", ["under", "elsewhere"], "thorough", tabs=1, twin=5, pabs=1, pwin=5, any=1)
P("E02", ECOM + "Map lookups are decided over symbolic keys; the oracle follows the path by itself.", ["paths that end in a dot", "data deeper or wider than listed", "reading the YAML file (an exit of the process on failure)"], package="./he")
R("E02", "EtcSel", "a map of up to six entries, two levels below, two symbolic keys; all paths of 0 to 7 bytes below up to two components", ["everything", "error", "found"], win=7, any=1)
R("E02", "EtcSel", "keys of two bytes, paths of up to 7 bytes", ["everything", "error", "found"], win=7, any=1, key=2)
R("E02", "EtcSel", "keys of three bytes, paths of up to 12 bytes", ["everything", "error", "found"], win=12, any=1, key=3)
R("E02", "EtcSelPlain", "chains of six maps, all keys symbolic, one component more or not", ["error", "found"], depth=6)
R("E02", "EtcSelPlain", "chains of four maps with another entry", ["error", "found"], depth=4, extra=1)
R("E02", "EtcSel", "paths of 0 to 20 bytes, keys of four", ["everything", "error", "found"], "thorough", win=20, any=1, key=4)
R("E02", "EtcSelPlain", "chains of eight maps", ["error", "found"], "thorough", depth=8)
R("E02", "EtcSelPlain", "chains of five maps with another entry", ["error", "found"], "thorough", depth=5, extra=1)

# ---------------------------------------------------------------- further shapes of histories
# lookups in the middle (7; 8 by address), equal values, values that cannot be compared, deep concrete trees, long keys
for w in (32, 64):
    R("N01", "NumMatch", "lookups between two changes, then one more", ["hit", "miss"], w=w, **plans(171, 172, 173, 1727))
    R("N01", "NumMatch", "three insertions of equal values", ["hit", "miss"], w=w, vsame=1, **plans(111, 12))
    R("N01", "NumMatch", "values that cannot be compared", ["hit", "miss"], w=w, vref=1, **plans(11, 12, 13))
    R("N01", "NumMatch", "deep concrete trees: chains over all lengths, siblings, mixtures", ["hit", "miss"], w=w, base=123456, **plans(9))
    R("N01", "NumMatch", "concrete tree of all 4-bit prefixes, one operation", ["hit", "miss"], w=w, base=5, **plans(1, 2, 3))
    R("N01", "NumMatch", "deep concrete trees, one operation", ["hit", "miss"], "thorough", w=w, base=146, **plans(1, 2, 3))
    R("N02", "NumExact", "lookups between two changes, then one more", ["hit", "miss"], w=w, **plans(171, 172, 173))
    R("N02", "NumExact", "three insertions of equal values", ["hit", "miss"], w=w, vsame=1, **plans(111, 12))
    R("N02", "NumExact", "values that cannot be compared", ["hit", "miss"], w=w, vref=1, **plans(11, 12, 13))
    R("N02", "NumExact", "deep concrete trees: chains over all lengths, siblings, mixtures", ["hit", "miss"], w=w, base=123456, **plans(9))
    R("N02", "NumExact", "concrete tree of all 4-bit prefixes, one operation", ["hit", "miss"], w=w, base=5, **plans(1, 2, 3))
    R("N02", "NumExact", "deep concrete trees, one operation", ["hit", "miss"], "thorough", w=w, base=146, **plans(1, 2, 3))
    R("N03", "NumDelete", "lookups between changes", ["deleted", "not deleted"], w=w, probe=1, **plans(171))
    R("N03", "NumDelete", "equal values", ["deleted", "not deleted"], w=w, vsame=1, **plans(11, 12))
    R("N03", "NumDelete", "values that cannot be compared", ["deleted", "not deleted"], w=w, vref=1, **plans(11, 12))
    R("N03", "NumDelete", "deep concrete trees", ["deleted", "not deleted"], w=w, base=123456, **plans(9))
    R("N03", "NumDelete", "concrete tree of all 4-bit prefixes, one operation", ["deleted", "not deleted"], w=w, base=5, **plans(1, 3))
    R("N03", "NumDelete", "deep concrete trees, one operation", ["deleted", "not deleted"], "thorough", w=w, base=146, **plans(1, 3))
    R("N04", "NumInplace", "lookups between changes", ["built"], w=w, **plans(272, 171))
    R("N04", "NumInplace", "equal values", ["built"], w=w, vsame=1, **plans(22, 12))
    R("N04", "NumInplace", "values that cannot be compared", ["built"], w=w, vref=1, **plans(22, 12))
    R("N04", "NumInplace", "concrete tree of all 4-bit prefixes, one in-place insertion", ["built"], w=w, base=5, **plans(2))
    R("N04", "NumInplace", "deep concrete trees", ["built"], w=w, base=123456, **plans(9))
    R("N04", "NumInplace", "deep concrete trees, one in-place insertion", ["built"], "thorough", w=w, base=146, **plans(2))
    R("N05", "NumEnum", "equal values", ["one", "many"], w=w, vsame=1, **plans(111, 121))
    R("N05", "NumEnum", "values that cannot be compared", ["one", "many"], w=w, vref=1, **plans(11, 12))
    R("N05", "NumEnum", "deep concrete trees, up to one operation", ["many"], w=w, base=123456, **plans(9))
    R("N05", "NumEnum", "a chain of all lengths, siblings, one operation", ["many"], w=w, base=15, **plans(1, 3))
    R("N05", "NumEnum", "deep concrete trees, one operation", ["many"], "thorough", w=w, base=346, **plans(1, 3))
    R("N06", "NumFrozen", "values that cannot be compared", ["insert", "delete"], w=w, vref=1, **plans(11))
    R("N06", "NumFrozen", "equal values", ["insert", "delete"], w=w, vsame=1, **plans(11))
    R("N06", "NumFrozen", "concrete tree of all 4-bit prefixes, then any operation", ["insert", "delete"], w=w, base=5, **plans(9))
    R("N06", "NumFrozen", "deep concrete trees, then any operation", ["insert", "delete"], "thorough", w=w, base=146, **plans(9))
for ty in TY:
    ex = dict(I01=["hit", "miss"], I02=["deleted", "not deleted"], I03=["many"], I04=["built"], I05=["insert", "delete"])
    for p, h in (("I01", "IPGet"), ("I02", "IPDelete"), ("I03", "IPEnum"), ("I04", "IPInplace"), ("I05", "IPFrozen")):
        R(p, h, "two equal values" if p != "I03" else "three equal values, lengths 56-72 (IPv4 24-32)", ex[p], ty=ty, vsame=1,
          **(dict(fam=46) if p != "I03" else dict(k0=333, k1=111, k2=233, same64=1, lw=8, lb=56, lbl=0)), **plans(*((22, 12) if p == "I04" else (111,) if p == "I03" else (11,))))
        if ty == 0:
            R(p, h, "values that cannot be compared", ex[p], vref=1, fam=46, **plans(*((22, 12) if p == "I04" else (11,))))
        R(p, h, "deep concrete trees of both families", ex[p], ty=ty, base=1234, **plans(9))
    R("I01", "IPGet", "a lookup between two insertions, IPv4 or one /64", ["hit", "miss"], ty=ty, k0=1111, k1=3333, same64=1, **plans(171, 172))
    R("I01", "IPGet", "a lookup by address between", ["hit", "miss"], ty=ty, k0=1111, k1=3333, same64=1, addr=1, **plans(182, 181, 183))
    R("I04", "IPInplace", "a lookup between two insertions, IPv4 or one /64", ["built"], ty=ty, k0=1111, k1=3333, same64=1, **plans(272))
for t, ps in [(dict(ty=x), ("S01", "S02", "S03")) for x in TY] + [(dict(tree=1), ("L01", "L02", "L03"))]:
    lb = "tree" in t
    R(ps[0], "MapGet", "lookups between changes", ["hit", "miss"], **t, **plans(1717, 2727, 17371))
    R(ps[0], "MapGet", "keys of 0 to 3 bytes with a common beginning of 7", ["hit", "miss"], stem=7, klen=3, kmin=0, **t, **plans(11, 113))
    R(ps[0], "MapGet", "keys with a common beginning of %d bytes and a common end of 4" % (57 if lb else 62), ["hit", "miss"], stem=57 if lb else 62, tail=4, klen=2, kmin=0, **t, **plans(11, 113))
    R(ps[0], "MapGet", "keys with a common beginning of 30 bytes and a common end of 31", ["hit", "miss"], stem=30, tail=31, klen=2, kmin=0, **t, **plans(11, 12, 13))
    R(ps[1], "MapEnum", "keys with a common beginning of 30 bytes and a common end of 31", ["many"], stem=30, tail=31, klen=2, kmin=0, **t, **plans(11, 12, 13))
    if "tree" not in t:
        R(ps[0], "MapGet", "keys with a common beginning of 300 bytes and a common end of 300", ["hit", "miss"], stem=300, tail=300, klen=1, kmin=0, **t, **plans(11, 12, 13))
    R(ps[1], "MapEnum", "keys of 0 to 3 bytes with a common beginning of 7", ["many"], stem=7, klen=3, kmin=0, **t, **plans(11, 113))
    R(ps[1], "MapEnum", "keys with a common beginning of %d bytes and a common end of 4" % (57 if lb else 62), ["many"], stem=57 if lb else 62, tail=4, klen=2, kmin=0, **t, **plans(11, 111))
    for p, h, e in ((ps[0], "MapContent", ["deleted", "not deleted"]), (ps[0], "MapGet", ["hit", "miss"]), (ps[1], "MapEnum", ["many"]), (ps[2], "MapFrozen", ["insert", "delete"])):
        R(p, h, "equal values", e, vsame=1, **t, **plans(111, 121) if p != ps[2] else plans(11))
        if t.get("ty", 0) == 0:
            R(p, h, "values that cannot be compared", e, vref=1, **t, **plans(111, 12) if p != ps[2] else plans(11))
    if lb:
        R(ps[0], "MapGet", "every spelling after a common beginning of 57 bytes", ["hit", "miss"], stem=57, tail=4, forms=4, **t, **plans(11, 13))
        R(ps[1], "MapPlain", "labels with a common beginning of 30 bytes and a common end of 30, every spelling", ["many", "one"], stem=30, tail=30, forms=4, **t, **plans(11))
for ty in TY:
    R("T01", "DomGet", "a lookup between two changes", ["hit", "miss"], ty=ty, dmax=2 if ty == 0 else 1, **plans(171, 172, 173, 174))
    R("T01", "DomGet", "labels with a common beginning of 7 or 62 bytes", ["hit", "miss"], ty=ty, stem=7, klen=2, kmin=0 if ty == 0 else 1, **plans(11))
    R("T01", "DomGet", "labels with a common beginning of 62 bytes", ["hit", "miss"], ty=ty, stem=62, **plans(11, 13, 14))
    R("T01", "DomGet", "labels with a common beginning of 30 bytes and a common end of 31", ["hit", "miss"], ty=ty, stem=30, tail=31, klen=2, kmin=0, dmax=1, **plans(11, 13, 14))
    R("T01", "DomGet", "equal values", ["hit", "miss"], ty=ty, vsame=1, **plans(11, 12, 13, 14))
    for p, sub in (("T02", 0), ("T03", 1)):
        R(p, "DomDelete", "equal values, one operation more", ["deleted", "not deleted"], ty=ty, sub=sub, vsame=1, **plans(111))
        R(p, "DomDelete", "labels with a common beginning of 62 bytes", ["deleted", "not deleted"], ty=ty, sub=sub, stem=62, **plans(11, 13))
        if ty == 0:
            R(p, "DomDelete", "values that cannot be compared", ["deleted", "not deleted"], sub=sub, vref=1, **plans(11, 12))
    R("T04", "DomEnum", "labels with a common beginning of 30 bytes and a common end of 31", ["many"], ty=ty, stem=30, tail=31, klen=2, kmin=0, dmax=1, **plans(11, 13))
    R("T04", "DomEnum", "labels with a common beginning of 62 bytes", ["many"], ty=ty, stem=62, **plans(11, 13))
    R("T05", "DomFrozen", "equal values", ["insert", "deleted"], ty=ty, vsame=1, **plans(11))
    R("T06", "DomInplace", "equal values", ["built"], ty=ty, vsame=1, **plans(22, 12))
    R("T06", "DomInplace", "a lookup between two insertions", ["built"], ty=ty, dmax=1, **plans(272, 171))
    R("T06", "DomInplace", "labels with a common beginning of 62 bytes", ["built"], ty=ty, stem=62, dmax=1, **plans(22, 12))
    if ty == 0:
        R("T01", "DomGet", "values that cannot be compared", ["hit", "miss"], vref=1, **plans(11, 12, 13, 14))
        R("T04", "DomEnum", "values that cannot be compared", ["many"], vref=1, **plans(11, 12))
        R("T05", "DomFrozen", "values that cannot be compared", ["insert", "deleted"], vref=1, **plans(11))
        R("T06", "DomInplace", "values that cannot be compared", ["built"], vref=1, **plans(22, 12))

# ---------------------------------------------------------------- who owns which bytes
P("I08", ICOM + " Arguments are slices with room behind them; every byte is compared after the operation and then overwritten.", IOUT)
for ty in TY:
    R("I08", "IPArgs", "two changes, then a lookup; arguments overwritten after every operation", ["done"], ty=ty, fam=46, **plans(11, 12, 13))
    R("I08", "IPArgs", "addresses, lookups in between", ["done"], ty=ty, fam=46, **plans(47, 48, 58, 6, 16))
    R("I08", "IPArgs", "three insertions into one /64 (IPv4 too), lengths 56-72", ["done"], ty=ty, k0=3333, k1=3333, same64=1, lw=8, lb=56, lbl=0, **plans(111, 121))
    R("I08", "IPKeys", "two networks; keys overwritten at once or at the end", ["done"], ty=ty, fam=46, **plans(11, 12))
    R("I08", "IPKeys", "three networks, lengths %s" % ("56-72" if ty == 0 else "62-66"), ["done"], ty=ty, k0=333, k1=111, k2=233, same64=1, lw=8 if ty == 0 else 2, lb=56 if ty == 0 else 62, lbl=0, **plans(111))
    R("I08", "IPKeys", "deep concrete trees of both families", ["done"], *([] if ty in (0, 64) else ["thorough"]), ty=ty, base=2 if ty else 1234, **plans(9))
    R("I08", "IPArgs", "four operations, lengths 56-72", ["done"], "thorough", ty=ty, k0=3333, k1=1111, k2=3332, k3=2333, same64=1, lw=8, lb=56, lbl=0, **plans(1121, 1172))
R("I08", "IPUpdateKeys", "two networks; the keys given to the callback overwritten", ["done", "visited"], fam=46, **plans(11))
R("I08", "IPUpdateKeys", "three networks, lengths 56-72", ["done", "visited"], k0=333, k1=111, k2=233, same64=1, lw=8, lb=56, lbl=0, **plans(111))

P("C01", COMMON + "While the operations run, everything reachable from the shared tree, from the arguments and from all package-level variables of the repository is read-only to the executor; any write is a violation. At replay two goroutines run the operation under the race detector.",
  ["writes under a lock or by sync/atomic (the executor would report them; a replay without a race then gives no answer)", "histories with more operations than the plans listed per run", "modification in place of a tree that others use (not supported by the packages)"])
for w in (32, 64):
    R("C01", "NumConc", "histories of up to two operations, then any operation", ["done"], w=w, **plans(11, 13, 2, 9))
    R("C01", "NumConc", "dumps", ["done"], w=w, dot=1, lw=2, lb=7, **plans(11))
    R("C01", "NumConc", "a chain of all lengths, any operation", ["done"], w=w, base=1, **plans(9))
    R("C01", "NumDuring", "two insertions, an enumeration in progress, another operation", ["done"], w=w, after=2, **plans(11))
    R("C01", "NumConc", "histories of three operations, then any operation", ["done"], "thorough", w=w, **plans(111, 131))
    R("C01", "NumDuring", "three insertions", ["done"], "thorough", w=w, after=4, lw=8, lb=0, **plans(111))
for ty in TY:
    R("C01", "IPConc", "two operations, then any operation", ["done"], ty=ty, fam=46, **plans(*((11, 9) if ty == 0 else (1, 9))))
    R("C01", "IPConc", "two insertions into one /64, then any operation", ["done"], ty=ty, k0=333, k1=333, k2=333, same64=1, lw=8, lb=56, lbl=0, **plans(11))
    R("C01", "IPDuring", "one or two networks, an enumeration in progress, another operation", ["done"], ty=ty, k0=111, k1=333, k2=332, same64=1, lw=8, lb=56, lbl=0, after=2, **plans(1, 11))
    R("C01", "MapConc", "histories of up to three operations, then any operation", ["done"], ty=ty, dot=1, **plans(111, 13, 9))
    R("C01", "MapDuring", "three insertions, an enumeration in progress, another operation", ["done"], ty=ty, **plans(11, 111))
    R("C01", "DomConc", "histories of up to two operations, then any operation", ["done"], ty=ty, **plans(11, 14, 9))
    R("C01", "DomDuring", "two insertions, an enumeration in progress, another operation", ["done"], ty=ty, **plans(11))
    R("C01", "MapConc", "base trees, then any operation", ["done"], "thorough", ty=ty, n=9, **plans(1, 3))
    R("C01", "DomConc", "three operations, then any", ["done"], "thorough", ty=ty, **plans(111))
R("C01", "MapConc", "labels, any spelling", ["done"], tree=1, forms=4, dot=1, **plans(1))
R("C01", "MapConc", "labels", ["done"], tree=1, **plans(111, 13, 9))
R("C01", "MapDuring", "labels", ["done"], tree=1, **plans(11))
R("C01", "NameConc", "all texts of 0 to 4 bytes", ["name", "no name"], win=4, any=1)
R("C01", "NameConc", "3 bytes before 60 more", ["name", "no name"], win=3, any=1, suf=60)
R("C01", "NameConc", "3 bytes before 5 more labels", ["name", "no name"], win=3, any=1, suf=5, sufk=7)
R("C01", "NameConc", "all texts of 0 to 6 bytes", ["name", "no name"], "thorough", n=6)
