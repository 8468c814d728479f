#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
TY = ["uintX/%s8", "uintX/%s16", "uintX/%s32", "uintX/%s64"]
def typed(stem, *files):
    return [(d % stem) + "/" + f for d in TY for f in files]
NUM = ["numtree/node32.go", "numtree/node64.go"]
IP = ["iptree/iptree.go"] + NUM + typed("iptree", "iptree.go", "node32.go", "node64.go", "node64s.go")
STR = ["strtree/node.go", "strtree/strtree.go"] + typed("strtree", "node.go", "strtree.go")
DL = ["dltree/node.go", "dltree/dltree.go", "domain/label.go"]
DT = ["domaintree/domaintree.go", "dltree/node.go", "dltree/dltree.go", "domain/name.go", "domain/label.go"] + typed("domaintree", "domaintree.go", "dltree.go", "node.go")
DOM = ["domain/label.go", "domain/name.go"]
P = []
def prop(id, title, stmt, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

radix = [("tree node", "key with number of significant bits, leaf flag, value, two children; children extend the parent's prefix by the next bit", "numtree/node32.go, numtree/node64.go")]
rb = [("tree node", "key, value, colour, two children; black root, no red-red edge, equal black height", "strtree/node.go, dltree/node.go")]

prop("N01", "Numeric prefix lookup returns the most specific covering entry",
 "For 32- and 64-bit numeric prefix trees, after any sequence of insertions and deletions a lookup of (key, length) returns the value of the longest stored prefix that contains the queried prefix (itself included), and reports a miss, with no value, exactly when no stored prefix contains it. Lengths outside the key width behave like the nearest valid length, and key bits beyond the length never matter.",
 ["inputs", "histories"], "all keys, all lengths (also out of range), all insertion/deletion histories",
 "The tests look up a few dozen fixed keys in fixed trees; key x length x tree shape is astronomically larger and the interesting cases sit at single bit positions.",
 NUM, [("prefix match descends by next bit and falls back to the nearest leaf on the way up", "numtree/node32.go match, numtree/node64.go match"), ("mask tables", "masks32, masks64")], ["numtree Match"], radix)
prop("N02", "Numeric exact lookup finds precisely the stored prefixes",
 "For 32- and 64-bit numeric prefix trees, after any sequence of insertions and deletions an exact lookup of (key, length) succeeds exactly when that very prefix is stored (not one that merely contains it or is contained in it), and then yields the value given by the latest insertion of that prefix. Lengths outside the key width behave like the nearest valid length, and key bits beyond the length never matter.",
 ["inputs", "histories"], "all keys, all lengths, all histories, including overwriting the same prefix",
 "Fixed examples cannot distinguish a stored prefix from every neighbouring internal branching point or overwritten entry.",
 NUM, [("exact match and node lookup", "numtree exactMatch, FindNode"), ("replacement of an equal prefix", "numtree insert, inplaceInsert")], ["numtree ExactMatch", "numtree FindNode"], radix)
prop("N03", "Numeric prefix deletion removes exactly the covered entries",
 "Deleting (key, length) from a 32- or 64-bit numeric prefix tree yields a tree that contains every stored prefix not contained in the given one, with its value, and none of those contained in it. The accompanying flag is true exactly when at least one stored prefix was removed; when it is false the content is unchanged.",
 ["inputs", "histories"], "all trees reachable by insertions and deletions, all deletion arguments",
 "Whether a subtree is dropped, collapsed or kept depends on where the deleted prefix ends relative to branching points; tests try a handful.",
 NUM, [("subtree removal and collapse of valueless branching nodes", "numtree del")], ["numtree Delete", "numtree Enumerate"], radix)
prop("N04", "Numeric in-place insertion equals copy-on-write insertion",
 "For 32- and 64-bit numeric prefix trees, building a tree by in-place insertions and building it by copy-on-write insertions of the same entries in the same order (also when the two styles are mixed) gives trees with the same content and the same answers to every lookup and deletion. An in-place insertion adds or replaces exactly the given entry and loses no other.",
 ["inputs", "histories"], "all entry sequences, including mixtures with copy-on-write operations",
 "The in-place path is a separately written loop; tests compare it on a few fixed sequences.",
 NUM, [("iterative in-place insertion", "numtree inplaceInsert"), ("recursive copying insertion", "numtree insert")], ["numtree InplaceInsert", "numtree Insert"], radix)
prop("N05", "Numeric enumeration is complete, duplicate-free and ordered",
 "Enumerating a 32- or 64-bit numeric prefix tree delivers every stored prefix exactly once with its current value, ordered by masked key and, for equal masked keys, shorter prefix first. The delivery then ends (the channel is closed and no worker stays behind), including for the empty tree.",
 ["inputs", "histories", "schedules"], "all trees, producer/consumer hand-over of the enumeration",
 "Tests enumerate a few fixed trees.",
 NUM, [("depth-first traversal sending on a channel from a goroutine", "numtree Enumerate, enumerate")], ["numtree Enumerate"], radix)
prop("N06", "Numeric copy-on-write operations never touch earlier versions",
 "A copy-on-write insertion into, or deletion from, a 32- or 64-bit numeric prefix tree, as well as any lookup or enumeration, leaves every previously obtained version of the tree unchanged: it still gives the same answers, and nothing that is reachable from it is written, so old versions can be read concurrently without locking while new ones are derived.",
 ["inputs", "histories", "schedules"], "all trees, all operations, all interleavings of readers of old versions with one deriving writer",
 "Sharing bugs show up only on particular shapes and only when the old version is re-examined or read concurrently; tests look at old versions on a few shapes and run no concurrent readers.",
 NUM, [("copying of the path from root to change", "numtree insert, del")], ["numtree Insert", "numtree Delete"], radix)

prop("I01", "IP lookup returns the most specific stored network",
 "In the IP trees (generic and typed values), after any sequence of insertions and deletions a lookup by network or by address returns the value of the longest stored network of the same address family that contains the queried one (itself included), and a miss, with no value, exactly when there is none. This holds for every IPv4 length 0-32 and IPv6 length 0-128, in particular across the 64-bit boundary of IPv6, and the two families never influence each other.",
 ["inputs", "histories"], "all networks and addresses of both families, all histories",
 "IPv6 is split into two 64-bit levels with fallback between them; tests use a few networks on either side.",
 IP, [("two-level IPv6 lookup with fallback to lengths below 64", "iptree GetByNet"), ("typed variants", "uintX/iptree*/iptree.go GetByNet")], ["GetByNet", "GetByIP"],
 [("tree", "one 32-bit tree for IPv4, one 64-bit tree for IPv6 whose 64-bit-long entries hold subtrees for longer networks", "iptree/iptree.go Tree")])
prop("I02", "IP deletion removes exactly the networks inside the given one",
 "In the IP trees (generic and typed), deleting by network (or address) yields a tree without any stored network of that family contained in the given one, and with every other entry untouched, for all IPv4 and IPv6 lengths including an IPv6 deletion that covers networks on the other side of the 64-bit boundary. The flag is true exactly when at least one stored network was removed, and otherwise the content is unchanged.",
 ["inputs", "histories"], "all trees, all deletion arguments of both families",
 "Deletion must work on two nested levels for IPv6; tests delete only networks that are themselves stored.",
 IP, [("two-level deletion", "iptree DeleteByNet, uintX/iptree*/iptree.go DeleteByNet"), ("subtree removal", "numtree del")], ["DeleteByNet", "DeleteByIP", "Enumerate"])
prop("I03", "IP enumeration reports every stored network exactly once",
 "Enumerating an IP tree (generic or typed) delivers each stored network exactly once with its current value: all IPv4 networks first, then all IPv6 networks, each family by ascending address and shorter prefix first. Every delivered key is the canonical network (host bits cleared, right mask length and family) and looking it up, or re-inserting all delivered pairs into an empty tree, gives back the same content; delivery always ends.",
 ["inputs", "histories"], "all trees",
 "Reassembling addresses from two 64-bit halves is exercised by the tests for a few networks only.",
 IP, [("key reconstruction from integer keys", "iptree enumerate, unpackUint32ToIP, unpackUint64ToIP")], ["Enumerate"])
prop("I04", "IP in-place insertion equals copy-on-write insertion",
 "For IP trees (generic and typed), in-place insertion of networks or addresses gives a tree with the same content and the same lookup and deletion answers as copy-on-write insertion of the same entries in the same order, also when both styles are mixed. Each in-place insertion adds or replaces exactly the given entry.",
 ["inputs", "histories"], "all entry sequences of both families",
 "The in-place code decides separately when the nested IPv6 subtree has to be re-attached; tests use one fixed sequence.",
 IP, [("in-place insertion with conditional re-attachment of the nested tree", "iptree InplaceInsertNet, uintX/iptree*/iptree.go InplaceInsertNet")], ["InplaceInsertNet", "InplaceInsertIP"])
prop("I05", "IP tree versions are immutable under copy-on-write operations",
 "Copy-on-write insertion into and deletion from an IP tree (generic or typed), and all lookups and enumerations, leave every previously obtained version unchanged: same content, same answers, and nothing reachable from it is written, so old versions may be read concurrently while new ones are derived.",
 ["inputs", "histories", "schedules"], "all trees and operations, readers of old versions interleaved with a deriving writer",
 "Nested IPv6 subtrees are shared between versions; tests re-examine old versions on few shapes and never concurrently.",
 IP, [("copying at both levels", "iptree InsertNet, DeleteByNet"), ("numeric copy-on-write", "numtree insert, del")], ["InsertNet", "DeleteByNet"])
prop("I06", "Descendant update visits exactly the networks strictly below a target",
 "Updating the descendants of a network that is stored in the generic IP tree calls the callback exactly once for every stored network strictly contained in it, with that network's canonical key and current value, and for nothing else; entries for which the callback asks for a change get the new value, all other entries (including the target and unrelated networks) keep theirs. If the target network is not stored, nothing is visited.",
 ["inputs", "histories"], "all trees of both families, all targets, all callback decisions",
 "Tests cover a few fixed trees; the IPv6 case has three code paths depending on where target and descendants lie relative to bit 64.",
 ["iptree/iptree.go"] + NUM, [("descendant walk over one or two levels", "iptree UpdateDescendants, updateNode64"), ("node lookup", "numtree FindNode")], ["UpdateDescendants"])
prop("I07", "Malformed IP keys are inert and addresses equal host networks",
 "Operations on IP trees (generic and typed) with a nil network, an address of wrong length, a non-canonical mask, or a mask of the other family neither panic nor change anything: insertion returns an equal tree, lookup misses, deletion reports nothing removed. An address operation is equivalent to the same operation with its host network (/32 or /128), and the 4-byte form and the 16-byte IPv4-mapped form of one IPv4 address are interchangeable.",
 ["inputs"], "all byte strings as addresses and masks, nil arguments, nil trees",
 "Tests try one malformed network; the input space is all address and mask byte strings.",
 IP, [("validation of address and mask lengths", "iptree iPv4NetToUint32, iPv6NetToUint64Pair, newIPNetFromIP")], ["InsertNet", "InsertIP", "GetByNet", "GetByIP", "DeleteByNet", "DeleteByIP"])

prop("D01", "Label parsing decodes exactly the documented escape grammar",
 "Parsing a human-readable domain label yields its bytes with ASCII letters upper-cased and nothing else altered: a backslash followed by three digits denotes the byte with that decimal value, a backslash followed by any other character denotes that character, and one trailing dot is ignored. Input with a truncated escape, a non-digit or a value above 255 in a numeric escape is rejected as an invalid escape, and a label of more than 63 decoded bytes is rejected as too long (63 is accepted); every other label without an inner unescaped dot is accepted.",
 ["inputs"], "all byte strings (an unescaped dot before the last character is outside the contract of the label parser)",
 "A four-state machine over arbitrary bytes; tests give about twenty strings.",
 ["domain/label.go"], [("escape state machine", "domain/label.go getLabel, MakeLabel")], ["domain.MakeLabel"])
prop("D02", "Label presentation round-trips and never fails",
 "For every binary label of up to 63 bytes, the human-readable form consists of printable ASCII without upper-case letters or unescaped dots and parses back to the same label with ASCII letters upper-cased. Producing it never panics for any input of any length.",
 ["inputs"], "all byte strings, in particular 63 bytes that all need four-character escapes, and over-long input",
 "Tests present a few labels; the output buffer bound is hit only by particular mixtures of escape widths.",
 ["domain/label.go"], [("escaping into a fixed buffer with bound checks", "domain/label.go MakeHumanReadableLabel"), ("parser", "getLabel")], ["domain.MakeHumanReadableLabel", "domain.MakeLabel", "dltree Enumerate"])
prop("D03", "Name parsing is total and enforces the DNS size limits exactly",
 "Parsing any string as a domain name terminates without panic and either succeeds or returns one of the documented errors: a name is accepted exactly when it is empty, a single dot, or splits at its unescaped dots (one optional trailing dot) into at most 127 non-empty labels with valid escapes, each at most 63 decoded bytes, whose lengths plus one length byte per label total at most 255. When a name breaks just one rule the error names that rule.",
 ["inputs"], "all byte strings",
 "Tests hit each error once with one string; the boundaries (63/64, 127/128, 255/256, escapes next to dots and at the end) are where it can go wrong.",
 DOM, [("label splitting and decoding into fixed buffers", "domain/label.go markLabels, getLabel; domain/name.go MakeNameFromString")], ["domain.MakeNameFromString"])
prop("D04", "Spelling variants of a name denote the same name",
 "Two domain name strings that differ only in ASCII letter case, in one trailing dot, or in writing a character plainly versus as an escape parse to names with identical label sequences; names with different decoded label sequences stay different. The name's string form is the string it was parsed from.",
 ["inputs"], "all pairs of equivalent spellings",
 "Tests compare a few spellings.",
 DOM, [("canonical upper-case wire form", "domain/name.go MakeNameFromString; domain/label.go getLabel")], ["domain.Name GetLabels, String"])
prop("D05", "Label iteration yields all labels from the top-level label down",
 "For every parsed name, walking its labels by callback and walking them by offset starting at zero yield the same sequence: the decoded labels of the string in reverse (top-level first), each non-empty and at most 63 bytes, the last one signalled by next offset zero. A callback error stops the walk at once and is returned, and querying any offset outside the name reports an error instead of panicking.",
 ["inputs"], "all names, all integer offsets, all stopping points",
 "Tests walk a couple of names and two invalid offsets.",
 ["domain/name.go"], [("length-prefixed traversal", "domain/name.go GetLabel, GetLabels")], ["domain.Name GetLabel, GetLabels"])
prop("D06", "Names obtained through reflection equal the originals",
 "Making a name from a reflected value that wraps a name, a pointer to a name, or a valid domain string gives the same string form and the same labels as the wrapped name (or as parsing the string).",
 ["inputs"], "all names and valid strings, by value and by pointer",
 "Tests use one name each.",
 ["domain/name.go"], [("field extraction by reflection", "domain/name.go MakeNameFromReflection")], ["domain.MakeNameFromReflection"])

prop("S01", "String trees behave as maps under any ordering function",
 "For string-keyed trees (generic and typed) with the default or any consistent custom comparison, after any sequence of insertions (copying or in place) and deletions, a lookup returns the value most recently inserted under a key that compares equal, if that key has not been deleted since, and a miss otherwise. Deletion reports true exactly when the key was present and removes only that key; emptiness is reported exactly when nothing is stored.",
 ["inputs", "histories"], "all key sets, all comparison functions that define a total order (or total preorder), all histories",
 "Top-down red-black insertion and deletion have many rebalancing cases whose occurrence depends on the history; tests run a few fixed sequences.",
 STR, [("top-down red-black insertion, in-place insertion and deletion", "strtree/node.go insert, inplaceInsert, del, get")], ["strtree Insert, InplaceInsert, Delete, Get, IsEmpty"], rb)
prop("S02", "String tree enumeration is complete and follows the ordering",
 "Enumerating a string-keyed tree (generic or typed) delivers each stored key exactly once with its current value in strictly ascending order of the tree's comparison function, then ends; an empty or nil tree delivers nothing.",
 ["inputs", "histories"], "all trees reachable by insertions (both styles) and deletions, any consistent comparison",
 "Order after rotations and deletions is checked by the tests for a few trees.",
 STR, [("in-order traversal", "strtree/node.go enumerate")], ["strtree Enumerate"], rb)
prop("S03", "String tree versions are immutable under copy-on-write operations",
 "Copying insertion into and deletion from a string-keyed tree (generic or typed), successful or not, and all lookups and enumerations, leave every earlier version unchanged: same content and answers, and nothing reachable from it is written, so it can be read concurrently while new versions are derived.",
 ["inputs", "histories", "schedules"], "all trees and operations, readers interleaved with a deriving writer",
 "Rotations and recolouring touch siblings and nephews; whether each was copied first depends on the shape. Tests examine few shapes and no concurrency.",
 STR, [("copying of every node before it is changed", "strtree/node.go insert, del, fullCopy, colorCopy, single, double")], ["strtree Insert, Delete"], rb)
prop("S04", "String trees stay balanced: logarithmic lookup cost",
 "Whatever sequence of insertions (both styles) and deletions built a string-keyed tree (generic or typed) holding n keys, a lookup performs at most 2*log2(n+1) key comparisons.",
 ["inputs", "histories"], "all histories, ascending and adversarial ones included",
 "Tests check a few Graphviz dumps; a wrong recolouring keeps all lookups right and only degrades shape after particular histories.",
 STR, [("red-black invariants", "strtree/node.go insert, inplaceInsert, del")], ["comparison calls during strtree Get"], rb)
prop("L01", "Label trees behave as maps over canonical labels",
 "For label-keyed trees, after any sequence of insertions (copying or in place) and deletions with valid labels, a lookup returns the latest value stored under the same label, where labels are the same if they are spelled the same up to letter case and escapes, and a miss otherwise; deletion reports true exactly when the label was present and removes only it. The raw operations give the same results when given the decoded label, and both kinds of operation work on the same entries.",
 ["inputs", "histories"], "all labels, all histories",
 "Tests use a few dozen labels in fixed order.",
 DL, [("red-black tree ordered by length, then bytes", "dltree/node.go"), ("label canonicalisation", "dltree/dltree.go, domain.MakeLabel")], ["dltree Insert, InplaceInsert, Get, Delete and Raw counterparts, IsEmpty"], rb)
prop("L02", "Label tree enumeration is complete and ordered",
 "Enumerating a label-keyed tree delivers every stored label exactly once with its current value, shorter labels first and equal lengths in byte order, then ends. The raw enumeration delivers the decoded labels, the plain one their human-readable escapes, in the same order and with the same values; each plain key parses back to the raw one.",
 ["inputs", "histories"], "all trees reachable by insertions and deletions",
 "Tests enumerate a few fixed trees.",
 DL, [("in-order traversal", "dltree/node.go enumerate, rawEnumerate")], ["dltree Enumerate, RawEnumerate"], rb)
prop("L03", "Label tree versions are immutable under copy-on-write operations",
 "Copying insertion into and deletion from a label-keyed tree, successful or not, and all lookups and enumerations, leave every earlier version unchanged: same content and answers, and nothing reachable from it is written, so it can be read concurrently while new versions are derived.",
 ["inputs", "histories", "schedules"], "all trees and operations, readers interleaved with a deriving writer",
 "As for string trees: depends on which nodes a particular rebalancing touches.",
 DL, [("copying of every node before it is changed", "dltree/node.go insert, del")], ["dltree Insert, RawInsert, Delete, RawDelete"], rb)
prop("L04", "Label trees stay balanced: logarithmic depth",
 "Whatever sequence of insertions (both styles) and deletions built a label-keyed tree, or the set of sibling labels at one level of a domain tree (generic or typed), holding n labels, no label lies deeper than 2*log2(n+1) levels.",
 ["inputs", "histories"], "all histories",
 "A wrong recolouring only degrades the shape after particular histories and keeps all answers right.",
 DL + typed("domaintree", "node.go"), [("red-black invariants", "dltree/node.go, uintX/domaintree*/node.go")], ["depth of the stored structure"], rb)

prop("T01", "Domain lookup returns the closest enclosing stored domain",
 "In domain trees (generic and typed), after any sequence of insertions and deletions a lookup returns the value of the stored domain that equals the queried name or, failing that, of its closest stored ancestor domain, the root domain included, and a miss with no value exactly when none is stored. Matching is by whole labels, ignoring letter case and escape spelling.",
 ["inputs", "histories"], "all names up to the 127-label limit, all histories",
 "Tests look up a dozen fixed names.",
 DT, [("descent by labels remembering the last value", "domaintree/domaintree.go Get")], ["Get"])
prop("T02", "Domain deletion removes exactly the given domain",
 "Deleting a domain from a domain tree (generic or typed) removes precisely that domain's entry; its subdomains, ancestors and all other domains keep their values. The flag is true exactly when the domain was stored, otherwise the content is unchanged; this holds for every valid name, up to the maximum number of labels.",
 ["inputs", "histories"], "all trees, all names of 0 to 127 labels",
 "Whether branch nodes are pruned or kept depends on the surroundings; tests delete a few names and none of maximal depth.",
 DT, [("path copying with pruning of empty branches", "domaintree/domaintree.go Delete, getBranch, copyBranch")], ["Delete", "Enumerate", "Get"])
prop("T03", "Subdomain deletion removes exactly the domain and everything below it",
 "Deleting a domain with its subdomains from a domain tree (generic or typed) removes every stored domain that equals it or lies below it and nothing else. The flag is true exactly when at least one stored domain was removed, otherwise the content is unchanged; this holds for every valid name, up to the maximum number of labels, and for the root, which empties the tree.",
 ["inputs", "histories"], "all trees, all names of 0 to 127 labels",
 "Tests delete a few names in fixed trees.",
 DT, [("branch cut with pruning of empty ancestors", "domaintree/domaintree.go DeleteSubdomains, getBranch, copyBranch")], ["DeleteSubdomains", "Enumerate", "Get"])
prop("T04", "Domain enumeration reports every stored domain exactly once",
 "Enumerating a domain tree (generic or typed) delivers each stored domain exactly once with its current value, as a lower-case, properly escaped string that parses back to the stored name; a domain is delivered before its subdomains, and siblings by label length, then bytes. Two enumerations of one tree deliver the same sequence, and delivery always ends.",
 ["inputs", "histories"], "all trees, all labels including ones that need escaping",
 "Tests enumerate a few fixed trees with plain labels.",
 DT, [("recursive traversal building the name from labels", "domaintree/domaintree.go enumerate; domain.MakeHumanReadableLabel")], ["Enumerate"])
prop("T05", "Domain tree versions are immutable under copy-on-write operations",
 "Copying insertion into a domain tree (generic or typed), both kinds of deletion, and all lookups and enumerations leave every earlier version unchanged: same content and answers, and nothing reachable from it is written, so it can be read concurrently while new versions are derived.",
 ["inputs", "histories", "schedules"], "all trees and operations, readers interleaved with a deriving writer",
 "Two nested levels of structure are copied selectively; tests re-examine old versions on a few shapes only.",
 DT, [("copying of the domain path and of each level's label tree", "domaintree/domaintree.go Insert, copy, copyBranch; dltree insert, del")], ["Insert", "Delete", "DeleteSubdomains"])
prop("T06", "Domain in-place insertion equals copy-on-write insertion",
 "For domain trees (generic and typed), in-place insertion gives the same content and the same lookup, enumeration and deletion answers as copy-on-write insertion of the same entries in the same order, also when both styles are mixed; each insertion adds or replaces exactly the given entry.",
 ["inputs", "histories"], "all entry sequences",
 "In-place insertion is written separately; tests use one sequence.",
 DT, [("in-place insertion", "domaintree/domaintree.go InplaceInsert")], ["InplaceInsert", "Insert"])

prop("I08", "IP trees neither keep nor change the callers' keys nor share their own",
 "In the IP trees (generic and typed values) no operation writes into the network or address passed to it, and neither the content of a tree nor the answers it gives depend on what the caller does with those bytes afterwards. Keys delivered by an enumeration, or passed to the callback of an update of descendants, belong to the receiver: overwriting one changes neither the tree nor any other delivered key.",
 ["inputs", "histories"], "all networks and addresses of both families (4- and 16-byte forms), all histories",
 "Tests use fresh constant networks and read delivered keys at once; sharing of bytes shows up only when the caller reuses a buffer or keeps a key.",
 IP, [("conversion of networks to key and length", "iptree/iptree.go and uintX/iptree*/iptree.go iPv4NetToUint32, iPv6NetToUint64Pair"), ("new keys for every delivery", "newIPNetFromIPv4, newIPNetFromIPv6")], ["GetByNet", "Enumerate", "UpdateDescendants", "the caller's net.IPNet and net.IP"])

prop("C01", "Concurrent readers and derivations never write shared memory",
 "On a tree that nobody modifies in place, any number of goroutines may at the same time look up, enumerate, dump, and derive new versions by copy-on-write insertion and deletion; domain names and labels may be parsed, printed and walked concurrently; and each goroutine may build and modify its own trees. None of these operations writes memory that another goroutine could reach, package-level variables included. An enumeration in progress delivers exactly the version it was started on, whatever versions are derived meanwhile.",
 ["inputs", "histories", "schedules"], "all trees of all packages reachable by insertions and deletions, all arguments, all interleavings of concurrent readers, deriving writers and owners of separate trees",
 "The tests run one goroutine (and the enumerating one); a scratch buffer or cache shared between calls gives correct answers until two calls overlap.",
 sorted(set(NUM + IP + STR + DL + DT + DOM)), [("path copying; no caches in nodes; per-call buffers", "insert, del, match, enumerate of all packages; domain MakeNameFromString, MakeLabel, DropLabel"), ("producer goroutine per enumeration, reading only", "Enumerate of all packages")], ["all operations of all packages, called from several goroutines"])

prop("X01", "Typed trees give the same results as the generic ones",
 "The 8-, 16-, 32- and 64-bit typed variants of the IP, string and domain trees answer every history of operations exactly like the generic tree holding the same values, over the full range of the value type: stored integers come back unchanged, a miss yields zero, and flags, order and keys of enumeration agree.",
 ["inputs", "histories", "configurations"], "all four widths, all values of the type, all histories",
 "Each variant is generated code with its own copied tests on the same few values.",
 typed("iptree", "iptree.go", "node32.go", "node64.go", "node64s.go") + typed("strtree", "node.go", "strtree.go") + typed("domaintree", "domaintree.go", "dltree.go", "node.go"),
 [("instances of one template", "uintX/*{{.bits}}")], ["all public operations of the typed trees"])
prop("E01", "Template tool splits and relates paths faithfully",
 "In the template execution tool, a name is reported relative to the template's parent directory exactly when it lies under it (component-wise, not by string prefix), and then joining it to that directory gives back the cleaned name; otherwise its last component is reported. Splitting any path gives components that join back to the cleaned path, for any number of components.",
 ["inputs"], "all path strings, any depth",
 "Tests split four fixed paths.",
 ["etc/names.go"], [("component splitting with growing buffer and prefix test", "etc/names.go fullSplit, hasPrefix, getRelName")], ["names logged by the tool"])
prop("E02", "Template tool selects exactly the addressed data",
 "Selecting template data by a dotted path returns the value reached by following the path's components through nested maps; an empty path returns everything, a missing component or a component that is not a map before the end is an error, and nothing else is.",
 ["inputs"], "all nested maps and dotted paths",
 "No test covers it.",
 ["etc/data.go"], [("recursive selection", "etc/data.go sel")], ["data passed to templates"])
prop("E03", "Committed typed packages are what the templates generate",
 "Running the template tool on the committed templates and data reproduces the committed typed packages byte for byte, for all four widths.",
 ["configurations"], "four widths, three tree families",
 "No test regenerates the packages.",
 ["etc/main.go", "etc/file.go", "etc/template.go", "uintX/uintX.yaml"], [("template execution", "etc/main.go execute")], ["files under uintX"])
prop("V01", "Graphviz dumps describe exactly the tree's nodes and edges",
 "The Graphviz dump of a numeric, string or label tree (generic or typed) lists every node once with its key (escaped), value and colour (string and label trees) or prefix length (numeric trees), and exactly the parent-child edges of the tree, so that reading the dump in order gives the stored entries in order and the colours form a valid red-black colouring; dumping never fails, for empty trees and any key bytes.",
 ["inputs", "histories"], "all trees",
 "Tests compare some dumps of fixed trees.",
 NUM + STR + DL, [("breadth-first dump", "numtree Dot, strtree dot, dltree dot")], ["Dot"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
