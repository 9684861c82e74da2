#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, one JSON object per line)."""
import json, os
L, S, D, Z = ("pcollections/_list.py", "pcollections/_set.py", "pcollections/_dict.py", "pcollections/_lazy.py")
AC, AQ, AS, AM, U = ("pcollections/abc/_core.py", "pcollections/abc/_seq.py", "pcollections/abc/_set.py",
                     "pcollections/abc/_map.py", "pcollections/util/_core.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=["public methods and operators of the collection classes"],
                               hook_needed=None)))
LSTATE = [("_phamt/_thamt", "int-keyed map holding the elements on consecutive keys", L),
          ("_start", "key of element 0 (any integer, negative after prepends)", L)]
SSTATE = [("_els", "insertion-ordered entries (payload, index of next entry with the same hash)", S + ", " + D),
          ("_idx", "hash -> index of the first entry with that hash", S + ", " + D),
          ("_top", "next free entry index", S + ", " + D)]

prop("C01", "Persistent list edits agree with list, for every list, index and object",
     "For every persistent list (plist or llist), index and object, set, append, prepend, insert, delete, drop, pop and clear return a list whose contents are exactly those that the corresponding edit of a built-in list with the same contents gives. An index that the built-in list rejects raises IndexError (drop returns the list as it is, insert clamps), and nothing else does.",
     ["inputs", "histories"], "every list contents and length, every internal layout reachable by any history of operations, every integer index, every object",
     "the tests try a handful of lists that start at offset 0 plus random edits of short lists; layouts left by prepends and middle deletions with particular lengths and offsets are mostly unsampled",
     [L, AQ], [("plist.set/delete/append/prepend/insert/clear", L), ("PersistentSequence.drop/pop", AQ)], LSTATE)
prop("C02", "Reading a list agrees with list: index, slice, iterate, search",
     "For every list of this library (persistent, transient, lazy), len, integer indexing, slicing with any start, stop and step, iteration, reversed, in, count and index(value, start, stop) give what a built-in list with the same (reified) elements gives, including which arguments raise IndexError or ValueError. The result does not depend on the history through which the list was built.",
     ["inputs", "histories"], "every contents, every reachable layout (offset below, at or above zero), every index and slice, every search value",
     "iteration and slicing take different code paths for lists that straddle offset zero; the tests visit few of the offsets and slices",
     [L, AQ, Z], [("__getitem__, __iter__, __len__ of plist and tlist", L), ("__contains__, __reversed__, count, index", AQ), ("llist/tllist overrides", Z)], LSTATE)
prop("C03", "Whole-list operations (build, extend, +, *, sort, reverse, remove) match list",
     "Constructing a list from any iterable or collection, extend, remove, reverse, sort (with any key and reverse flag), concatenation with + on either side, and repetition with * give, for persistent and transient lists, the contents that the same operation on built-in lists gives. Operands are left unchanged, except the receiver of an in-place transient operation.",
     ["inputs", "histories"], "every pair of contents, every operand kind (list, persistent, transient, the receiver itself), every repetition count, every sort key",
     "the tests concatenate and repeat a few small lists; operand kinds, self-operands, empty operands and non-zero offsets are not crossed",
     [L, AQ], [("plist.__new__, tlist.__new__", L), ("extend, remove, sort, reverse, __add__, __radd__, __iadd__, __mul__, __imul__", AQ)], LSTATE)
prop("C04", "Transient list edits in place agree with list over any history",
     "Any sequence of item assignment, deletion, insert, append, prepend, pop, remove, extend and clear on a transient list leaves it with the contents a built-in list has after the same sequence. An operation that raises leaves the transient list unchanged.",
     ["inputs", "histories"], "every starting contents and layout, every finite sequence of edits with every index and object",
     "the tests run one short edit sequence per operation; shifting code depends on length, index and offset together",
     [L, AQ, Z], [("tlist.__setitem__, __delitem__, insert, append, prepend, clear", L), ("TransientSequence.pop, remove, extend", AQ)], LSTATE)
prop("C05", "Set membership is exact, whatever the hashes of the elements",
     "After any history of add, discard, remove, pop and clear on a persistent or transient set, x in s is true exactly when some element equal to x was added and not removed since; len is the number of such elements, and iteration yields each of them exactly once. This holds for all elements that satisfy Python's hash/eq contract, including elements whose hashes collide or whose hash is negative.",
     ["inputs", "histories"], "every history of operations, every assignment of hashes to elements",
     "the tests use integers and strings, whose hashes never collide, so the collision chains are never walked or edited",
     [S, AS], [("pset.add/discard/__contains__, tset.add/discard/__contains__", S), ("remove, pop", AS)], SSTATE)
prop("C06", "Set algebra computes the mathematical result",
     "Union, intersection, difference and symmetric difference, as methods, operators, reflected operators, in-place operators and update methods, and addall, discardall and removeall, give exactly the set of elements the definition gives, for every pair of operands (persistent, transient or built-in sets, the receiver itself, and any iterable where one is accepted). Operands other than an in-place receiver are unchanged.",
     ["inputs", "histories"], "every pair (or tuple) of operand contents, every operand kind including the receiver itself, every hash assignment",
     "the tests check a few small operands; empty operands, equal-sized results and self-operands go through special cases",
     [AS, S], [("PersistentSet and TransientSet operators and methods", AS), ("tset.add/discard", S)], SSTATE)
prop("C07", "Set comparison is set inclusion",
     "For all sets a and b, of this library or built-in, a == b holds exactly when they have the same elements, a <= b and issubset exactly when every element of a is in b, a < b exactly when also a != b, >=, > and issuperset symmetrically, and isdisjoint exactly when they share no element. Comparing a set for equality with something that is not a set gives False.",
     ["inputs"], "every pair of sets, including empty, overlapping, nested and disjoint ones, and every hash assignment",
     "the answer is computed by counting common elements, and only a few overlap patterns are tested",
     [U, AS], [("setcmp", U), ("__eq__, __lt__, __le__, __gt__, __ge__, isdisjoint, issubset, issuperset", AS)], SSTATE)
prop("C08", "A persistent dict is an exact map, whatever the hashes of the keys",
     "For every persistent dict (pdict or ldict) and key, lookup (indexing, get, in) returns the value last set for an equal key, or reports the key missing exactly when there is none. set, drop, delete, pop, popitem, setdefault and clear return a dict that differs from the receiver in exactly the named key and agrees with dict on results and on KeyError.",
     ["inputs", "histories"], "every history, key, value, every assignment of hashes to keys, including collisions and negative hashes",
     "tested keys are integers and strings without collisions, so chains of colliding entries are never walked, extended or unlinked",
     [D, AM, Z], [("pdict.set/drop/pop/get/__getitem__/__contains__", D), ("delete, setdefault, popitem", AM)], SSTATE)
prop("C09", "A transient dict is an exact map over any history of edits",
     "After any sequence of item assignment, deletion, pop, popitem, setdefault, update and clear on a transient dict, lookups, len and contents are those of a built-in dict after the same sequence, whatever the hashes of the keys. An operation that raises KeyError leaves the transient dict unchanged.",
     ["inputs", "histories"], "every finite sequence of edits, every key, value and hash assignment",
     "the tests edit a few keys without hash collisions",
     [D, AM, Z], [("tdict.__setitem__, __delitem__, pop, get, clear", D), ("TransientMapping.setdefault, popitem, update", AM)], SSTATE)
prop("C10", "Dict iteration and views agree with the map, in insertion order",
     "Iterating a dict of this library, or its keys, values or items, forwards or reversed, yields every entry exactly once in insertion order, where overwriting a value keeps the key's position and re-inserting a deleted key moves it to the end, as for dict. The length of a view and membership in a view agree with the dict.",
     ["inputs", "histories"], "every history of insertions, overwrites and deletions, every hash assignment",
     "order and view membership are tested on a few dicts that were only ever inserted into",
     [D, Z], [("pdict/tdict __iter__, __reversed__", D), ("pdict_keys/items/values, tdict_keys/items/values", D), ("ldict/tldict views", Z)], SSTATE)
prop("C11", "Building a dict, bulk edits and dict equality are the fold of single edits",
     "Constructing a dict from a mapping, an iterable of pairs and keyword arguments, and update, setall, dropall and deleteall, give the same dict as applying the single-key operation once per entry in order, deleteall raising KeyError exactly when some key is missing. Two mappings compare equal exactly when they map equal keys to equal values.",
     ["inputs", "histories"], "every argument (mapping, pairs, keywords, another dict of this library), with repeated and colliding keys, on every receiver",
     "constructors special-case the library's own types and empty arguments; few combinations are tested",
     [D, AM, Z], [("pdict.__new__, tdict.__new__", D), ("setall, dropall, deleteall, update", AM), ("Mapping.__eq__", AM)], SSTATE)
prop("C12", "No operation ever changes a persistent collection",
     "Once a persistent collection exists, its contents never change: whatever methods, operators or conversions are applied to it or to collections derived from it, every later read gives what an earlier one gave. Assigning or deleting an attribute or item of a persistent collection raises TypeError.",
     ["inputs", "histories"], "every history of operations over any number of collections that share structure",
     "a test can compare a few values before and after one call; sharing with later transients and derived collections can only be excluded for all histories",
     [L, S, D, Z, AC, AQ, AS, AM], [("Persistent.__setattr__/__delattr__/__setitem__/__delitem__", AC), ("every method builds new maps instead of editing", L)], LSTATE + SSTATE)
prop("C13", "Transients, their sources, snapshots and copies are independent",
     "Mutating a transient collection changes no other collection: not the persistent collection it was made from, not any snapshot taken with persistent() or a constructor, and not any copy of it or transient it was copied from. This holds however mutations and snapshots are interleaved.",
     ["histories"], "every interleaving of mutations, snapshots, copies and conversions",
     "aliasing shows only when a particular conversion is followed by a mutation of one side and a read of the other",
     [L, S, D, Z, AQ, AS, AM], [("transient(), persistent(), copy(), constructors, as_tdict, __holdlazy__", L)], LSTATE + SSTATE)
prop("C14", "A snapshot shows the transient's current contents; unedited round trips are free",
     "persistent() of a transient collection always has exactly the transient's current contents and entry order, however it was reached, and p.transient().persistent() on an unedited transient is p itself when p is not empty. Persistent operations documented as no-ops (adding a member, discarding a non-member, dropping a missing key, setting an identical object) return the receiver itself.",
     ["histories"], "every history of edits between creating the transient and taking the snapshot, including edits that restore earlier contents",
     "the transient remembers where it came from, and an edit path that forgets to reset that memory shows only in one specific sequence",
     [L, S, D, Z], [("_orig bookkeeping in every transient mutator", L + ", " + S + ", " + D), ("persistent()", Z)],
     [("_orig", "the persistent collection an unedited transient came from", L)])
prop("C15", "Sequence equality and ordering agree with list",
     "For all sequences of this library and built-in lists, == holds exactly when they have the same length and pairwise equal elements, and <, <=, > and >= are the lexicographic order of list, whenever the elements are mutually comparable. Comparing for equality with something that is not such a sequence gives False.",
     ["inputs"], "every pair of sequences with mutually comparable elements, every operand kind",
     "ordering is computed by one helper over pairs of elements; prefixes, equal elements that are not ordered and mixed operand kinds are not sampled",
     [U, AQ], [("seqcmp", U), ("__eq__, __lt__, __le__, __gt__, __ge__", AQ)])
prop("C16", "Equal persistent collections have equal hashes, and a hash never changes",
     "Two persistent collections of the same family (lists, sets, dicts; lazy or not) that compare equal have equal hashes, however each was built, and hashing the same collection again gives the same value.",
     ["inputs", "histories"], "every pair of equal collections over all construction histories, element order of sets and dicts included",
     "hashes are compared in no test for collections that were built differently",
     [L, S, D, AQ, AS, AM], [("__hash__ with _hashcode cache", L + ", " + S + ", " + D), ("__hash__", AQ + ", " + AS + ", " + AM)])
prop("C17", "A lazy value is computed at most once, and every caller gets that value",
     "However many threads call a lazy object (from outside its own function), and however their calls interleave, its function completes successfully at most once, and every call that returns gives that one result; once one call has returned, is_ready() is true and the function is never called again.",
     ["schedules", "histories"], "every number of threads and every interleaving of their calls, including reentrant calls",
     "the tests are single-threaded",
     [Z], [("lazy.__call__ (lock, re-check, publication order of value then partial)", Z), ("lazy.is_ready", Z)],
     [("partial", "the pending call, lock and error; None once the value is published", Z), ("value", "the cached result", Z)])
prop("C18", "A failing lazy computation raises LazyError, is not cached and can be retried",
     "If the function of a lazy object raises an exception, the call raises LazyError chained to an exception the function raised, the lazy stays not ready and its lock is released, so that another thread can call it again and a later success is cached as usual. LazyError can always be converted to a string that names the function.",
     ["fault_sequences", "schedules"], "every sequence of failing and succeeding attempts, from any threads, any function and arguments",
     "no test makes a lazy function fail",
     [Z], [("lazy.__call__ except/finally", Z), ("LazyError.__str__", Z)])
prop("C19", "Structural operations on lazy collections compute nothing",
     "Building, editing (append, prepend, insert, set, delete, drop, clear), converting (transient, persistent, as_plist, as_pdict, as_tdict, holdlazy, getlazy), measuring (len, is_lazy, is_ready) and printing with str a lazy list or dict never calls the function of any lazy element. Reading one element computes at most that element.",
     ["inputs", "histories"], "every lazy collection, every mix of lazy, ready and plain elements, every operation of the listed kinds",
     "a premature evaluation changes no result, so no value-based test can see it",
     [Z, L, D, U], [("llist, tllist, ldict, tldict raw accessors", Z), ("plist/pdict edits on raw elements", L + ", " + D)])
prop("C20", "Reading a lazy collection gives what the collection of computed values gives",
     "For every lazy list or dict, transient or persistent, every read (index, iteration, get, items, values, pop, in, ==) gives what the plain collection holding the computed values gives, and converting it with the plain constructor gives that collection; getlazy, as_plist, as_pdict, as_tdict and holdlazy give the same collection with the lazy objects themselves, and is_lazy/is_ready tell which entries are which. ready_all computes every lazy element.",
     ["inputs", "histories"], "every lazy collection and every mix of lazy, ready and plain elements",
     "the tests read a few lazy elements through a few of the access paths",
     [Z, L, D, AQ, AM], [("llist/tllist/ldict/tldict overrides, unlazy, holdlazy", Z)])
prop("C21", "Operations preserve the kind of collection",
     "Every operation that returns a collection of the receiver's kind returns exactly that kind: list edits of an llist give llists, dict edits of an ldict give ldicts, slices and copies keep the class, transient() pairs plist with tlist, llist with tllist, pset with tset, pdict with tdict, ldict with tldict, and persistent() pairs them back. Empty results are no exception.",
     ["inputs", "histories"], "every operation on every receiver, including those that take an empty or one-element shortcut",
     "shortcut paths (empty results, full-type conversions) are the ones that lose the class, and are rarely the ones tested",
     [L, S, D, Z, AQ, AS, AM], [("_new, type(self)(t), empty, transient, persistent", L)])
prop("C22", "A live iterator never silently mixes two states of a transient dict",
     "If a transient dict gains or loses a key while one of its iterators (over the dict or any of its views) has yielded some but not all entries, the next step of that iterator raises RuntimeError; it never yields an entry of the changed dict or skips one silently. Reads, snapshots and copies disturb no iterator.",
     ["histories"], "every interleaving of iterator steps with key insertions, deletions and clear",
     "needs an edit between two steps of one iterator, at every possible point",
     [D, Z], [("tdict._version, tdict.__iter__, tdict_view._iter", D)],
     [("_version", "counts changes to the key set", D)])
prop("C23", "str of a collection is bounded and repr is faithful",
     "str of any collection of this library shows at most 60 characters between its delimiters, a prefix of the element strings followed by an ellipsis when some are left out and every element when they fit, and repr shows every element in iteration order. Lazy elements are shown as a placeholder by str, without being computed.",
     ["inputs"], "every collection and every length of the element strings",
     "the cut-off depends on the exact lengths of the element strings",
     [U, AQ, AS, AM, Z], [("seqstr", U), ("__str__, __repr__", AQ + ", " + AS + ", " + AM + ", " + Z)])
prop("C24", "Pickling and copying round-trip every collection",
     "Unpickling a pickled collection, and copy.copy or copy.deepcopy of one, give a collection of the same type that is equal to it, with the same order of entries, whatever history built it; the copy() of a persistent collection is the collection itself, and the copy of a transient is an equal, independent transient.",
     ["inputs", "histories"], "every collection over picklable elements, every pickle protocol, every reachable layout",
     "no test pickles or copies a collection",
     [AQ, AS, AM, AC, Z], [("__reduce__", AQ + ", " + AS + ", " + AM), ("copy", AC)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
