"""What the proofs rest on."""
BASE = [
 "The verifier itself (vc/engine.py, vc/loops.py: a symbolic executor for the subset of Python the library is written in) and z3",
 "The models of phamt's PHAMT and THAMT (a C extension outside the repository) and of the builtins in vc/pymodel.py",
 "Elements and keys satisfy Python's hash/eq contract: == is an equivalence that includes identity, hash is a function of the equality class (so NaN and unhashable keys are outside), and calling them does not re-enter the collection",
 "phamt iterates in unsigned 64-bit key order, so iteration over a map whose keys form the interval [s, s+n) is treated as ascending only where the verifier has shown 0 <= s or the code sorts; hashes are any integers",
 "Iterables given by the caller are finite (every other loop is shown to end by a decreasing measure, and no function is verified with its own contract); memory and recursion limits are ignored",
 "Fewer than 2**63 elements",
 "Lemmas about enumerations, cardinalities, ranges, sums and folds are proved as tasks of every check (vc/lemmas.py)",
]
EXTRA = {
 "C17": ["Reads and writes of one slot are atomic; threading.RLock is a re-entrant mutual-exclusion lock; the function of a lazy does not call the lazy itself"],
 "C18": ["Reads and writes of one slot are atomic; threading.RLock is a re-entrant mutual-exclusion lock; the function of a lazy does not call the lazy itself"],
 "C19": ["Lazies are not nested; repr of an element does not raise"],
 "C20": ["Lazies are not nested"],
 "C23": ["repr of an element, and the conversion given to seqstr, return a string and do not raise; separators: ', ', '' and ' -- '"],
 "C24": ["pickle and copy rebuild a collection by calling what __reduce__ returns on equal arguments in the same order"],
 "C03": ["sorted is a function of the sequence, the key function and the flag"],
 "C06": ["*args methods: 0 to 3 arguments"],
 "C11": ["keyword arguments: 0 to 2; two positional arguments at most"],
 "C16": ["hash of a tuple or frozenset is a function of the (hashes of the) elements in order, or as a set"],
}
def base(prop): return BASE + EXTRA.get(prop, [])
