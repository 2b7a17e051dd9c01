def n(oracle, why, cost): return dict(oracle=oracle, why=why, cost=cost)
NOTES = {
"P01": n("math/big integer and rational arithmetic written independently of value/; where a result's Go representation is not the canonical one for that number it must still behave identically in a battery of equality, indexing, printing and arithmetic probes.", "overflow and demotion happen only at particular magnitudes (64-bit, limit and shift boundaries), in particular operator/type pairs; the suite has a handful of them.", "quick 20 s, thorough minutes"),
"P02": n("the Euclidean and truncating definitions over exact rationals.", "the sign/zero/type combinations number in the thousands and each type has its own implementation.", "quick a few s"),
"P03": n("the session's variables, aliases, containers and elements before the operation (deep copies and representation dumps); for histories, a model with copying assignment.", "an operand is changed only when storage happens to be shared: a particular producer followed by a particular consumer.", "quick about 20 s"),
"P04": n("plain Go slices, one per version, copied at each publication.", "aliasing between versions appears only for particular sizes (multiples of 16, 256, 4096) and operation orders.", "quick about 20 s; thorough deeper histories"),
"P05": n("each write present, every other element and published version unchanged; the Go race detector on every schedule with the explorer's own handoffs hidden from it.", "a schedule-dependent property; the tests run whatever schedule the machine happens to give.", "quick about 100 s"),
"P06": n("the same expression evaluated with one processor, element by element.", "depends on the schedule and on sizes beyond the parallelism thresholds.", "quick about 60 s"),
"P07": n("reference tokenizer, right-to-left grammar and one-operator-at-a-time evaluator (harness/ref, harness/props/gram.go).", "the language is infinite and the parser's decisions depend on token adjacency.", "quick about 30 s"),
"P08": n("the operator itself: listing, re-definition from the listing in a fresh session, and behaviour on probe arguments.", "printing must be right for every nesting of every expression node.", "quick about 75 s"),
"P09": n("the saving session: variables (deep, with representation), operators (text and behaviour), settings; and a fixpoint (saving the restored session gives the same file).", "depends on the combination of settings, value types and the order in which mutually dependent operators were defined.", "quick about 80 s"),
"P10": n("no Go panic, hang or lost session; after a failing line the whole observable state equals the reference state in which the statement stopped where it failed.", "the offending operands are exactly the ones nobody thought of; here every operator meets every odd operand.", "quick about 100 s"),
"P11": n("a reference symbol table.", "which names are left bound after a failure depends on the history.", "quick about 10 s"),
"P12": n("a reference interpreter with one frame per call.", "locality is decided by use order, and results by call history.", "quick about 30 s"),
"P13": n("reference positional notation and reference constant grammar; Go's formatting for floats.", "depends on the number/base/format combination.", "quick about 30 s"),
"P14": n("index-by-index definitions of each operator on (shape, element list) pairs.", "the element motion depends on shape, rank and counts; a wrong stride shows for some shapes only.", "quick about 20 s"),
"P15": n("a linear-search model over an independently written total order on exact values.", "the implementation switches algorithm with size and representation (sorted search, hashing by type).", "quick about 20 s"),
"P16": n("the definition written out, each f applied by a separate two-operand evaluation.", "fast paths exist for particular operators and element types.", "quick about 15 s"),
"P17": n("outer-product definition of indexing on (shape, elements); whole variable and an alias compared after every assignment.", "depends on rank, slot kinds and origin.", "quick about 30 s"),
"P18": n("exact arithmetic on bit lengths, call depth and digit counts.", "off-by-one at a limit, or a path that forgets the limit, shows only at that size and after particular histories.", "quick about 15 s"),
"P19": n("range, distinctness, reachability of every value, and equality of runs from equal seeds, with every non-random line interposed.", "needs exhaustive seeds x sizes x interposed operations.", "quick about 30 s"),
"P20": n("the expected outputs of a base program; every layout and delivery must give the same.", "a read boundary inside a particular token or line, or an error in a particular place.", "quick about 10 s, thorough 110 s"),
"P21": n("an interpreter session given the same text; after Reset, the untouched program's answers; a model of the interactive demo.", "leaks appear only after particular sequences.", "quick 6 s, thorough 240 s"),
"P22": n("Euclidean digit extraction, polynomial evaluation, Unicode, Go's fmt.", "radix/shape/format combinations.", "quick about 30 s"),
"P23": n("harness/mp, a small multiprecision library written for this purpose (AGM-free: argument-halved Taylor series and Newton iteration), run with 1600 more bits than the setting; its own identities are checked by the harness.", "loss of accuracy is confined to particular regions (cancellation, range reduction, algorithm switches) and precisions.", "quick about 55 s"),
"P24": n("the array of separately evaluated scalar results with the conforming shape.", "each type pair and shape pair has its own path.", "quick about 15 s"),
"P25": n("exact Gaussian-rational arithmetic.", "part types and zero parts interact with demotion.", "quick about 10 s"),
"P26": n("a reference of the statement rules and printer.", "depends on the combination of statements on a line.", "quick about 15 s"),
"P27": n("the same lines typed at the top level.", "nesting of )get and ivy, and failures inside them.", "quick about 110 s"),
"P28": n("a state machine with one variable per setting.", "settings interact (bases change how arguments are read).", "quick about 55 s"),
"P29": n("a layout model built from the printed scalars.", "width decisions depend on which column or row holds the widest element, and on nesting.", "quick about 30 s"),
"P30": n("determinants and products over the Gaussian rationals.", "pivoting depends on the zero pattern.", "quick about 20 s"),
"P31": n("an independent proleptic-Gregorian calendar and the zone rules of the Go time package read directly.", "the interesting instants are transitions and range ends.", "quick about 20 s"),
"P32": n("a direct split of the file contents in Go.", "the behaviours are all short contents and the sizes at which a buffer or array node fills.", "q 5 s, t 60 s."),
"P33": n("a model of the session in Go (x, one operator, origin, _), composed over the parts in order.", "the behaviours are all combinations of -f, -i, -e, up to two files and standard input over the alphabet, each one execution of the real command.", "q 15 s, t 10 min."),
"P34": n("the lines of doc.go, searched and cut by a separate reader of its tables.", "the behaviours are all words (thorough: and parts of words), topics and operators of the documentation, in each letter case and base.", "q 5 s, t 30 s."),
}
