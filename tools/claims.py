"""technique and level note of each claimed property; reasons for the others."""
TR = "TLA+ state machine checked with TLC; recorded histories of the real code validated against it"
MYR = "executable semantics of the language in TLA+ (spec/Myr.tla); programs generated over it are compiled by the real compiler and TLC checks that what each run reported is the behaviour of the specification"
CLAIMS = {
 "S02": (TR + "; algorithm model (open addressing, tombstones, growth) model checked against the map",
         "Exhaustive for all put/delete sequences of bounded length over three colliding keys and for the model of the algorithm at 5 keys and 4..8 slots; "
         "sampled (seeded) for long histories, growth, churn, and four key types. Trusts TLC and the driver's recording."),
 "L01": (MYR, "Sampled: about a thousand seeded test bodies per run over all 13 integer types (thorough: ten times that), every reported value decided by the specification. "
         "Trusts TLC, the generator's rendering of the abstract program as source text, and the C helper that prints values."),
 "L02": (MYR + "; the same expressions evaluated at compile time and at run time", "Sampled: seeded constant expressions in every place the compiler folds them (initialisers, array sizes, named constants, operands), "
         "decided by the specification. Same trust as L01."),
 "L03": (MYR, "Sampled: random types nested three deep, pattern sets kept reachable, values chosen for every arm and at random. Same trust as L01."),
 "L04": ("explicit TLA+ specification of patterns and values (spec/Exhaust.tla): TLC enumerates the values of the matched type and decides which matches are exhaustive and which arms reachable; the compiler's verdict on generated programs is checked against it",
         "Sampled: 3000 seeded pattern lists per run (thorough 60000), each decided by enumerating every value up to the literals mentioned. Trusts TLC and the rendering of patterns as source."),
 "L14": ("explicit TLA+ specification of the paths of a function (spec/DefAssign.tla): TLC follows all paths through branches, loops, matches, gotos and short circuits and decides which functions have to be refused; the compiler's verdict on generated programs is checked against it",
         "Sampled: 3000 seeded functions per run (thorough 60000), each decided over all of its paths. Trusts TLC and the rendering as source."),
 "L13": ("explicit TLA+ specification of the lexer as a machine over the bytes of the text (spec/Lex.tla); generated and mutated texts are compiled by the real compiler, and TLC checks the verdict and the values the program reports",
         "Sampled: 2500 seeded texts per run (thorough 40000), half of them mutated at random, each lexed and evaluated by the specification. Trusts TLC; says nothing about texts outside the grammar of calls with one literal argument."),
 "L10": ("explicit TLA+ specification of typing (spec/Types.tla): the demands the parts of a function make on types, solved by unification with classes, defaults and delayed demands; the compiler's verdict on generated programs, half of them with an error injected, is checked against it",
         "Sampled: 2500 seeded functions per run (thorough 40000) over random structs, unions, aliases and globals, each decided by the specification; a crash is never the right verdict. Trusts TLC and the rendering as source; says nothing where the documentation does not (assignment to parts of constants, numbers as truth values)."),
 "L11": (MYR + "; implementations of traits are looked up by the specification (most specific pattern whose bounds hold); a second specification (spec/Demand.tla) decides which demands for traits must be refused",
         "Sampled: seeded programs of parameterised types, generic functions and constants, traits with overlapping implementations for patterns, iterators, nested instantiation; every report decided by the specification, and about 500 demands for a trait of a type decided accept or reject. Same trust as L01; overlapping implementations are those the compiler's ranking can tell apart; one file per program."),
 "L12": (MYR + "; the program is split into packages and files at random; a second specification (spec/Packages.tla) decides which names each file may use and in which order initialisers run",
         "Sampled: seeded programs of L11's generator split over 2 to 6 files and packages (imported, merged, through chains), compiled separately, linked and run, every reported value decided by the specification; "
         "visibility programs accepted or rejected as the specification says. Trusts TLC, the splitter and the system linker."),
 "L06": (MYR, "Sampled: seeded programs of closures over arguments, locals and enclosing environments, returned, stored, copied to the heap and called later; every reported value decided by the specification. Same trust as L01."),
 "L07": (MYR, "Sampled: seeded index and slice expressions over arrays, slices, strings, nested and named sequences with bounds of every integer type placed in, at and beyond the limits; the specification decides the value or the trap. Same trust as L01."),
 "L08": (MYR, "Sampled: seeded programs that assign, pass, return, embed, slice and mutate nested structs, tuples, unions and arrays, local and global, with later mutation of either copy; every observation decided by the specification. Same trust as L01."),
 "L09": (MYR, "Sampled: seeded programs with up to twenty live values and parameters of all integer and float widths and aggregates, recursion, and calls placed where many values are live; every observation decided by the specification. Same trust as L01."),
 "L05": (MYR, "Sampled: seeded functions with nested control flow, calls with visible effects, iterators, disposal and deferred increments; every effect and its order decided by the specification. Same trust as L01."),
 "L15": ("explicit TLA+ specification (spec/Variadic.tla): a stack machine over the types and values of the arguments says which report a walk of the argument list must give next; TLC checks the reports recorded from compiled programs, and sizes and offsets of members against the layout rules",
         "Sampled: seeded argument lists over random types (nested structs, unions, tuples, arrays, slices, functions, pointers, named types with long names) behind random fixed arguments; every report decided by the specification. Trusts TLC and the walker in drivers/walk.myr."),
}
NA = {
 "X01": "numeric accuracy of float text conversion is a property of one pure function over reals: TLC has no reals and 32-bit integers, a specification would re-implement the algorithm rather than state it",
 "X02": "accuracy of elementary functions concerns real numbers, which TLA+/TLC cannot evaluate",
 "X03": "correctness of cryptographic primitives is equality with a published function of huge integers and bit vectors: no states or transitions to explore, TLC would be a slow second implementation",
}
