CLAIMS["C06"] = ("property-based testing: random expression trees rendered in random spellings, against an independent parser and evaluator with error bounds", "random exploration with shrinking; values compared within the reference's rounding bound; cases the documentation leaves open are not judged")
CLAIMS["C07"] = ("grammar-based and mutational fuzzing of expressions, equations and systems against an independent recogniser", "random exploration with shrinking; texts whose well-formedness the documentation leaves open are only required not to crash or hang")
CLAIMS["C08"] = ("stateful property-based testing: sequences of calls of compiled functions against the reference evaluator with a model of the variables", "random exploration with shrinking; trusts the reference evaluator")
CLAIMS["C09"] = ("stateful property-based testing: histories of assignments and updates against a clamping model", "random exploration with shrinking")
CLAIMS["C10"] = ("property-based testing: function families with planted roots and recorded evaluations; acceptance and convergence conditions as oracle", "random exploration with shrinking; convergence is required only in families where the documented method converges")
CLAIMS["C11"] = ("property-based testing: planted linear and mildly nonlinear systems under chosen hash seeds; residual and convergence conditions as oracle", "random exploration with shrinking; convergence is required only for well-conditioned systems")
CLAIMS["C12"] = ("property-based testing: equations with planted roots, the answer put into the reference evaluation of both sides; context compared before and after", "random exploration with shrinking; convergence is required only in families where the documented method converges")
CLAIMS["C13"] = ("stateful property-based testing: histories of offered equations against a set model of unknowns", "random exploration with shrinking")
CLAIMS["C14"] = ("property-based testing: planted systems, the answer put into the reference evaluation of every equation, bounds checked, under chosen hash seeds", "random exploration with shrinking; convergence is required only for well-conditioned systems")
CLAIMS["C15"] = ("stateful property-based testing: call histories of the C interface against the library, under an allocator that detects double release, leaks and writes after release", "random exploration with shrinking; memory errors other than those the allocator sees (out-of-bounds reads) are not detected")
CLAIMS["C16"] = ("property-based testing: programs generated backwards from a planted solution, in permuted order and under chosen hash seeds; the answer put into the reference evaluation of every equation", "random exploration with shrinking; only properly constrained programs whose groups the documented method solves are required to be solved")
CLAIMS["C17"] = ("metamorphic property-based testing: decorated programs against their plain counterpart with a planted solution", "random exploration with shrinking; spellings the documentation leaves open are not generated")
CLAIMS["C18"] = ("property-based testing: programs with nested conditional blocks generated from a tree against a planted solution of the selected branches; malformed blocks must be refused", "random exploration with shrinking")
CLAIMS["C19"] = ("property-based testing: random units of a grammar of the harness; identity, reciprocity, chains, composition from parts, and published definitions as oracle", "every pair of named units within a quantity is covered, derived units are sampled; published values compared to 0.05 %")
CLAIMS["C20"] = ("stateful property-based testing of the C interface under a tracking allocator, and differential runs of the built nxc in scratch directories against the library", "random exploration with shrinking; options given twice or unknown are not judged")
CLAIMS["C21"] = ("property-based testing: random circuits in two orders under chosen hash orders; element laws, node balances and an independent modified nodal analysis as oracle", "random exploration with shrinking; solving is required for well-conditioned circuits only")
CLAIMS["C22"] = ("property-based testing: random heat-transfer models in two orders under chosen hash orders; element laws, node balances and an independent nodal analysis as oracle", "random exploration with shrinking; solving is required for well-conditioned models only")
CLAIMS["C23"] = ("structure-aware fuzzing of models and their texts against an independent validator", "random exploration with shrinking; results of badly conditioned models are only checked for finite numbers")
CLAIMS["C24"] = ("stateful property-based testing: histories of builder steps against a model, the texts read by an independent JSON reader, round trips", "random exploration with shrinking; numbers of more than 15 digits may be a few units in the last place off after reading")
CLAIMS["C25"] = ("differential property-based testing: runs of the built neapolitan in scratch directories against the library and the laws of the network", "random exploration with shrinking; options given twice or unknown are not judged")
CLAIMS["C26"] = ("property-based testing: random bindings of custom element types of 1 to 4 components; their laws and an independent multi-component nodal analysis as oracle", "random exploration with shrinking; nonlinear elements are mildly so")
CLAIMS["C27"] = ("stateful property-based testing: histories of joining, fixing, setting and dropping nodes against a model of potentials, connections and laws", "random exploration with shrinking; fluxes are compared after the sources were asked for theirs, circles of sources only have to end")
CLAIMS["C28"] = ("property-based testing: planted programs whose reported procedure is read back and followed, step by step, by a model of the known names; library, C interface and command line", "random exploration with shrinking; equations of programs with declarations are followed in compiled form")
CLAIMS["C29"] = ("stateful property-based testing: call histories in compiled C++ and C programs against the Rust library, under AddressSanitizer and a count of what stays allocated", "random exploration with shrinking; the libraries the programs link to are not instrumented, only their allocations are watched")
