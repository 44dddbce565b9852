"""What every check decides and how: the source of the evidence's level, assumptions and trusted base, and of MANIFEST.json
(`python3-vt tools/manifest.py`)."""

PY = [
    'engine/xform.py and engine/sym.py: extraction and verification-condition generation for the Python functions',
    'engine/xform.py drops: decorators of the extracted function, laziness of generators, __slots__, identity of replaced builtins',
    'z3 5.x',
    'CPython semantics of the operations the proxies model (int, bytes slicing and concatenation, list, dict)',
]
PYRT = PY + [
    'contract of struct.pack/unpack: pack of a value in range is injective, unpack inverts it, struct.error otherwise',
    'contract of list (RefList) behind array fields',
]
CPP = [
    'clang++-18 front end and opt-18 passes sroa, simplifycfg, instsimplify, early-cse: source to LLVM IR',
    'engine/llvm.py, engine/irx.py, engine/intarith.py: IR parser, symbolic executor, bit-vector to integer translation',
    'contracts/stub/vector: contract of std::vector (size, data, resize, operator[])',
    'z3 5.x',
]
CPPA = [
    'schemas: the enumerated set of contracts/cpp.py (every member kind alone and in combinations up to 6 members); for each the proof is for all values, bytes and element counts',
    'types nested in a message are known by the contract of their own generated functions (the same property of the nested type)',
    'element counts are at most 2^32-1 and fit the counter; inputs are at most 2^40 bytes',
    'buffers start 8-aligned, distinct objects do not overlap, bool objects hold 0 or 1, exceptions are off',
    'host is little endian (x86-64); the native codec is compared with the little one',
    'overflow flags (nsw/nuw) of the IR are not obligations',
]
B_PY = 'bounded: all ordered pairs of member kinds plus random structs of up to 6 members and depth 3; random values, both byte orders'
B_CPP = 'bounded: generated schemas compiled with ASan/UBSan; random values, canonical bytes and their mutants'
B_FRONT = 'bounded: generated and mutated inputs from VERIF_SEED'

PROOF = 'contract-based deductive verification (self-generated verification conditions, z3)'
BOTH = PROOF + '; bounded contract evaluation finds the failing input'
IR = 'contract-based deductive verification of the generated code\'s LLVM IR (z3)'
BOUNDED = 'bounded contract evaluation on the real code (stand-in, not counted as proved)'

C = {}


def prop(pid, level, technique, note, trusted=(), assumptions=(), bound='', rule=''):
    C[pid] = {'level': level, 'technique': technique, 'note': note, 'trusted': list(trusted), 'assumptions': list(assumptions),
              'bound': bound, 'rule': rule or 'an evaluation counts as non-trivial when its (type, value or input) differs from all others of the run'}


prop('C01', 'proof', BOTH,
     'Every encoder of the Python runtime returns the canonical bytes of docs/encoding.rst for every value, in both byte orders; '
     'members, elements and arms are arbitrary types known by the same contract (induction over type depth). '
     'Assumed: struct.pack, induction over finite type depth; the generated Python module is bound to the runtime by bounded evaluation.',
     PYRT, ['values are in the domain of their field types', 'r32 values are float32-representable, NaN excluded',
            'generated Python source (class bodies) is covered by the bounded part'], B_PY)
prop('C02', 'proof', BOTH,
     'Given data that carries the canonical encoding at any position, every decoder restores the value and consumes exactly that encoding; for all values and counts. '
     'Assumed: struct.unpack inverts pack; greedy tails that end unaligned are the documented exception.',
     PYRT, ['greedy tails ending unaligned: the documented exception', 'arrays above the 65536 element guard are out of domain',
            'NaN excluded'], B_PY)
prop('C03', 'proof', IR + '; bounded contract evaluation finds the failing input',
     'Generated encode/decode of every schema of an enumerated set write and restore the canonical bytes for all values and counts, native, little and big. '
     'The Python side is C01/C02. The set of schemas is bounded; clang and the std::vector contract are trusted.',
     CPP, CPPA, B_CPP)
prop('C04', 'proof', BOTH,
     'evaluate_sizes and the runtime attribute generators compute the sizes, alignments, paddings and kinds of the specification for structs of any number of members, '
     'and the two agree; raw and full C++ sizes are compared on generated schemas (bounded).',
     PYRT, ['member types are arbitrary nodes known by contract', 'C++ numbers: bounded part'], B_PY)
prop('C05', 'proof', IR + '; bounded contract evaluation finds the failing input',
     'get_byte_size equals the number of bytes encode writes and encode stays inside a buffer of that size, for all values and counts of every schema of an enumerated set.',
     CPP, CPPA, B_CPP)
prop('C06', 'proof', BOTH,
     'For arbitrary bytes every Python decoder returns or raises ProphyError and nothing else; element counts, offsets and lengths are unrestricted. '
     'What is accepted re-encodes canonically: bounded part.',
     PYRT, ['memory and recursion limits of the interpreter are not modelled'], B_PY)
prop('C07', 'proof', IR + '; bounded contract evaluation finds the failing input',
     'For arbitrary input bytes of any length the generated decode reads inside the input, writes inside its objects, requests no memory beyond what the input carries, and accepts exactly '
     'inputs that follow the decoding rules, for every schema of an enumerated set.',
     CPP, CPPA, B_CPP)
prop('C08', 'proof', PROOF + ' of the layout functions and of the emitted declarations; bounded contract evaluation finds the failing input',
     'Sizes, alignments and paddings computed by the model and the raw C++ declarations emitted from them place every member at its wire offset, for symbolic sizes and alignments of the neighbours. '
     'Composition over whole structs follows member by member; partition into parts and composition of more than 3 members are bounded.',
     PY + ['packed/aligned rule of the C++ ABI: a packed struct places members without gaps (probed by static_assert on each run)', 'parser of the emitted declarations in contracts/layout.py'],
     ['enum size is 4 bytes', 'type names are opaque to the emitter', 'partition into parts: enumerated (bounded)'], 'bounded: ordered pairs of member kinds, random structs')
prop('C09', 'proof', IR + '; bounded contract evaluation finds the failing input',
     'Generated prophy::swap of every schema of an enumerated set turns every byte of any valid foreign-endian message into native order, changes nothing else and returns the end of the message, for all contents and counts.',
     [x for x in CPP if 'vector' not in x],
     ['schemas: the enumerated set of contracts/raw.py', 'the message is valid: flags 0 or 1, counts within limits, discriminators of an arm, nested messages as by their own contract',
      'elements of dynamic arrays follow each other inside the message (instantiated monotonicity lemma)', 'the buffer is 8-aligned, at most 2^40 bytes', 'strict aliasing is not exploited'],
     B_CPP)
prop('C10', 'proof', BOTH,
     'Every public mutation starts in an arbitrary valid state with arbitrary arguments; its effect is that of the reference list/field operation, or it is rejected with the state unchanged.',
     PYRT, ['argument kinds are those enumerated in contracts/api.py', 'extend() of a composite array with non-messages: known finding'], B_PY)
prop('C11', 'proof', BOTH,
     'copy_from, field and element copies leave an equal and independent value for structs and unions of any member kinds; nested messages are known by the same contract.',
     PYRT, ['deepcopy is out of scope'], B_PY)
prop('C12', 'exploration', PROOF + ' of the composability rules (rejection); bounded contract evaluation of usability of what is accepted (stand-in)',
     'Proved: the checks of the prophy parser reject every definition that breaks a documented rule, for structs and unions of any number of members. '
     'That what is accepted imports and compiles is decided on generated schemas only (bounded), hence the level.',
     PY + ['ply calls the semantic action of a production with its parts in order'],
     ['an error reported during parsing rejects the schema (contract of ProphyParser.parse, proved)', 'accepted schemas: bounded part'], B_FRONT)
prop('C13', 'exploration', PROOF + ' that the functions under contract raise only designed errors and terminate; bounded contract evaluation of prophyc.main (stand-in)',
     'Proved: the semantic actions and rule checks of the prophy parser, expression evaluation, the file processor, the patch rules and topological_sort raise only their designed errors and their loops end. '
     'That prophyc.main as a whole ends in outputs or a designed diagnostic is decided on generated and mutated inputs (bounded), hence the level.',
     PY + ['ply raises no error of its own on any text', 'os, io and codecs raise only EnvironmentError and UnicodeError'],
     ['isar and sack parsers, option parsing and the generators: bounded part'], B_FRONT)
prop('C14', 'proof', BOTH,
     'Every semantic action of both expression grammars returns the exact value or raises its designed error, for all integers; grouping is decided for every pair of operators in every state of the '
     'LALR table the current grammar yields. The number a text has in the model (to_int, Constant.eval_int) for all texts and values.',
     PY + ['ply: the LALR automaton is run as its table says; regular expressions of the lexer as by re'],
     ['`|` is not one of the operators of the property', 'isar literals that look octal are decimal'], B_FRONT)
prop('C15', 'exploration', PROOF + ' of topological_sort and dependencies(); bounded contract evaluation of whole compilations (stand-in)',
     'Proved, for any number of nodes in any order: topological_sort ends, leaves a permutation in which everything a node depends on comes before it, and rejects no acyclic set; '
     'dependencies() of every kind of definition gives exactly the names it uses. '
     'Equal layouts and the import of the generated module are decided on permuted isar files (bounded), hence the level.',
     PY, ['no name is defined twice and none is the name of a built-in type', '_find_symbols finds the identifiers of a text (regular expression): bounded part', 'collection of the definitions from XML: bounded part'], B_FRONT)
prop('C16', 'exploration', PROOF + ' of the include search, the file cache and the definitions an include brings; bounded contract evaluation of split schemas against their concatenation (stand-in)',
     'Proved, for any number of directories and files: an include is the first existing file of the search path with the directory of the including file first, the path is restored afterwards also on failure, '
     'a file is processed once and its result reused, cycles and unreadable files give the designed errors; an include brings all definitions of its file and of the files included there, in their order. Equality of the outputs is decided on generated splits (bounded), hence the level.',
     PY + ['os.path as documented: join, dirname, abspath and isfile are functions of their arguments'],
     ['the file system does not change during a run', 'restricted to the prophy language'], B_FRONT)
prop('C17', 'exploration', PROOF + ' of the patch rules, the isar elements and the prophy member forms; bounded contract evaluation of isar against prophy text (stand-in)',
     'Proved: every patch rule does exactly what is documented or is rejected, for any number of members and parameters; every isar element, with any texts as attributes and any number of children, becomes '
     'the documented definition, as does the prophy text of each member form. Layout equality of the two front ends as a whole is decided on generated schemas (bounded), hence the level.',
     PY + ['str methods as documented: upper() and lower() keep emptiness, a formatted number reads back as that number'],
     ['expand_operators keeps the empty text and plain numbers (its expansion is decided by C14)', 'an isar size2 comes with a size', 'an isar enumerator is no smaller than -2**32', 'reading of the patch file: bounded part'], B_FRONT)
prop('C18', 'proof', PROOF + ', generated C++ on its LLVM IR; bounded contract evaluation finds the failing input',
     'Generated C++ print of every schema of an enumerated set inserts exactly the canonical sequence of text parts, for all values and counts; indentation and byte escapes for all bytes; '
     'the Python printer on opaque values emits the same text. Formatting of one number by ostream and by repr is assumed to agree.',
     CPP + ['contract of std::ostream: an insertion appends its text (ghost output stream)'],
     ['%g and the default stream format print the same float', 'public message::print(), std::string and std::stringstream are covered by the bounded part',
      'Python indentation of nested text: up to 3 lines (bounded)'] + CPPA, B_PY)
prop('C19', 'proof', BOTH + '; generated C++ on its LLVM IR',
     'The Python encoders and the generated C++ encoders emit, for the two byte orders, bytes that differ only by reversing every scalar in place; for all values and counts (C++: of an enumerated set of schemas).',
     PYRT + CPP, CPPA, B_PY)
prop('C20', 'exploration', PROOF + ' that files do not influence each other through the evaluator, the parser and the file processor; bounded contract evaluation of repeated compilations (stand-in)',
     'Proved, for arbitrary state left by earlier files: expressions see the constants of their own file only, every file is parsed by a parser of its own, the search path is restored after every file, '
     'and a file gives the same result again. That repeated, reordered and relocated compilations give identical files is decided on generated schemas (bounded), hence the level.',
     PY + ['ply keeps nothing of an earlier text when it parses the next one'], ['the generators and the order of sets: bounded part'], B_FRONT)


_SCH = 'schemas: every ordered pair of member kinds, random triples and random nested schemas; '
for _p, _r in {
    'C01': _SCH + 'random values, both byte orders; distinct (type, canonical bytes)',
    'C02': _SCH + 'random values, both byte orders; distinct (type, bytes)',
    'C03': _SCH + 'compiled with the sanitizers, canonical bytes of random values; distinct (type, bytes)',
    'C04': _SCH + 'sizes of model, Python module and C++; distinct (source, type)',
    'C05': _SCH + 'random values, also filled beyond limits; distinct (type, byte order, bytes)',
    'C06': _SCH + 'canonical bytes, truncations, mutations and random bytes; distinct (type, accepted bytes or length)',
    'C07': _SCH + 'canonical bytes, truncations, mutations and random bytes under ASan/UBSan; distinct (type, bytes)',
    'C08': _SCH + 'offsets and sizes of every member; distinct (type, table of offsets)',
    'C09': _SCH + 'foreign-endian messages of random values; distinct (type, bytes)',
    'C10': 'random histories of public operations on a message and its reference model; distinct (type, history, step)',
    'C11': 'random messages, copies by every public way, then mutations of either side; distinct (type, state)',
    'C12': 'random schemas, one breaker per rule, token mutants; distinct schema texts',
    'C13': 'mutated schema text, isar XML, patches, include graphs and options; distinct (verdict, message or text)',
    'C14': 'random expressions in every place that takes one, both front ends; distinct expression texts',
    'C15': 'random dependency graphs, permuted; distinct isar texts',
    'C16': 'random splits of a schema over files and directories; distinct (type, whole schema)',
    'C17': 'random schemas spelled in isar, disguised and repaired by a patch; distinct (type, XML)',
    'C18': _SCH + 'random values; distinct (type, text)',
    'C19': _SCH + 'random values in both byte orders; distinct (type, bytes)',
    'C20': 'repeated runs over hash seeds, directories, orders and companions; distinct (run, outputs)',
}.items():
    C[_p]['rule'] = _r
