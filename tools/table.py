PROPS = [
dict(id='C01', title='Every evaluator walks the document as one balanced traversal',
 statement='During a validation every evaluator drives the document parser as a well formed depth first walk: it descends only into a current element that is not a leaf, every descent is undone exactly once at the same level before that level moves on, it reads the value only after a successful move, and it looks at no more siblings after the end of a level. It stops early only when the verdict can no longer change, and parser failures other than the end of a level end the validation with that failure.',
 over=['inputs','programs'], forall='every grammar, every document and every parser behaviour (including failures at any point)',
 why='The tests run a few hundred fixed documents whose parsers do not fail in the middle; the walk has to be right for every shape of document and every failure point.',
 files=['relapse/interp/deriv.go','relapse/intern/deriv.go','relapse/mem/deriv.go','relapse/auto/auto.go','relapse/auto/deriv.go'],
 mech=[('derivative loops','deriv in relapse/interp, relapse/intern, relapse/mem, relapse/auto'),('early exit tests','escapable in the same packages')],
 technique='path-sensitive typestate analysis of the parser protocol over SSA, with function summaries',
 note='All paths of the recursive walks are covered with loops widened to a fixed point; trusts the SSA form, and that the recursive call itself is balanced (induction on depth). Parsers supplied by callers are assumed to follow their documented interface.'),
dict(id='C02', title='Emptiness of a pattern is computed exactly for every kind of pattern',
 statement='For every pattern the evaluators agree on whether it accepts the empty sequence of elements, and the answer follows the definition of each kind of pattern (alternatives: any part; concatenation, interleaving and conjunction: all parts; negation: the opposite; repetition, option and wildcard: always; element conditions: never; references: the referenced pattern). The final verdict of a validation is that answer for what is left of the grammar.',
 over=['programs'], forall='every pattern, of any size and nesting, in every evaluator',
 why='The tests evaluate a fixed list of patterns; the emptiness rule has to hold for each kind of pattern and any number of parts in each of the separate implementations.',
 files=['relapse/interp/nullable.go','relapse/intern/construct.go','relapse/intern/nullable.go','relapse/auto/compiler.go','relapse/mem/mem.go'],
 mech=[('Nullable','relapse/interp/nullable.go'),('nullable field of interned patterns','relapse/intern/construct.go'),('emptiness vectors','nullables in relapse/intern and relapse/auto')],
 technique='symbolic path enumeration per pattern kind compared with the defining boolean equation',
 note='Decides each implementation for every kind and every number of parts (loops are summarised as all/any). Recursion through references is taken by induction; left recursive grammars are outside the claim.'),
dict(id='C03', title='The two passes of a derivative visit the conditions in the same order',
 statement='When an element is consumed, the results of the conditions asked for its children are credited to exactly the pattern that asked for them, in every evaluator. For every pattern the number and order of conditions asked is the number and order of answers used, also through nullable parts of a concatenation, references and nested kinds, and each condition is paired with its own accepting pattern and with rejection otherwise.',
 over=['programs','inputs'], forall='every pattern, every combination of parts that can be empty, every document',
 why='A mismatch needs a particular nesting of nullable parts with conditions that give different answers; the fixed suite samples few such nestings.',
 files=['relapse/interp/deriv.go','relapse/intern/deriv.go','relapse/auto/deriv.go','relapse/mem/deriv.go','relapse/intern/ifs.go'],
 mech=[('call pass','derivCall, derivCalls, DeriveCalls'),('return pass','derivReturn, derivReturns, DeriveReturns')],
 technique='path enumeration over SSA of sibling passes and comparison of their visit sequences',
 note='Exhaustive over kinds of pattern and nullability assumptions; interned child lists are enumerated for 1 to 3 parts. Recursion is taken by induction on patterns.'),
dict(id='C04', title='What is left of a pattern after an element is its derivative',
 statement='After consuming an element, the pattern an evaluator continues with at that level accepts exactly the remaining sequences that would have completed the original pattern. This holds for every kind of pattern and whichever of its parts can be empty.',
 over=['programs','inputs'], forall='every pattern, every result of the conditions of the element',
 why='The tests only compare verdicts on fixed documents; wrong remainders show only on later siblings of specific combinations.',
 files=['relapse/interp/deriv.go','relapse/intern/deriv.go','relapse/auto/deriv.go'],
 mech=[('return pass','derivReturn in relapse/interp, relapse/intern, relapse/auto')],
 technique='path enumeration over SSA and comparison with the unfolded definition modulo a language preserving rewriting system',
 note='Exhaustive over kinds and nullability assumptions; interned child lists for 1 to 3 parts. Equality is modulo an equational theory of patterns that is sound; equal patterns it can not prove equal would be reported as undecided.'),
]
PROPS += [
dict(id='C05', title='Simplifying or constructing a pattern never changes what it accepts',
 statement='Every rewrite preserves the language of the pattern: the pattern returned by the simplifier accepts exactly the documents of the pattern it was given, the pattern returned by a constructor of interned patterns accepts exactly what the operator applied to its parts accepts, and translating a grammar pattern into an interned one changes nothing. Dropping neutral or absorbing parts, flattening, sorting, removing duplicates, merging elements with equal names, merging leaf conditions, replacing a pattern by a reference to an equal declaration and the record optimisation are only done where they are sound.',
 over=['programs'], forall='every pattern and every combination of kinds of its parts, with and without the record option',
 why='A wrong rewrite shows only for a particular combination of kinds of neighbouring parts and only on documents that tell the two patterns apart; the suite samples few.',
 files=['relapse/interp/simplify.go','relapse/interp/order.go','relapse/intern/construct.go','relapse/intern/order.go'],
 mech=[('simplifier','simplify and simplifyX in relapse/interp/simplify.go'),('constructors of interned patterns','NewX, MergeOr, MergeAnd and NewPattern in relapse/intern/construct.go'),('reference lookup','checkRef in both packages')],
 technique='path enumeration over SSA with a path-fact reading of patterns, compared modulo a sound equational theory of patterns',
 note='Lists are enumerated for 1 to 3 parts (interned) and for one composite operand (syntax tree); a sort is modelled by reversing. Pattern equality, hashing and the meaning of conditions (And, Or, IsTrue, IsFalse) are taken as given, see C08 and C17. An equality the theory cannot prove is reported.'),
]
PROPS += [
dict(id='C06', title='A clone of a grammar is complete and shares nothing with the original',
 statement='Cloning a grammar, a pattern, an expression or a table of declarations returns a value in which every part equals the part of the original, a part that is absent stays absent, and no pointer, list or map is shared between the two, at any depth. The original is not modified.',
 over=['programs'], forall='every grammar, pattern and expression, with any combination of absent parts',
 why='A forgotten or shared field shows only when that optional part is present and one of the two values is changed later; the tests never change a clone field by field.',
 files=['relapse/ast/clone.go','relapse/ast/derived.gen.go'],
 mech=[('Clone','Clone methods in relapse/ast/clone.go'),('deriveDeepCopy functions','relapse/ast/derived.gen.go')],
 technique='per-field ownership and completeness analysis by path enumeration over SSA',
 note='Every copying function reachable from a Clone method, for each field absent and present. Nesting is taken by induction over the copying functions. Protobuf internal fields (XXX_) hold no part of a grammar; nil and empty lists are the same part.'),
dict(id='C08', title='Equality, comparison and hash of patterns and conditions agree',
 statement='Two grammars, patterns, expressions, interned patterns, sets or conditions compare equal exactly when all their parts are equal, the comparison orders of patterns and conditions are consistent (comparing the same two values both ways gives opposite signs and zero means equal), and values that are equal have equal hashes. The hash of a condition is computed from the operator and all of its operands at construction.',
 over=['programs'], forall='every pair of values of the same type, with any combination of absent parts',
 why='A part left out of a comparison makes two different patterns the same entry in caches and sorted lists; this shows only for pairs that differ in just that part.',
 files=['relapse/ast/derived.gen.go','relapse/ast/compare.go','relapse/intern/pattern.go','relapse/intern/derived.gen.go','relapse/mem/derived.gen.go','relapse/sets/derived.gen.go','relapse/funcs'],
 mech=[('Equal and Compare','methods in relapse/ast, relapse/intern and every condition in relapse/funcs'),('hashes','Hash in relapse/ast, SetHash in relapse/intern, constructors in relapse/funcs')],
 technique='path enumeration over SSA of comparison functions against the fields of the compared type, with constructor and hash effect summaries',
 note='All comparison functions and all condition kinds. The order is claimed among values of the same type. Spelling of a literal is part of what is compared for the syntax tree; nil and empty lists are the same; different Go types are assumed to print different text. One known finding (hash of a literal).'),
]
PROPS += [
dict(id='C26', title='Walking a grammar visits every part exactly once, parents before children',
 statement='Walking any node of the syntax tree shows that node to the visitor once, before anything below it, and then walks every part below it that is present exactly once, with the visitor returned for the node. Patterns, declarations, names, and the operands of list, function and builtin expressions are all reached (expressions of leaf conditions are documented not to be). Whether a grammar contains a negation is answered over all of it.',
 over=['programs'], forall='every grammar and visitor',
 why='A part that is skipped matters only for grammars that have it in that position; each of the thirty kinds of node has its own code.',
 files=['relapse/ast/walk.go'],
 mech=[('Walk methods','relapse/ast/walk.go'),('HasNot','relapse/ast/walk.go')],
 technique='path enumeration over SSA of every Walk method against the parts of its struct type',
 note='Every Walk method with each part absent and present, lists of 0 to 3 elements; depth is by induction.'),
dict(id='C29', title='Variables and user context reach every function of every condition',
 statement='Before a condition is evaluated on a value, every variable anywhere in it, at any depth and inside lists, has been set to that value, and the result of the evaluation is returned unchanged. A user supplied context is set on every function that takes one, in every condition of every declaration of the grammar and in every condition built later. A variable evaluates to the value set last, read as its own type, and gives an error when nothing was set or the value has another type.',
 over=['programs','inputs'], forall='every condition and every grammar',
 why='Binding is done by reflection over all kinds of conditions and by recursion over all kinds of patterns; a miss shows only for conditions nested in that particular place.',
 files=['relapse/compose/bool.go','relapse/intern/context.go','relapse/intern/construct.go','relapse/funcs/variable.gen.go','relapse/mem/mem.go','relapse/auto/funcs.go'],
 mech=[('FuncImplements, NewBoolFunc, SetContext','relapse/compose/bool.go'),('setContext','relapse/intern/context.go'),('variables','relapse/funcs/variable.gen.go')],
 technique='path enumeration over SSA with a model of reflection, and type queries over every kind of condition',
 note='Nodes with 0 to 2 operands and lists of 0 to 2 elements stand for all sizes. Functions registered by users are assumed to keep their operands in fields like those of the package.'),
]
PROPS += [
dict(id='C32', title='The decision tree of a state answers like evaluating each of its conditions alone',
 statement='For a state with any list of conditions, and any value, the decision tree the memoizing evaluator builds lazily and the one the automaton compiles lead to the list that has, in order, the accepting pattern of each condition that holds on the value and the rejecting pattern of each condition that does not, whatever values were looked up in the tree before. Conditions are only left out where equality, implication or contradiction with conditions already decided on that branch settles them. An error of a condition that is evaluated is returned. The state and stack element that are continued with are those of this list.',
 over=['programs','inputs','histories'], forall='every list of conditions, every value, every history of lookups',
 why='A wrong shortcut needs a state with conditions that imply or exclude each other in a particular order and a value on the wrong side of them.',
 files=['relapse/mem/ifs.go','relapse/auto/ifs.go','relapse/auto/call.go'],
 mech=[('lazy tree','newIfExprs, ifNode.eval and Mem.eval in relapse/mem/ifs.go'),('compiled tree','compileIfExprs, newCallTree and callNode.eval in relapse/auto')],
 technique='path enumeration over SSA of building and evaluating the tree, each path judged against the truth table of what it has learned',
 note='Lists of 0 to 3 conditions; memoized trees are looked up twice with unrelated values (quick: once for 3 conditions). The meaning of And, Or, Not and Equal on conditions is taken from C08 and C17.'),
]
PROPS += [
dict(id='C07', title='What a cache of an evaluator answers depends only on what it is asked',
 statement='The memoizing evaluator and the automaton answer from their caches what they would compute: the conditions, nullability, acceptance, escapability and remainder looked up for a state are those of that state (and of that result of its children), whatever states and documents were looked up before. The sets that number patterns, bits, indexes and pairs give one index to equal values and different indexes to different values, and never change or renumber what they hold. Each numbered list of patterns is described (nullability, escapability, acceptance, zipped form) by its own patterns.',
 over=['histories','inputs'], forall='every history of lookups and additions',
 why='A cache that mixes up keys gives a wrong verdict only for particular sequences of documents, or for lists with equal hashes.',
 files=['relapse/mem/mem.go','relapse/auto/compiler.go','relapse/sets/indexset.go','relapse/sets/bits.go','relapse/intern/sets.go'],
 mech=[('caches','getCall, getReturn in relapse/mem; getCallTree, getReturn, getNullable, getAccept, escapable in relapse/auto'),('sets','Index and Add in relapse/sets, Bits.Equal, SetOfPatterns in relapse/intern')],
 technique='path enumeration over SSA of short histories of lookups with a provenance comparison',
 note='Histories of 2 lookups (thorough: 3) with keys 0, 1, 2, 3 and 5; 3 additions to sets of elements with 0 to 2 parts, 2 additions of lists of 0 to 2 patterns (each with its zipped forms). Hashes are arbitrary values that are equal for equal lists.'),
]

PROPS += [
dict(id='C34', title='A verdict is whether what remains of the main pattern after every element, in order, is nullable',
 statement='Every evaluator (interpreting, interning, memoizing, and the automaton, compiled ahead or while walking) starts with the main pattern, asks for each element the conditions of exactly the patterns that remain after the elements before it, validates the children of the element against exactly the answers, takes the remainder of the same patterns with the nullability of what the children leave (of the answers themselves for an element without children), and returns whether the single pattern that remains at the end is nullable. The tables that are read on the way (conditions, nullability, acceptance, remainders of a state) are computed from the patterns of that state. An error of the parser or of a condition is returned.',
 over=['inputs'], forall='every grammar and document',
 why='A wrong state at one step of a fold shows only for documents with a particular sequence and nesting of elements.',
 files=['relapse/interp/deriv.go','relapse/intern/deriv.go','relapse/mem/deriv.go','relapse/mem/mem.go','relapse/auto/auto.go','relapse/auto/deriv.go','relapse/auto/compiler.go'],
 mech=[('walks','deriv in interp, intern, mem, auto; compileDeriv in auto'),('entry points','Interpret, Validate'),('tables','getCall, getReturn in mem; getCallTree, getReturn, getNullable, getAccept in auto')],
 technique='typestate and provenance analysis over SSA paths of the walks',
 note='Walks are followed for up to three elements with 0 to 2 conditions; nested documents are one opaque answer. Down and Up are C01, the meaning of one derivative step C03 and C04.'),
dict(id='C35', title='The compiled automaton has an entry for everything an evaluation looks up',
 statement='When compilation of the automaton ends without an error, every state (including those that appear while others are compiled) has its conditions, nullability, acceptance and escapability, and for every leaf of the conditions of a state and every combination of nullability of the patterns of its child there is a remainder. A child with more patterns than can be counted is refused with an error.',
 over=['inputs'], forall='every grammar',
 why='A missing entry is silently the initial state (a map lookup yields 0), and shows only for documents that reach that combination.',
 files=['relapse/auto/compile.go','relapse/auto/call.go','relapse/sets/bits.go'],
 mech=[('compile','compile, getLeafs, Bits.Inc')],
 technique='path enumeration over SSA on abstract state spaces with an obligation per table entry',
 note='State spaces of up to 5 states, trees of up to 3 leaves, children of up to 3 patterns (thorough: 5).'),
]

PROPS += [
dict(id='C28', title='Unzipping what was zipped puts every pattern, or its bit, back in its place',
 statement='Zip sorts and deduplicates a list of patterns and takes out those that match everything and those that match nothing, without changing the list it was given; the indexes it returns lead Unzip to a pattern equal to the original one at each position, and UnzipBits to the bit of that pattern (true for the pattern that matches everything, false for the one that matches nothing). This holds for the parsed and for the interned patterns, also when different patterns have equal hashes. A set of bits returns for each index the bit that was last set for it, setting one bit changes no other, and Inc counts to the next number.',
 over=['inputs'], forall='every list of patterns and every size of a bit set',
 why='A wrong index needs particular repetitions, orders or hash collisions in one list; a wrong bit needs more than 64 of them.',
 files=['relapse/sets/zip.go','relapse/sets/sort.go','relapse/sets/bits.go','relapse/intern/zip.go','relapse/intern/order.go'],
 mech=[('zip','Zip, Unzip, UnzipBits in relapse/sets; Zip, Unzip in relapse/intern; the sorters'),('bits','NewBits, Get, Set, Inc in relapse/sets')],
 technique='path enumeration over SSA on lists with every pattern of equality, equal hashes and order, and provenance of single bits',
 note='Lists of up to 3 patterns (thorough: 4) of every combination of kinds, equalities, hash collisions and sort orders; bit sets of 14 sizes up to 400. sort.Sort is assumed to put elements in some order by calling Swap.'),
]

PROPS += [
dict(id='C36', title='Each condition function computes what its name says',
 statement='The registered condition functions compute what the list of functions documents: comparisons (eq, ne, lt, le, gt, ge) compare their operands in the order given and with the order of their kind, and are false when an operand has no value; type says whether the operand has a value; not, and, or are the boolean operations (and and or evaluate the second operand only when needed); contains, length, elem, range, regex and the string functions return what the operation returns on the values of the operands, and the error of an operand that has none. A variable yields the value of its kind that was last set, an error when the value is of another kind.',
 over=['inputs'], forall='every value of every operand, including operands that fail',
 why='A function has a behaviour for each combination of operand values and failures and exists once per kind; the tests evaluate a few of them.',
 files=['relapse/funcs/compare.gen.go','relapse/funcs/logic.go','relapse/funcs/elem.gen.go','relapse/funcs/range.gen.go','relapse/funcs/length.gen.go','relapse/funcs/inset.gen.go','relapse/funcs/string.go','relapse/funcs/regex.go','relapse/funcs/type.gen.go','relapse/funcs/variable.gen.go','relapse/funcs/list.gen.go'],
 mech=[('Eval','the Eval methods of relapse/funcs, found through the registrations'),('SetValue','the variables')],
 technique='path enumeration over SSA of every constructor and its Eval against a table of what each name means',
 note='Operands are opaque values; every path and every outcome (value, error) of each operand is followed. The functions of the standard library that are called are taken by name. print and the functions of time are not covered.'),
dict(id='C13', title='A condition is evaluated ahead of time only when it depends on no variable',
 statement='HasVariable of a condition or expression is true whenever one of its operands has a variable; the simplification that replaces a condition by its value does so only when it has no variable and its evaluation gives no error, and replaces it by that value. What cannot be known ahead of time (printing, the current time) counts as a variable.',
 over=['inputs'], forall='every condition built from the registered functions',
 why='A wrong flag for one operand position of one function of one kind freezes the condition to whatever it is without a value, for grammars that use that position only.',
 files=['relapse/funcs/const.gen.go','relapse/funcs/compare.gen.go','relapse/funcs/logic.go','relapse/funcs/list.gen.go','relapse/funcs/string.go','relapse/funcs/regex.go','relapse/funcs/elem.gen.go','relapse/funcs/range.gen.go','relapse/funcs/length.gen.go','relapse/funcs/inset.gen.go'],
 mech=[('flags','hasVariable of every function'),('folding','the Trim functions in relapse/funcs/const.gen.go')],
 technique='path enumeration over SSA of every constructor with each operand constant or not',
 note='Every combination of operands with and without a variable; list literals of up to 2 operands (thorough: 3).'),
dict(id='C16', title='List functions never read outside the list; negative positions count from the end',
 statement='elem and range return the element, or the elements, at the positions given, where a negative position counts from the end of the list; a position outside the list, or a range that ends before it starts, is an error and never a panic. length is the number of elements, and a list of expressions evaluates to the values of the expressions in order.',
 over=['inputs'], forall='every length of a list and every position',
 why='The functions exist once per kind of list, and only positions at or past the ends of a list show the mistake.',
 files=['relapse/funcs/elem.gen.go','relapse/funcs/range.gen.go','relapse/funcs/length.gen.go','relapse/funcs/list.gen.go'],
 mech=[('list functions','Eval of elem, range, length and list literals of every kind')],
 technique='path enumeration over SSA with bounds obligations at every index and slice expression',
 note='Lists of 0 to 3 elements (thorough: 4) and every position from below minus the length to above it; list literals of up to 2 operands (thorough: 3).'),
dict(id='C17', title='Simplifying and, or and not keeps what a condition means',
 statement='The condition that And, Or and Not construct holds for a value exactly when the conditions they were given say so, whatever they are simplified to: for comparisons of a variable with a constant, with another expression or with itself, constants, negations and other conditions, of values of the kind of the comparison and of other kinds. IsTrue and IsFalse hold only of the constant conditions, and IsSimpleEqual only of an equality of a variable with a constant.',
 over=['inputs'], forall='every pair of conditions and every value',
 why='Each simplification applies to a particular pair of conditions and goes wrong for particular values only.',
 files=['relapse/funcs/logic.go','relapse/funcs/register.go','relapse/funcs/const.gen.go','relapse/funcs/compare.gen.go'],
 mech=[('constructors','And, Or, Not in relapse/funcs'),('tests','IsTrue, IsFalse, IsSimpleEqual')],
 technique='path enumeration over SSA of constructors and of Eval of what they construct, compared with the meaning of the condition',
 note='Pairs of comparisons (eq, ne, lt, ge) of six kinds with two constants, nested one level with negation, conjunction and disjunction (thorough: all nestings); values equal to each constant, to neither and of another kind; opaque conditions that hold, do not hold or fail. Equal conditions are recognised by Compare, which is C08.'),
]

PROPS += [
dict(id='C18', title='A parser walks the tree of its document',
 statement='After Down a json, yaml, protocol buffer or reflect parser is at the start of the value it was at and of nothing else, and Up restores the state from before Down (a repeated protocol buffer field moves its parent past what was read of it). Next moves from one member, element or field to the next, with its own name or index and extent, leaves out nothing but absent (nil) and unknown fields, and returns io.EOF at the end and only there; at a leaf it succeeds once. For yaml this covers Down, Up and leaves only.',
 over=['inputs','histories'], forall='every document and every way of walking it',
 why='A part of the state that is not saved, restored or started anew shows only where a walk leaves a particular kind of value for another.',
 files=['parser/json/json.go','parser/proto/proto.go','parser/reflect/reflect.go','parser/yaml/yaml.go'],
 mech=[('stack','Up, Down of the four parsers'),('steps','Next of the json, protocol buffer and reflect parsers, skipRepeated'),('extent','scanValue and what it calls; length in parser/proto')],
 technique='path enumeration over SSA of Up, Down and Next from an arbitrary state with an obligation per field of the state',
 note='Arbitrary states; stacks of up to 3. Functions that loop over bytes are opaque (their result is what is checked for provenance); merging of protocol buffer fields is documented as unsupported. Next of the yaml parser (described as unfinished) is not covered.'),
dict(id='C19', title='Init and Reset start over',
 statement='After Init nothing of an earlier walk, finished or not, influences a json, yaml, xml, protocol buffer or reflect parser; Reset, called anywhere in a walk, is Init with the document that was given last.',
 over=['histories'], forall='every history of a parser before Init or Reset',
 why='A field that keeps its value matters only after a walk that stopped at a particular place.',
 files=['parser/json/json.go','parser/yaml/yaml.go','parser/xml/parser.go','parser/proto/proto.go','parser/reflect/reflect.go'],
 mech=[('start','Init, Reset of the five parsers')],
 technique='dataflow over SSA paths: no value of the earlier state reaches a field after Init; provenance of the document',
 note='Any earlier state; Reset at the top and 1 or 2 levels down.'),
dict(id='C20', title='An accessor of a parser returns a value only where there is one of its kind',
 statement='Double, Int, Uint, Bool, String and Bytes of the json, yaml, xml and reflect parsers return the current value when there is one of that kind (a number with an integral value is an integer), String the name of the current field or element, Int the index of the current element of a list, and an error everywhere else; they never panic.',
 over=['inputs'], forall='every value at every position of a document',
 why='There are six accessors for each kind of position and value; a wrong one shows only for conditions of one kind on values of another.',
 files=['parser/json/json.go','parser/yaml/yaml.go','parser/xml/parser.go','parser/reflect/reflect.go'],
 mech=[('accessors','Double, Int, Uint, Bool, String, Bytes of the four parsers')],
 technique='path enumeration over SSA of every accessor from an arbitrary state, per outcome of every call',
 note='strconv, strings and reflect are taken by name. The xml parser reads numbers from any text, as documented by its tests. The protocol buffer parser is C21.'),
]

PROPS += [
dict(id='C21', title='Protocol buffer values and field keys are decoded as the wire format defines them',
 statement='For every type of field the accessors of the protocol buffer parser decode the bytes of the current value as the protocol buffer wire format defines the type: little-endian fixed numbers, varints in two\'s complement, zigzag for sint, the bit pattern of floats, any nonzero varint as true, strings and bytes as they are; an accessor for a kind the type does not have gives an error, the name is the name of the field, the index of an element is its position, and a value with too few bytes is an error. The bytes of the key of each field and of its packed form are the varint of the number and wire type the descriptor gives.',
 over=['inputs'], forall='every field type, every value of its bytes and every field number',
 why='There are some twenty wire types with six accessors each, and the bits that decide are reached only by negative, large or truncated values.',
 files=['parser/proto/proto.go','parser/proto/desc.go'],
 mech=[('values','Double, Int, Uint, Bool, String, Bytes of the protocol buffer parser'),('keys','keys of fields in parser/proto/desc.go'),('varints','decoding of varints')],
 technique='path enumeration over SSA per field type, with bit-level tracing of every bit of a value to the bit of the buffer it comes from',
 note='Varints of 0 to 11 bytes with every bit symbolic. A conversion between a float and its bits through unsafe pointers is recognised; the machine is taken to be little endian as the implementation assumes. Extensions and the lookup of messages by name are not covered.'),
]

PROPS += [
dict(id='C38', title='The json parser reads the tokens the grammar of json defines',
 statement='Every string, number, literal, array and object that is well formed is read from its first byte to its last and to nothing beyond, with white space allowed between tokens; malformed strings, literals, brackets that are never closed and missing colons, commas and values are an error and not the end; the name of a member is the text its string stands for, with escapes, pairs of surrogates and invalid UTF-8 read as the Go standard library does; no document makes the parser panic.',
 over=['inputs'], forall='every document',
 why='A scanner has a branch for each byte in each state, and a wrong one shows only for documents that have that byte there.',
 files=['parser/json/json.go','parser/json/unquote.go'],
 mech=[('scanner','Next and Init of the json parser and all they call'),('text','unquote')],
 technique='path enumeration over SSA with unknown bytes; the set of bytes of each path is compared with an automaton of the grammar of json',
 note='All documents of up to 4 unknown bytes from each position (thorough: 5), and up to 6 unknown bytes after some 25 beginnings (inside strings, escapes, numbers, literals and nested values); names of up to 4 unknown bytes and some 800 names with escapes and characters above U+007F. A number that is not well formed, mismatched brackets inside a value that is skipped, and a comma before a closing bracket are unspecified.'),
]

PROPS += [
dict(id='C24', title='The lexer and parser of grammars implement the published grammar',
 statement='The tables of the lexer recognise, from every state reachable by any text, exactly the tokens that the lexical rules of relapse/bnf/all.bnf define; the tables of the parser accept exactly the sequences of tokens that its productions derive, with the derivation the productions give; and reducing a production does what the action of the production says.',
 over=['inputs'], forall='every text',
 why='The tables have some 60000 entries, and one that is wrong shows only for texts that have a particular character or token at a particular place.',
 files=['relapse/bnf/all.bnf','relapse/lexer/transitiontable.go','relapse/lexer/acttab.go','relapse/token/token.go','relapse/parser/productionstable.go','relapse/parser/actiontable.go','relapse/parser/gototable.go','relapse/parser/utils.go'],
 mech=[('lexer','TransTab, ActTab, TokMap'),('parser','actionTab, gotoTab, productionsTable'),('grammar','relapse/bnf/all.bnf')],
 technique='bisimulation of the lexer tables with an automaton of the lexical rules and of the parser tables with the canonical LR(1) automaton of the productions, both read from source; actions compared by path enumeration over SSA',
 note='Exhaustive: every state, every transition over all runes, every action and successor. What reads the tables (Lexer.Scan, Parser.Parse) is generated and not analysed.'),
]

PROPS += [
dict(id='C23', title='A literal in a grammar has the value it denotes, or is an error',
 statement='Every literal that the lexical rules allow and that parses has the value Go gives such a literal: integers and unsigned integers in the base of their prefix, the nearest double, strings with their escapes interpreted, bytes from numbers and characters, booleans, names, variables and lists of the type they name. A literal that does not fit its type or that Go does not accept is an error, and never a panic, another value or the text itself.',
 over=['inputs'], forall='every literal the lexical rules allow',
 why='The conversions differ only for particular spellings: a base prefix, an escape, a number at the edge of its type.',
 files=['relapse/ast/util.go','relapse/parser/productionstable.go','relapse/parser/utils.go'],
 mech=[('literals','NewIntTerminal, NewUintTerminal, NewDoubleTerminal, NewStringTerminal, NewBytesTerminal, NewBoolTerminal, NewVariableTerminal'),('names','NewSDTName')],
 technique='path enumeration over SSA on texts cut into known and unknown parts; the part that reaches the conversion is compared with the part of the lexical rule that has the value',
 note='The conversions of strconv are taken to do what they document. A bytes literal that has a comma as a character is refused with an error, which the statement allows.'),
dict(id='C25', title='A grammar that was parsed prints as text that parses to the same grammar',
 statement='What each action of the parser makes prints as the texts of the symbols it was made from, in their order and with their white space and comments, with tokens kept apart where touching would make other tokens; a literal prints as a token of its own kind that has the same value; so parsing what is printed gives an equal grammar.',
 over=['inputs'], forall='every grammar that parses',
 why='Each of some 90 productions has its own printer and a wrong one shows only for grammars that use it with a particular neighbour.',
 files=['relapse/ast/string.go','relapse/ast/util.go','relapse/parser/productionstable.go'],
 mech=[('printing','the String methods of relapse/ast'),('actions','productionsTable')],
 technique='composition of the action of each production with the String method of what it makes, by path enumeration over SSA with symbolic texts; pairs of adjacent tokens are decided on the automata of the lexical rules',
 note='Literals are compared by kind and value, not spelling. Trees made by hand and not by the parser are covered only as far as the same printers apply.'),
]

PROPS += [
dict(id='C41', title='Formatting a grammar changes white space and nothing else',
 statement='Format changes only the white space of a grammar: no pattern, name, value, keyword or their order; every comment stays, in its place and order, and a line comment keeps the end of its line; every grammar that parses can be formatted without a panic.',
 over=['inputs'], forall='every grammar that parses',
 why='What is lost depends on which comments and line ends stand next to each other, and each part of a grammar has its own formatter.',
 files=['relapse/ast/format.go','relapse/ast/comment.go'],
 mech=[('formatting','Format and the format methods of relapse/ast'),('white space','formatSpace')],
 technique='effect analysis of every function that formatting reaches; path enumeration over SSA of formatSpace on lists of comments and white space with symbolic content, and of the format methods on what each action of the parser makes',
 note='Lists of up to 3 (thorough: 4) comments, blanks, line ends and empty lines. That the result parses follows with C25.'),
]

PROPS += [
dict(id='C09', title='What is shared is never modified',
 statement='No evaluator, simplifier, constructor, printer or comparison modifies a grammar, an expression or a list of patterns that it was given; a pattern that was interned and a list that was stored in a state do not change after that; and no two lists share the space behind their common beginning. So one grammar can be used any number of times, and using it does not change it.',
 over=['inputs','history'], forall='every grammar and every sequence of uses',
 why='Whether a slice has space behind it depends on how many patterns were appended before, and a shared pattern that changed shows only in a later document.',
 files=['relapse/ast/new.go','relapse/intern/construct.go','relapse/intern/deriv.go','relapse/intern/zip.go','relapse/intern/sets.go','relapse/interp/simplify.go','relapse/interp/order.go','relapse/auto/ifs.go','relapse/mem/ifs.go','relapse/sets/zip.go','relapse/compose/builtin.go','relapse/combinator/funcs.go'],
 mech=[('constructors','New functions of relapse/ast'),('interned patterns','MergeOr, MergeAnd, NewOr, NewAnd, derivReturn, Zip, SetOfPatterns.Add'),('simplifier','Simplify, orderedSet, simplifyChildren'),('conditions','addIfExpr, ifNode.eval')],
 technique='interprocedural ownership and effect analysis over SSA: every write is traced to where what it writes was made',
 note='Formatting is left out (C41), and so are the generated encoders of the protocol buffer types. A write to what could not be traced (values from functions that are not known) is not reported.'),
dict(id='C10', title='Validators do not share state',
 statement='Nothing that a package variable of the library refers to is written once the program runs, apart from the registration of functions before that and a cache that every use of holds the lock of. So validators, parsers and compilers that are used at the same time or one after the other do not influence each other.',
 over=['schedules','history'], forall='every interleaving of uses of separate validators',
 why='A test runs one validator at a time.',
 files=['relapse/funcs/register.go','relapse/intern/construct.go','relapse/interp/nullable.go','relapse/interp/simplify.go','parser/json/unquote.go','parser/xml/typeinfo.go'],
 mech=[('registration','funcs.Register'),('constants','package variables of relapse/intern and relapse/mem'),('cache','tinfoMap')],
 technique='interprocedural effect analysis over SSA on everything package variables refer to; lock sets for variables that have a lock',
 note='One validator used by two goroutines at once is not covered. Functions outside of the repository that are given what a package variable refers to are taken to write it unless they are known to only read.'),
]

PROPS += [
dict(id='C12', title='Errors are never lost',
 statement='An error of reading a document, of parsing or compiling a grammar, or of evaluating a pattern ends in an error of the operation that met it: it is never taken for the end of the input, never turns into a verdict or into output that silently lacks what could not be read, and, where an error can be returned, never into a panic. Only the end of the input itself, and questions about the kind of a value, are not errors.',
 over=['inputs'], forall='every input that leads to an error, wherever in the library that is met',
 why='There are hundreds of places where an error can come up, most of them only for a damaged document at just the right depth.',
 files=['relapse/mem/deriv.go','relapse/intern/deriv.go','relapse/interp/deriv.go','relapse/auto/deriv.go','relapse/auto/compile.go','relapse/compose/compose.go','encode/proto/proto.go','encode/json/json.go','encode/xml/xml.go','encode/reflect/reflect.go','parser/json/json.go','parser/proto/proto.go','parser/xml/parser.go'],
 mech=[('evaluators','deriv, eval, Interpret, Validate'),('encoders','encode'),('parsers','Next, Down, Up, Init'),('composition','newValue, newMaker, prep, Which')],
 technique='dataflow over SSA from every call that returns an error: it is looked at, and no path on which there is one, other than the end of the input, returns without one',
 note='Left to the properties that say what has to happen there: operands of conditions (C16, C17), conversions of texts to numbers (C20, C23, C38). The yaml parser, which says that it is not finished, is left out. That parsers say the end of the input only where it is, is C18 and C38.'),
]

PROPS += [
dict(id='C22', title='The protocol buffer encoder writes what the document says',
 statement='Encoding a document as a protocol buffer message writes, for every field of it that the message type has, in their order and once, the key of the field and its value as the type of the field is encoded (doubles, floats, variable length and fixed integers, zigzag, booleans, strings, bytes, enumerations, nested messages and repeated fields), whatever the size of the given buffer; fields that the type does not have are left out. What was encoded before is never overwritten, and an encoder can be made for message types that contain themselves.',
 over=['inputs'], forall='every document, message type, value of a field and size of the buffer',
 why='The bytes depend on the size of each number, on the depth of nesting and on how full the buffer is at that point; a round trip of some values shows one path each.',
 files=['encode/proto/proto.go'],
 mech=[('writers','safeVarint, safeFixed64, safeFixed32, safeCopy, checkSize'),('fields','newSingleField and the encode methods'),('messages','msg.encode, msgField.encode, repeatedField.encode, newMsg')],
 technique='bit-precise dataflow over SSA of every function that writes bytes, with linear bounds for the buffer; path enumeration of the encoder made for every type of field; loop invariants of messages and lists by typestate over the calls of the parser',
 note='The key is what the descriptor says it is (GetKey of the descriptor library). Values that the document has in another kind than the field needs are errors of the parser (C20).'),
]

PROPS += [
dict(id='C40', title='Constructors and combinators build what they are named for',
 statement='Every constructor of the syntax tree and every combinator builds exactly the pattern, name or expression that it is named for, with everything it was given in its place and in its order, however many patterns, names or parameters there are; it prints with the keywords of the grammar. Operators and the functions they abbreviate correspond one to one, and Value only replaces a function by the operator that means the same.',
 over=['inputs'], forall='every constructor and combinator, whatever it is given',
 why='There are more than a hundred of them and each has its own keywords, types and order; the tests build a few grammars with some of them.',
 files=['relapse/ast/new.go','relapse/ast/keywords.go','relapse/ast/builtin.go','relapse/combinator/combinator.go','relapse/combinator/funcs.go'],
 mech=[('constructors','New functions of relapse/ast'),('combinators','functions of relapse/combinator'),('operators','BuiltInFunctionName, FunctionNameToBuiltIn, Value')],
 technique='symbolic path enumeration over SSA of every constructor and combinator; the tree that is built and what it prints as are compared with a table of what the names mean',
 note='Sequences of up to four elements are decided; longer ones go through the same recursion. That what is given is itself well formed is up to the caller.'),
dict(id='C15', title='An expression is composed into the function that it says',
 statement='Every expression of a grammar is composed into the function of its name and the types of its parameters, with exactly those parameters in their order; constants, variables and lists become the functions of their type and value; an operator becomes the function it abbreviates, applied to the value of the leaf. An expression that no registered function fits, or of the wrong type, is an error and never a wrong function, a lost error or a panic.',
 over=['inputs'], forall='every expression: constant, variable, list, function or operator, of every type',
 why='Expressions nest without limit and there are twelve types with generated code each; the tests compose a handful of expressions.',
 files=['relapse/compose/compose.go','relapse/compose/compose.gen.go','relapse/compose/builtin.go','relapse/compose/bool.go','relapse/funcs/register.go','relapse/funcs/newfunc.gen.go','relapse/types/type.go'],
 mech=[('composition','NewBool, compose*, newValue, prep, Which, ConvertBuiltInIntoFunction'),('lookup','Factory.getMaker, Maker.New, Maker.NewX'),('types','IsList, ListToSingle')],
 technique='symbolic path enumeration over SSA for every shape of expression, by induction over its parameters: what is composed is compared with what the shape says; the lookup of a function is decided for every outcome of comparing names, counts and types',
 note='Functions and lists of up to three parameters and up to two candidates of a name are decided; the loops treat every further one alike. What the functions compute is in other properties; that trimming a composed function keeps its meaning is one of them.'),
dict(id='C14', title='The json, xml and reflect encoders write what the document says',
 statement='The json encoder writes every field of an object under its name, every element of a list in its place and every value as what it could be read as; the xml encoder writes every leaf as its text and every other node as an element around what is below it; the reflect encoder gives every field of the structure that the document names its value, and lists their elements in order. Numbers are written exactly, bytes as base64. An error of the parser, or a value that does not fit its field, is an error, never a panic or a partial result.',
 over=['inputs'], forall='every document, whatever parser reads it',
 why='Documents nest without limit and hold every kind of value; the tests copy a handful of small structures.',
 files=['encode/json/json.go','encode/xml/xml.go','encode/reflect/reflect.go'],
 mech=[('json','encode of encode/json'),('xml','encode, getName, getCharData of encode/xml'),('structures','encodeStruct, newList, newValue of encode/reflect')],
 technique='symbolic path enumeration over SSA of one level of an unknown document, deeper levels by induction: on every path the calls of the parser must be one balanced walk and the output what the nodes say',
 note='Levels of up to three nodes; further ones go through the same loop. encoding/json, encoding/xml and strconv are taken by name. An object without fields is written as null, and fields of the same name, or fields mixed with elements or text in json, are not specified.'),
dict(id='C31', title='A grammar and its map of references say the same',
 statement='The references of a grammar are exactly its main pattern, under the name main, and the pattern of every declaration under its name; the grammar made of a map of references has exactly those, the declarations in the order of their names, in whatever order the map is visited.',
 over=['inputs','schedules'], forall='every grammar and map of references, and every order of visiting a map',
 why='Every evaluator looks up patterns in this map, and the order in which Go visits a map differs from run to run.',
 files=['relapse/ast/new.go'],
 mech=[('references','NewRefLookup'),('grammars','NewGrammar')],
 technique='symbolic path enumeration over SSA with a model of maps that visits the entries in every order',
 note='Grammars and maps of up to three declarations, with and without a main pattern, are decided. Two declarations of the same name are not.'),
]
PROPS += [
dict(id='C30', title='A grammar is called recursive exactly when it is',
 statement='HasRecursion is true exactly for the grammars in which a declaration, or the main pattern, leads back to itself through references without a tree node in between, whatever kinds of pattern are in between and however often a pattern is used. It ends for every grammar.',
 over=['inputs'], forall='every grammar, every kind of pattern and every way of sharing patterns between declarations',
 why='Recursion hides behind any of the kinds of pattern and in any declaration; the tests check two grammars.',
 files=['relapse/interp/recursion.go'],
 mech=[('search','HasRecursion, hasRecursion')],
 technique='symbolic path enumeration over SSA per kind of pattern: the answer against the defining equation, and the marks that are put on patterns as the colours of a depth first search',
 note='Induction over patterns; the loop over names is decided for up to three. Every reference is assumed to have a declaration.'),
]
PROPS += [
dict(id='C27', title='A malformed protobuf document is never read outside of its buffer',
 statement='Whatever bytes the protobuf parser is given, it reads only inside of them: every position and every length that it takes from the document is checked before it is used, so that a truncated or malformed document ends in an error and never in a panic or in bytes that are not part of it.',
 over=['inputs'], forall='every sequence of bytes, every message type and every sequence of calls that follows the interface of the parser',
 why='Lengths come from the document and may be anything up to 64 bits; the tests parse documents that were marshaled.',
 files=['parser/proto/proto.go'],
 mech=[('moving','Next, Down, Up, skipRepeated'),('lengths','length, uvarint'),('values','Value and the accessors')],
 technique='inductive invariant of the parser state proved per method by path enumeration over SSA with linear bounds: an obligation per index, per part of a buffer and per state that is left',
 note='Assumes the documented order of calls (Down after a successful Next, Up after Down, nothing after an error other than the end). Sums of positions are taken not to overflow an int, which holds for every buffer that fits in memory. The reader of varints is decided for up to 11 bytes.'),
dict(id='C42', title='All evaluators give the same verdict',
 statement='For every grammar and every document the interpreter, the interning evaluator, the memoizing evaluator and the compiled automaton give the same verdict.',
 over=['programs','inputs'], forall='every grammar and every document',
 why='The suite compares them on a few hundred documents.',
 files=['relapse/interp/deriv.go','relapse/intern/deriv.go','relapse/mem/deriv.go','relapse/auto/auto.go'],
 mech=[('evaluators','Interpret, Validate, Execute')],
 na='The verdict is a fixed point over the whole document and the whole grammar, and equality of two programs on it is out of reach of a static argument as one statement. It is decided in parts instead: walks (C01), emptiness (C02), order of conditions (C03), derivatives (C04), simplification (C05), caches (C07), decision trees (C32), threading of states (C34) and compiled tables (C35), each for every evaluator. That the parts compose is not claimed.'),
dict(id='C43', title='Compiling a grammar to an automaton ends',
 statement='Compile returns for every grammar that is not left recursive, with as many states as there are different simplified derivatives.',
 over=['programs'], forall='every grammar',
 why='The number of states depends on the grammar; the suite compiles small ones.',
 files=['relapse/auto/compile.go','relapse/auto/compiler.go'],
 mech=[('exploration','compile')],
 na='That the derivatives of a grammar are finitely many up to the simplification that is done is a theorem about the rewriting rules, not a property of the flow of the program; no dataflow or type argument bounds the number of runtime states.'),
dict(id='C44', title='The xml parser accepts exactly the well formed documents',
 statement='The xml decoder accepts the documents that are well formed and gives an error for every other one.',
 over=['inputs'], forall='every sequence of bytes',
 why='The decoder is tested with a few documents.',
 files=['parser/xml/xml.go'],
 mech=[('decoder','Decoder of parser/xml')],
 na='The decoder is a copy of encoding/xml, whose grammar is context sensitive (matching names, name spaces, entities) and which is lenient by options; there is no independent specification in the repository to decide it against. How the parser walks what the decoder gives is decided (C18, C20).'),
]
