SYN="abstract interpretation of the grammar-building code, then automata equivalence"
SHP="shape analysis: abstract interpretation of the tree transformations over all derivations of the extracted grammar"
FLW="join-based forward dataflow over SSA with symbolic values, calling contexts and error forks"
CLAIMS={
"C01":(SYN,"The recognised language of the grammar built by the current source, extracted by abstractly interpreting the rule functions, is decided equal to a reference grammar by an equivalence construction on derivative automata (PEG semantics incl. ordered choice and look-ahead). Exact up to a bound on the nesting depth of parentheses (quick 2, thorough 3); trusts the model of the takenoco combinators."),
"C02":(SYN+"; dataflow of keyword spellings","Every keyword terminal is decided case-insensitive on the automaton and no tree transformation lets the spelling of a keyword reach its result."),
"C03":(SYN,"For every state of the recogniser the whitespace/comment forms are decided interchangeable on the automaton."),
"C04":("grammar well-formedness analysis (nullability, left recursion, reduction lengths)","Nullability and left-recursion fixpoints on the extracted grammar plus a shrinking check of every production rule: recognition terminates on all inputs, stack size aside."),
"C07":(SHP,"Every reduction and comparison rule is evaluated for every form of tree it can be given; the operator list it leaves must be left operand, right operand, opcode of the operator that was written. Error results of transformations must come from a failed conversion."),
"C08":(SHP,"The production rules over the operator stream are read off the rule table and compared with the reference precedence NOT > AND > OR; each reduction rule is shown to emit its operands' lists in order followed by its own operator."),
"C10":(SHP,"For every written form of a literal the type tag and the Go type of the value stored are read off the result of the transformation, alone, in a list and as a function argument."),
"C11":(SHP,"For every escape form the transformation's result is compared with the documented character."),
"C12":(SHP,"For every form of every clause, the member of the query the clause's value ends in is read off and compared with the documented one, with its defaults."),
"C13":(SHP,"For every form of select item, object, key, list element and argument, the member reported is read off the derivation; loops over items are summarised as comprehensions whose element must be exactly the item's."),
"C14":(SHP,"Each date/time value is traced to time.Parse over the written text under the layout of its kind, followed by UTC, with its error propagated."),
"C25":(SHP,"Every index, slice, type assertion and nil dereference of the tree transformations is proved safe for every shape the grammar can produce."),
"C05":("effect and escape analysis over the call graph","Every store, map update and in-place operation in every function reachable from Parse is classified by the memory it writes; only memory made during the call may be written, and nothing shared may be kept in the result."),
"C06":(FLW+" (typestate of error values)","Every call that can fail is followed on all paths to the return: its error must be reported. Parse's returns and its failure message are checked against the recogniser's outcome."),
"C15":("abstract interpretation of the encoders and decoders","The encoder of every constant of each enumeration is evaluated to a constant, unique name; the decoder evaluated on it gives the constant back."),
"C16":("abstract interpretation of the encoders and decoders over the graph of JSON types","Each decoder is evaluated with symbolic members for every type tag; every visible member must be restored from its own name and with the Go type of its tag."),
"C17":("type graph analysis; "+FLW,"Back references must be invisible to JSON; every store to a pointer member through which queries contain queries must be nil, a copy, or an object made for it that does not lead back."),
"C18":(FLW+" (letter-case kinds)","Every string comparison, map key, string-testing call and stored key in the normalisation stage must be folded, the same way on both sides."),
"C24":(FLW+" under assumptions on the query","For every forbidden construct at every place it can be written, the normalisation is analysed under the assumption that the statement contains it: no return reporting success may be reachable. Duplicate checks must compare every element with all earlier ones, and permitted constructs must not be rejected by them."),
"C20":(FLW+" (typestate of counters)","The members the next-id numbers come from start at 1 and only grow by one; every id stored is the counter's value, incremented before anything else is given or left, or the number under the key of that very item; fresh ones are entered under it; every turn of the loops gives one."),
"C21":(FLW+" under assumptions on the query","Under the assumption that a function, bind parameter or date literal stands at a place of the statement, no return reporting success may be reachable without its lower-case name being added; likewise the graph entries of queries and objects. Every turn of every loop over members must come to it. The source text must be Parse's argument."),
"C19":(FLW+" (identity of maps)","The maps from keys to numbers are found by their use; a conditional subquery must be entered with maps made for it, every success return must have put back the ones of the entry, and the outer query never touches the subquery's."),
"C22":(FLW+" under assumptions on the query","Elements of derived lists are appended only under the fact that their name lies in the object; in every turn of the filter loop a comparison that is not on a field of the object is taken out; OFFSET/LIMIT for index 0 only and always, FOR always."),
"C27":(FLW+" (agreement of names and keys)","Key and name are compared as terms at every successful return of the field normalisation and wherever an object is stored or appended; every turn of the loops over clauses, parameters and FROM must store the normalised form and enter aliases."),
"C28":(FLW+" (provenance of list memory)","Every list stored as a derived or post-process filter is followed to the statement that makes it: memory made for that query alone."),
"C29":(FLW+" under assumptions on the query","Assuming a key is (is not) found among the aliases, every turn of the loop over the keys must take the item found (resolve it as a field); the map must get every aliased item under the lower-case alias."),
"C09":(FLW+" under assumptions on operators","For every operator assumed of the conditions before a NOT: its complement is what every turn of the loop stores, nothing is stored outside; the loop's bounds are the operand: counter effects and end of the backward scan are decided per operator class."),
"C23":(FLW+" under assumptions on operators and operands","For every operator and every combination of unknown operands, every turn of the loop over the derived filter must write what three-valued logic demands and mark the result; foreign comparisons, functions and subqueries must start as unknown."),
"C26":(FLW+" over the js/wasm build of the wrapper","The registered function is analysed for what it passes to Parse and what it returns for each outcome."),
}
NA={
"C30":"Absence of panics in the normalisation stage depends on numeric invariants of its condition stack and on lengths of lists filled and indexed by different functions; no numeric domain in reach proves those relations, and unproved indices would all have to be reported. One real panic found while reading was repaired (9fe36b3). The parse stage's absence of panics is C25.",
"C31":"Equality of values after a round trip quantifies over runtime values (NaN and infinities cannot be expressed in JSON, years outside 0-9999 fail to marshal); no static argument bounds them. The type-level part is C16.",
"C32":"Relates evaluation of two derived formulas over all data sets; the repository contains no evaluator, so there is no code for a static rule to decide it on. The part visible in the code is C23.",
"C33":"Time and stack are runtime quantities of a backtracking recursive-descent parser; depth grows with the input, and no sound static bound is in reach. Termination is C04.",
}
import json as _j
for _l in open('/verif/properties.jsonl'):
    _d=_j.loads(_l)
    if _d['id'] not in CLAIMS and _d['id'] not in NA: NA[_d['id']]="No check is built for it yet."
NOTES="One analyser (tool/, Go, go/packages + go/ssa from the module cache); run.sh builds it when its sources are newer than the binary and runs one check. Every check loads, type-checks and analyses /repo's working tree; none runs its code."
