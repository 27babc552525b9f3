#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

prop('C01', 'Parsing any bytes returns normally, with a value or with an error, never both',
 'For every byte sequence and every history of earlier parses, parsing returns without panicking and terminates, and it never returns a nil value. It returns an error exactly when the value it returns does not exist (type NotExist); otherwise the value is an existing JSON value.',
 ['inputs', 'histories'], 'every byte sequence, including empty, truncated and invalid UTF-8 ones, and every history of earlier parses in the process (their sizes feed an allocation predictor)',
 'Tests parse a few dozen texts; out-of-range reads show only on particular truncations, and the allocation predictor carries state over from every earlier parse.',
 ['unmarshal.go', 'jsonvalue.go', 'jsonvalue_internal.go'], [('recursive descent over the raw bytes', 'unmarshal.go: unmarshalWithIter and the functions it calls'), ('pool of values sized by a running average', 'jsonvalue_internal.go: newPool, internalAddPredictSizePerValue'), ('public entry points', 'jsonvalue.go: Unmarshal, UnmarshalString, UnmarshalNoCopy')])
prop('C02', 'String literals decode to exactly the string they denote',
 'A string literal is accepted exactly when it is well formed: every backslash starts a valid escape (surrogate escapes only as a high one followed by a low one), every multi-byte character is complete, and there is a closing quote inside the text. The decoded string is byte for byte what the literal denotes: escapes replaced by the character they name in UTF-8, everything else unchanged; nothing outside the literal is altered or consumed.',
 ['inputs'], 'every literal of every length at every position in every text',
 'There are unboundedly many literals and decoding works in place in the shared buffer; tests use a handful of short escapes.',
 ['unmarshal.go'], [('in-place decoding with a read and a write position', 'unmarshal.go: parseStrFromBytesForwardWithQuote'), ('escape handling', 'unmarshal.go: handleEscapeStart, handleEscapeUnicodeStartWithEnd, assignASCIICodedRune, chrToHex')])
prop('C03', 'Numbers are accepted by the JSON grammar and keep their exact value',
 'A number in the text is accepted exactly when it follows the JSON number grammar and fits: integers from -2^63 to 2^64-1, others within the range of float64. An accepted integer has exactly its decimal value through the integer accessors and the nearest float through the float accessors; a number with a fraction or exponent has the float64 nearest to its text; sign and integer/float classification follow the text, and the text is kept unchanged.',
 ['inputs'], 'every number text of any length',
 'Overflow, leading zeros, missing digits and sign positions interact; the tests sample some of the combinations.',
 ['unmarshal.go'], [('state machine over the characters with a wrapping 64-bit accumulator', 'unmarshal.go: (iter).parseNumber'), ('range checks by length and value', 'unmarshal.go: parsePositiveIntResult, parseNegativeIntResult'), ('floats', 'unmarshal.go: parseFloatResult')])
prop('C04', 'Every JSON text is accepted and parsed into the tree it denotes',
 'Every valid JSON text is accepted, and the resulting tree is the one it denotes: array elements in order and all of them, for each object key the value of its last occurrence, literals and scalars with their types. A text is rejected when its brackets do not nest, when a member lacks its key, colon or value, when a token is misspelt, or when anything but blanks follows the value (extra or missing commas are tolerated).',
 ['inputs'], 'every text, of any length and nesting depth',
 'Nesting, order, duplicates and separators combine without bound; tests parse a fixed set of documents.',
 ['unmarshal.go', 'set.go'], [('array and object readers', 'unmarshal.go: unmarshalArrayWithIterUnknownEnd, unmarshalObjectWithIterUnknownEnd'), ('dispatch and trailing data', 'unmarshal.go: unmarshalWithIter, skipBlanks, parseTrue, parseFalse, parseNull'), ('storing members', 'set.go: setToObjectChildren')])
prop('C05', 'Serialised strings are valid JSON and denote the original string',
 'Every string, as a value or as an object key, is serialised between quotes as a valid JSON string whose denoted value is the original (each invalid UTF-8 byte replaced by U+FFFD). Control characters, quote and backslash are always escaped; without the UTF-8 option the output is pure ASCII, with it U+2028 and U+2029 are still escaped; the HTML characters < > & and the slash are escaped unless switched off.',
 ['inputs', 'configurations'], 'every string and every combination of the escaping options',
 'The escaping table has 128 entries set up per call from the options plus two code paths above ASCII; tests look at a few characters in a few configurations.',
 ['conv.go', 'option.go', 'marshal.go'], [('escaping table', 'option.go: parseEscapingFuncs'), ('escaping', 'conv.go: escapeStringToBuff, escapeGreaterUnicodeToBuffByUTF16, escapeGreaterUnicodeToBuffByUTF8, escAsciiControlChar'), ('quoting', 'marshal.go: marshalString, writeObjectChildren')])
prop('C06', 'Marshalled text is well-formed JSON and contains every element exactly once',
 'Marshalling any tree of existing values (without NaN or infinite numbers) succeeds and yields well-formed JSON that denotes the same tree: every array element in order, every object member exactly once, separators between and only between the written members. With omit-null exactly the null members of objects are left out; indentation adds only whitespace, one line per element indented by the configured prefix and depth.',
 ['inputs', 'configurations'], 'every tree, every combination of ordering, omit-null and indentation options',
 'Separators depend on which members were already written or omitted, under four orderings and nesting; tests check a few trees.',
 ['marshal.go', 'sort.go', 'internal/buffer/buffer_impl.go'], [('object writing', 'marshal.go: marshalObject, writeObjectChildren; sort.go: marshalObjectWithLessFunc, marshalObjectWithStringSlice'), ('array writing', 'marshal.go: marshalArray'), ('output buffer', 'internal/buffer: buffer')])
prop('C07', 'NaN and infinite numbers are serialised exactly as the options say, or refused',
 'A NaN or infinite number, at any depth, is serialised as the configured replacement (null, a finite number with the sign of the infinity, or a string) and otherwise marshalling fails with the unsupported-float error. A replacement number that is itself NaN or infinite is refused; the output never contains a bare NaN or Inf token, and finite numbers are never affected.',
 ['inputs', 'configurations'], 'every tree, every combination of the NaN and infinity options',
 'Twelve option combinations times position and sign of the number; tests look at single numbers.',
 ['marshal.go', 'new.go'], [('replacement', 'marshal.go: marshalNumber, marshalNaN, marshalInfP, marshalInfN'), ('error propagation', 'marshal.go: marshalToBuffer, marshalObject, marshalArray')])
prop('C08', 'Ordering options put object members in exactly the configured order',
 'With a less function, members appear in an order consistent with it; with the default string order, in ascending byte order of their keys; with a key sequence, first the listed keys in the listed order, then the others in ascending order; with set-sequence, in the order in which keys were last set. The ordering applies at every depth and never loses, adds or pairs a key with another value.',
 ['inputs', 'configurations', 'histories'], 'every object, key sequence, strict less function and history of sets',
 'Go map iteration order is random, so an ordering bug shows only on some runs and shapes.',
 ['sort.go', 'marshal.go', 'iteration.go', 'set.go'], [('sorting keys with their values', 'sort.go: sortObjectV, sortStringSliceV'), ('set sequence numbers', 'set.go: setToObjectChildren')])
prop('C09', 'Array positions mean the same element in every operation',
 'For an array of n elements, position p with -n <= p < n names element p mod n in Get, Set, Delete, Insert-before and Insert-after; setting position n appends; every other position is refused with the out-of-range error. Each accepted operation changes exactly that place: the other elements keep their identity and order, and the length changes by exactly one for insert, append and delete.',
 ['inputs', 'histories'], 'every array, every index of every integer type, every sequence of operations',
 'Positions are signed, wrap from the end and have different limits per operation; tests use arrays of a few elements.',
 ['set.go', 'insert_append_delete.go', 'get.go', 'conv.go'], [('position rules', 'set.go: posAtIndexForRead, posAtIndexForSet, posAtIndexForInsertBefore, posAtIndexForInsertAfter, childAtIndex, setAtIndex'), ('element moves', 'insert_append_delete.go: insertToArr, deleteInArr, appendToArr'), ('index conversion', 'conv.go: anyToInt')])
prop('C10', 'Objects behave as maps from exact keys to values, also through caseless access',
 'After any sequence of sets and deletes an object maps exactly the keys set and not deleted since to the value last set; Get finds precisely these and fails with not-found for every other key. Caseless access prefers an exact match and otherwise finds some present member whose lower-cased key equals the lower-cased request, failing only if there is none, also after later sets and deletes.',
 ['inputs', 'histories'], 'every history of set, delete, get and caseless operations on every set of keys',
 'The caseless index is built lazily and maintained incrementally, so an error appears only after particular histories.',
 ['set.go', 'get.go', 'jsonvalue.go', 'insert_append_delete.go'], [('member store', 'set.go: setToObjectChildren'), ('lookup', 'get.go: getFromObjectChildren, initCaselessStorage'), ('index maintenance', 'jsonvalue.go: addCaselessKey, delCaselessKey; insert_append_delete.go: delFromObjectChildren')])
prop('C11', 'A mutation that fails leaves the tree as it was',
 'When setting, inserting, appending or deleting reports an error, no value reachable before the call has changed: no element was added, removed or replaced and no intermediate container was left behind. When it succeeds, the path given leads to the new value (or no longer to the deleted one), and only containers on that path changed.',
 ['inputs', 'histories'], 'every tree, every path of keys and positions, every child',
 'Intermediate containers are created on the way down, so partial effects need particular failing paths.',
 ['set.go', 'insert_append_delete.go'], [('creation on the way, attached on success', 'set.go: (*setter).atObject, atArray, atLastParam'), ('append to a missing array', 'insert_append_delete.go: (*appender).InTheEnd, InTheBeginning')])
prop('C12', 'Equality and ordering agree with the values compared',
 'Equality holds exactly between values of the same type with equal content: equal strings, booleans and numeric values, arrays equal element by element, objects with the same keys and equal members; values that do not exist equal nothing. The four ordering comparisons hold only between numbers and agree with the numeric order, so for two finite numbers exactly one of less, equal and greater holds.',
 ['inputs'], 'every pair of values',
 'Recursive comparison over unbounded pairs of trees; tests compare chosen pairs.',
 ['compare.go'], [('equality', 'compare.go: Equal, objectEqual, arrayEqual, numberEqual'), ('ordering', 'compare.go: greaterThan, greaterOrEqualThan')])
prop('C13', 'Importing an existing value makes an independent deep copy',
 'A value imported from an existing value, directly or inside a Go structure, equals it member by member and shares no value with it: changing either afterwards never shows in the other.',
 ['inputs', 'histories'], 'every tree and every later change to either side',
 'Sharing at one level or of one type shows only when that very part is changed later.',
 ['jsonvalue.go', 'import_export.go'], [('deep copy', 'jsonvalue.go: (*V).deepCopy, (*children).deepCopy')])
prop('C14', 'Typed getters convert and report exactly as documented for every value',
 'For every value, the typed getters return the documented conversion: numbers give their value in the requested type, strings that hold a number or "true" give that number or true together with the type-mismatch error, and everything else gives the zero value with an error that tells the cause. The plain accessors give the same conversions with zero for failures, and no getter panics or changes the tree.',
 ['inputs'], 'every value, path and requested type',
 'Types, contents and target types multiply; tests sample some.',
 ['get.go', 'jsonvalue.go'], [('conversions', 'get.go: getNumberAndErrorFromValue, getNumberFromNotNumberValue, getBoolAndErrorFromValue'), ('getters', 'get.go: getInt .. getArray')])
prop('C15', 'Parsed values do not depend on the caller\'s buffer',
 'Parsing from a byte slice (other than with the explicit no-copy functions) or from a string neither changes the caller\'s data nor keeps a reference to it: later writes to that data never show in the value. The no-copy functions write only inside the slice they are given.',
 ['inputs', 'histories'], 'every input and every later write to it',
 'Decoding is in place and strings alias the working buffer, so a missing copy shows only when the caller later reuses the buffer.',
 ['jsonvalue.go', 'unmarshal.go', 'internal/unsafe/unsafe.go'], [('defensive copy', 'jsonvalue.go: Unmarshal, UnmarshalString'), ('aliasing conversion', 'internal/unsafe: BtoS')])
prop('C17', 'Iteration visits every child exactly once with its own key or position',
 'Ranging over an object or array calls back with every member exactly once, each key or index together with its own value, arrays in ascending index order, until the callback asks to stop and not after; the set-sequence variant goes in the order of last setting. The collection variants return every child exactly once in a collection of their own, and values of other types yield nothing.',
 ['inputs'], 'every object and array, every stopping point',
 'Map order is random and the stop position free; tests iterate over small fixed containers.',
 ['iteration.go'], [('callbacks', 'iteration.go: RangeObjects, RangeArray, RangeObjectsBySetSequence'), ('collections', 'iteration.go: ForRangeObj, ForRangeArr')])
prop('C18', 'Constructed values carry exactly the Go value they were made from',
 'A value made from a Go integer, float, string, bool or byte slice has the matching JSON type, gives back exactly that Go value through the accessor of the same type, and marshals to a text that denotes it: integers in decimal without loss, finite floats as text that parses to the same float. Sign, integer and range predicates agree with the number.',
 ['inputs'], 'every integer, float, string, bool and byte slice',
 'The value space is 64-bit wide and unbounded for strings; tests use sample numbers.',
 ['new.go', 'jsonvalue.go'], [('constructors', 'new.go: NewInt64, NewUint64, NewFloat64, NewFloat32, NewString, NewBytes, NewBool, NewNull, NewObject, NewArray'), ('accessors', 'jsonvalue.go')])
prop('C20', 'Sorting an array permutes its elements into the requested order',
 'Sorting an array with a strict less function rearranges exactly its own elements, each kept once, so that no element precedes one that is less than it. Nil functions and values that are not arrays are left alone.',
 ['inputs'], 'every array and every strict weak order',
 'Unbounded arrays and orders; tests sort a fixed array.',
 ['sort.go'], [('sort adapter', 'sort.go: sortArrayV')])
prop('C21', 'Containment test follows its definition',
 'A value contains another of the same type exactly when: scalars are equal; every member of the sub-object is a member of the object whose value contains it; the sub-array is empty or equals a run of consecutive elements. Values of different types, and paths that do not exist, are never contained.',
 ['inputs'], 'every pair of values and path',
 'The window search and the recursion over members span unbounded pairs; tests check a few.',
 ['beta/contain.go'], [('containment', 'beta/contain.go: Contains, objectHasSubset, arrayHasSubset')])
prop('C22', 'Marshalling options act on one call only, and defaults until reset',
 'Options given to one call override the defaults for that call and leave the defaults, other calls and the caller\'s option values unchanged; later options of a call override earlier ones. Defaults set for the process apply to every later call until they are set again or reset, and resetting restores the built-in behaviour.',
 ['configurations', 'histories'], 'every sequence of setting, resetting and marshalling with every list of options',
 'State carried by options and defaults shows only in particular sequences of calls.',
 ['option.go'], [('defaults', 'option.go: SetDefaultMarshalOptions, ResetDefaultMarshalOptions, getDefaultOptions'), ('merging', 'option.go: combineOptions, mergeTo methods')])
prop('C16', 'Import and Export convert Go data like encoding/json does',
 'Importing a Go value gives the JSON value that encoding/json would write for it, honouring field tags, embedding and omitempty, and exporting a value into a Go variable stores what encoding/json would read from its text. Unsupported Go values give an error and no partial result.',
 ['inputs', 'programs'], 'every Go type and value',
 'Types and tags combine without bound.',
 ['import_export.go'], [('reflective walk', 'import_export.go')])
prop('C23', 'Concurrent readers of one value do not disturb each other',
 'Any number of goroutines may read, marshal and iterate over the same value concurrently, without caseless access, and each gets the result it would get alone; parses in parallel are independent of each other.',
 ['schedules'], 'every interleaving of reading operations',
 'Interleavings are not enumerated by tests.',
 ['jsonvalue.go', 'marshal.go', 'jsonvalue_internal.go'], [('no writes on read paths', 'get.go, marshal.go'), ('atomics in the predictor', 'jsonvalue_internal.go')])

NA = {
 'C16': 'Import and Export walk arbitrary Go types through package reflect and hand over to encoding/json; their meaning is that of run-time type descriptors, for which the verifier has no contracts, so the deciding obligations cannot be generated. Defects found by reading were repaired (see known-findings.txt).',
 'C23': 'The contracts are sequential: gov verifies one call at a time under the assumption that no other goroutine writes what it reads, so schedules are outside what its obligations can express. What carries over is the frame part: C14, C17 and C06 prove that read paths write nothing reachable from the value.',
}
CLAIMS, NOTES = {}, {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [p['id'] for p in P]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for i in sorted(ids):
    if i in CLAIMS:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'contract-based deductive verification of the real code (gov: contracts on the functions, go/ssa to verification conditions, z3/cvc5)',
            'level': 'proof', 'level_note': CLAIMS[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts under construction: no check is claimed for this property yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are matched to the functions of /repo by name on every run. Fixes in /repo are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

# DESIGN.md: the template with the claims and the results of the last sweep over the planted bugs
rows = []
for p in sorted(P, key=lambda p: p['id']):
    i = p['id']
    rows.append(f'### {i} {p["title"]}\n')
    if i in CLAIMS:
        spec = open(os.path.join(V, 'contracts', i + '.gov')).read()
        roots = ' '.join(l[5:] for l in spec.split('\n') if l.startswith('root '))
        rows.append(f'Contracts: `contracts/{i}.gov`; obligations of `{roots}` and everything they call under contract. {CLAIMS[i]}\n')
        if i in NOTES: rows.append(NOTES[i] + '\n')
    else:
        rows.append('Not claimed: ' + NA.get(i, 'contracts under construction.') + '\n')
res = {}
for l in open(os.path.join(V, 'tools', 'seed_results.txt')):
    w = l.split(None, 1)
    if w: res[w[0]] = w[1].strip()
seeds = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    seeds.append(f'* `{i}` ({m["property"]}): {m["what_it_breaks"]}; needs {m["needs"]}. **{res.get(i, "not run yet")}**')
t = open(os.path.join(V, 'tools', 'design.tmpl')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds)))
