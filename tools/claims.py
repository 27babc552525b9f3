TRUST = ' Trusts the verifier gov, go/ssa and the SMT solvers, and the listed contracts of library functions outside the module; sequential execution.'
CLAIMS['C02'] = 'Every obligation of the literal decoder and the functions it calls is discharged for all inputs and lengths, memory safety, overflow and termination included.' + TRUST
CLAIMS['C03'] = 'Every obligation of the number reader (acceptance, exact integer value, float of the text, classification, extent) is discharged for all texts; strconv.ParseFloat is an assumed contract (which texts it accepts) and floats are uninterpreted.' + TRUST
FLAT = ' Assumed: an index slice holds no further slices and is not written during the call; values are not copied by dereference, so no two values share their storage.'
CLAIMS['C09'] = 'Every obligation of the positional operations (Get, Set, Delete, Insert before and after, and the functions they call) is discharged for all arrays, positions and paths; Append is covered by the harness on real runs only (bounded).' + FLAT + TRUST
CLAIMS['C10'] = 'Every obligation of the functions that read and change the members of an object and its caseless index is discharged for all keys and histories, as an invariant over all values; strings.ToLower is uninterpreted.' + FLAT + TRUST
CLAIMS['C11'] = 'Every obligation of Set, Insert and Delete over all paths is discharged: outcome, exactly what changes, and nothing on error (frame conditions). That a freshly built chain of containers leads to the new value, and Append, are checked by the harness on real runs only (bounded).' + FLAT + TRUST
CLAIMS['C14'] = 'Every obligation of the typed getters (GetInt … GetArray and their caseless twins), String, Len and the plain accessors is discharged for all values and paths: result, error and that nothing changes; through caseless access the result is left open (C10 covers the member found), and Marshal texts inside String of containers are left open. strconv.ParseFloat, strings.TrimSpace, base64 and fmt.Errorf are assumed contracts.' + FLAT + TRUST
CLAIMS['C18'] = 'Every obligation of the constructors, the plain accessors and the predicates is discharged for all integers, floats, strings, bools and byte slices; that strconv.FormatInt, FormatFloat and base64 give texts that denote their argument is assumed, floats are uninterpreted. Marshalling of the value made is checked by the harness on real runs only (bounded).' + TRUST
CLAIMS['C05'] = 'Every obligation of the escaping functions, of the table they are chosen from and of marshalString is discharged for all strings and options: what is appended is the literal that denotes the string by the rules of C02, character for character, escaped as the options say. Assumed: fmt.Sprintf of \\u%04X, and the range loop over a string yields U+FFFD for invalid bytes. Object keys are checked by the harness on real runs (bounded).' + TRUST
CLAIMS['C12'] = 'Every obligation of Equal and the four ordering comparisons is discharged for all values: objects member by member, arrays element by element, numbers by the value of their texts. Assumed: shopspring/decimal parses and compares decimal texts exactly; values form trees (no value is its own descendant).' + TRUST
CLAIMS['C21'] = 'Every obligation of beta.Contains and of the functions it calls (Get along the path, Equal) is discharged for all values and paths, against a recursive definition of containment. Assumed: values form trees (no value is its own descendant); for a sub-value that is not a *V, the contract of Import.' + FLAT + TRUST
CLAIMS['C22'] = 'Every obligation of the constructors of options, of the merging of options into a fresh copy of the defaults and of setting and resetting the defaults is discharged for all lists of options: each field ends as the last option that sets it says, nothing else is written. That the serialisers write to no option but that copy is checked by the harness on real runs only (bounded).' + TRUST

CLAIMS['C06'] = 'Every obligation of the marshalling functions (marshalToBuffer, marshalArray, marshalObject with its four orders, writeObjectChildren, writeIndent, marshalNumber, the buffer and the escaping they use) is discharged for all trees and options: what is appended is a text of the value by inductive rules (every element in order, every member exactly once, separators between and only between written members, omitted nulls aside, new lines and indentation by prefix and depth). Assumed: sort.Sort permutes by Swap, encoding/json.Marshal of a finite float, values form finite trees, a number without text is NaN or infinite (kept by the constructors, C18), the less function changes nothing; termination is not proved. The entry points Marshal and MarshalString are checked by the harness on real runs only (bounded).' + TRUST
CLAIMS['C07'] = 'Every obligation of marshalNumber, marshalNaN, marshalInfP, marshalInfN and of the containers above them is discharged for all trees and options: marshalling fails exactly when a number without a permitted replacement occurs in the tree, with the error of its kind, and otherwise the text holds the configured replacement. Assumptions as for C06 (finite floats marshal to their text by encoding/json, values form finite trees).' + TRUST
CLAIMS['C17'] = 'Every obligation of RangeArray, RangeObjects, ForRangeArr and ForRangeObj is discharged for all values and callbacks: the recorded sequence of calls is exactly the children, each once, with its own key or position, ended only by an answer of false. Assumed: the callback does not change the value. RangeObjectsBySetSequence and the deprecated channel iterators are checked by the harness on real runs only (bounded).' + TRUST
CLAIMS['C20'] = 'Every obligation of SortArray and of the Len, Less and Swap it gives to sort.Sort is discharged: the elements are permuted and none precedes one that the function puts before it. Assumed: sort.Sort does so for such Len, Less and Swap, and the less function is a pure strict weak order.' + TRUST
