# Generates properties.jsonl (run: python3 gen/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
J="jscandec.go"; A="append_type_stack.go"; AT="internal/atoi/atoi.go"; JN="internal/jsonnum/jsonnum.go"; UN="internal/unescape/unescape.go"
p("C01","JSON integers decode exactly or are reported as overflow",
 "Decoding a JSON integer literal into any signed or unsigned Go integer type stores exactly the mathematical value of the literal if the type can represent it, and otherwise returns the integer-overflow error and never a wrapped or truncated number. A negative literal for an unsigned type is an unexpected-value error. This holds for standalone values, struct fields, pointers and elements of slices and arrays alike, and for string and byte-slice inputs.",
 ["inputs"],"every integer literal of every length, for each of the ten integer types and each position a value can occur in",
 "the wrap-around happens only at particular digit counts and leading digits; tests sample boundary values, not every literal of every length",
 [AT,J],[("per-width decimal parsers",AT),("integer token cases and integer slice loops of the decoder",J)])
p("C02","JSON string escapes decode to exactly the denoted text",
 "A JSON string literal decodes to exactly the text it denotes: bytes outside escapes are copied unchanged, each two-character escape becomes its character, \\uXXXX becomes the UTF-8 encoding of the code point, a high/low surrogate pair becomes one supplementary code point and an unpaired surrogate becomes U+FFFD. This holds for values and for object keys, in string and byte-slice inputs, without reading outside the literal.",
 ["inputs"],"every valid JSON string body, of any length, with escapes in any position and combination",
 "the unescaper has several fast paths selected by escape position and length; tests cover a handful of strings",
 [UN,J],[("string unescaping",UN),("string token cases of the decoder",J)])
p("C03","Quoted scalars are accepted only when the whole text is the scalar",
 "A struct field with the string option, a number-literal destination given a JSON string, and an integer map key accept exactly the text of one complete JSON scalar of the wanted kind (integer, number, true/false, or backslash-quoted string) that is in range, and store its value. Any other text, including empty, partial, fractional-for-integer, negative-for-unsigned and out-of-range text, is an error; no text causes a panic.",
 ["inputs"],"every JSON string body for every scalar destination that is decoded from quoted text, and every integer map key",
 "the number recogniser is a hand-written state machine over bytes; tests sample its language, and the empty or partial texts are easy to miss",
 [JN,J],[("number recogniser",JN),("string-option cases and map key cases of the decoder",J)])
p("C04","Object keys select the right struct field",
 "A JSON object key selects the field whose JSON name equals the unescaped key; if there is none, the first field in declaration order whose name equals it under Unicode case folding; and otherwise no field. Disabling case-insensitive matching removes the second rule, and disabling field-name unescaping makes the raw key text the one compared; the fields not selected keep their values.",
 ["inputs","configurations"],"every set of field names of any size, every key, both matching options",
 "exact matches take priority over earlier folded ones and the search is unrolled by four, so errors depend on the number and position of fields",
 [J],[("field lookup by name","jscandec.go: field lookup and key case")])
p("C05","Unknown object keys are skipped whole or rejected",
 "By default a key that matches no struct field is ignored together with its entire value, whatever that value is, and decoding continues with the next member exactly as if the member were absent. With unknown fields disallowed, decoding returns the unknown-field error at the index of the first such key.",
 ["inputs","configurations"],"every unknown member with a value of any shape and nesting, at any position of an object at any depth",
 "the skip depends on the shape of the skipped value and on what follows it; tests skip a few values only",
 [J],[("unknown field skipping","jscandec.go: key case of the decoder")])
p("C06","Decoding into an empty interface mirrors the JSON document",
 "Decoding any valid document into a destination of type any produces nil, bool, float64, string, []any or map[string]any mirroring the document: numbers are the nearest float64, arrays keep length and order, objects keep each distinct unescaped key with its last value, and empty arrays and objects are non-nil. This also holds where any occurs inside structs, slices, arrays, maps and pointers, and an unrepresentable number is an error.",
 ["inputs"],"every valid JSON document of any depth and size",
 "recursion over token positions must be right for every nesting; tests sample shapes",
 [J],[("generic value decoding","jscandec.go: decodeAny and the any cases")])
p("C07","Slices receive exactly the JSON array's elements in order",
 "Decoding a JSON array into a slice of any supported element type yields a non-nil slice whose length is the number of JSON elements and whose i-th element is the decoded i-th JSON element, with null giving the element's zero value for scalar elements. An element of the wrong kind is an unexpected-value error at that element's index, and the specialised element types behave exactly like the general path.",
 ["inputs"],"every JSON array of any length for every supported element type, with nil, short or over-long existing slices as destination",
 "fifteen near-identical specialised loops plus a general path with capacity reuse; tests exercise each with few arrays",
 [J],[("specialised slice loops and the general slice path","jscandec.go: array token case")])
p("C08","Fixed-size arrays are filled, cut off and zero-padded",
 "Decoding a JSON array of n elements into a Go array of length m stores the first min(n,m) elements in order, ignores the remaining JSON elements whatever they are, sets the remaining Go elements to their zero value, and continues decoding right after the JSON array. Nothing outside the Go array is written.",
 ["inputs"],"every n and m, every element type, nested arrays and pre-filled destinations",
 "the surplus elements can have any shape and the write position is computed by pointer arithmetic",
 [J],[("array element stepping","jscandec.go: array token case and value-end handling")])
p("C09","Floating-point numbers decode to the nearest value",
 "A JSON number decoded into float32 or float64 is the nearest representable value as strconv.ParseFloat gives it for that width, including the sign of negative zero, and a number out of range is an error and not an infinity. This holds for integer literals of any length as well as for fractions and exponents, in scalars and slices.",
 ["inputs"],"every JSON number literal, both widths, scalar and slice element positions",
 "short integer literals take a separate path through integer conversion whose correctness depends on literal length and sign",
 [J],[("float fast path and fallback","jscandec.go: integer and number token cases, float slice loops")])
p("C10","null resets or skips according to the destination",
 "JSON null sets pointers, maps, slices, interfaces to nil and scalars to their zero value, leaves structs, arrays and fields with the string option unchanged, is passed to custom JSON unmarshalers, and never causes an error. Decoding continues with the next value in the same container.",
 ["inputs"],"null at every position of every supported destination type, with any previous destination contents",
 "null has its own case per destination kind and interacts with container stepping; tests cover few combinations",
 [J],[("null token case","jscandec.go: null token case")])
p("C11","Every decode reports success or an error with a valid index",
 "Decoding reports success with index -1 and a nil error exactly when the input is one syntactically valid JSON document matching the destination type; otherwise it returns a non-nil error and an index between 0 and the input length that locates the offending value or syntax error, and a nil destination is reported as such. No input makes it panic or run forever, and the one-shot function returns the same error as a decoder.",
 ["inputs"],"every byte sequence, valid JSON or not, for every supported destination type",
 "termination and panic freedom quantify over all token sequences and frame states; tests sample",
 [J],[("result mapping of the decode function","jscandec.go: Decode and Unmarshal")])
p("C12","A decoder carries no state from one call to the next",
 "The result of a decode call depends only on its input, its options and the destination's contents, never on earlier calls of the same decoder, whether those succeeded or failed at any point. Between calls the decoder holds no pointer to an earlier destination.",
 ["histories"],"every sequence of decode calls on one decoder, with failures at any point of any document",
 "leftover positions matter only after a failure at a specific nesting point followed by another call",
 [J],[("state reset of the decode function","jscandec.go: Decode deferred reset, recursion stack")])
p("C13","Decoded values never alias a byte-slice input and inputs are not modified",
 "After decoding from a byte slice, overwriting that slice does not change any decoded string, key, number literal or nested value. Decoding never writes to its input.",
 ["inputs","histories"],"every document and destination type, and every later modification of the input buffer",
 "aliasing is invisible until the buffer is reused, and only some paths convert without copying",
 [J,UN],[("string conversion of values and keys","jscandec.go and internal/unescape/unescape.go")])
p("C14","Decoding writes only inside the destination",
 "Decoding modifies only memory belonging to the destination value, to values reachable from it through existing pointers, slices and maps that the document addresses, and to newly allocated values. Every value is stored with the size and type of its Go destination, so adjacent fields, elements and objects keep their contents.",
 ["inputs"],"every document and destination type, including zero-size elements, surplus array elements and recursive types",
 "stores go through raw pointer arithmetic without bounds checks; a stray write is visible only if a test happens to look at the overwritten neighbour",
 [J,A],[("destination address computation","jscandec.go: frame destination and offset"),("static offsets and sizes",A)])
p("C15","Decoder construction follows the destination type",
 "Constructing a decoder succeeds for every supported destination type and then maps exactly the exported struct fields not tagged with \"-\", under their tag name or else their Go name. Unsupported types (functions, channels, complex numbers, non-empty interfaces, unsupported map keys) give an error, and the string option on an unsupported field type gives the dedicated error when that check is enabled and is ignored otherwise.",
 ["programs","configurations"],"every Go destination type and struct tag combination, both construction options",
 "the set of Go types and tags is unbounded and construction is by reflection; tests list a few types",
 [A,J],[("type plan construction",A)])
p("C16","Maps receive exactly the document's members",
 "Decoding a JSON object into a map allocates it if nil, keeps existing entries, and for every member sets the entry of the converted key (string and text keys unescaped) to the decoded value, the last of several equal keys winning and each value decoded from a fresh zero value. Keys of string, integer and text-unmarshaling types are supported; a key that is invalid for the key type is an error.",
 ["inputs"],"every JSON object for every supported key and element type, nil and pre-filled maps",
 "values are decoded in place inside runtime map cells and duplicates are rare in tests",
 [J],[("map key insertion and string map loop","jscandec.go: object and key token cases")])
p("C17","Recursive types decode at any depth",
 "A struct type that refers to itself through a pointer, slice or map field decodes documents of any nesting depth into the corresponding tree: every nested object is stored in its own place and decoding resumes in the right parent with the right following field, element or key. This includes null and empty containers at any level.",
 ["inputs"],"every document for every directly recursive struct type, of any depth and shape",
 "the recursion state is saved and restored at each level, so errors need particular nesting sequences to show",
 [J,A],[("recursion stack","jscandec.go: recursive frames"),("recursion detection",A)])
p("C18","Custom unmarshalers receive exactly their value",
 "A destination type implementing the JSON unmarshaler interface (directly or through its pointer) is called exactly once per value with exactly that value's raw JSON text, and one implementing the text unmarshaler interface with the unescaped text of each JSON string; other kinds for the latter are errors. An error from an unmarshaler stops decoding and is returned with that value's index, and decoding otherwise continues right after the value.",
 ["inputs"],"every JSON value at every position where an unmarshaling type occurs",
 "the raw extent of a composite value is taken from token positions; tests use a few values",
 [J,A],[("unmarshaler dispatch","jscandec.go: unmarshaler cases"),("interface detection",A)])
p("C19","Pointers are allocated, reused and followed",
 "Decoding a non-null value into a pointer stores it in the pointed-to value, allocating a fresh zero value if the pointer is nil and reusing it otherwise, for any number of pointer levels. Decoding then continues with the next value in the enclosing container.",
 ["inputs"],"every document for pointer types at every position and depth, nil and non-nil",
 "pointer frames interact with every container kind when a value ends; tests cover few combinations",
 [J],[("pointer frames","jscandec.go: pointer handling and value-end handling")])
p("C20","String and byte-slice inputs behave identically",
 "For the same bytes, options and destination type, decoding from a string and decoding from a byte slice produce the same value, error and error index.",
 ["inputs"],"every byte sequence, option set and destination type",
 "the generic code selects different conversions per input type; tests rarely compare both on the same input",
 [J,UN,AT,JN],[("generic instantiation for both input kinds","all decoding functions")])
p("C21","A value of the wrong kind is an error at that value",
 "A JSON value whose kind does not fit the Go destination type (for example a string for an integer, an object for a slice, a fraction for an integer) makes decoding return the unexpected-value error with the index of that value. It is never silently accepted, converted or skipped, at any nesting level.",
 ["inputs"],"every pairing of a non-null JSON value kind with a destination kind that does not accept it, at any position",
 "the pairing table has hundreds of entries and each is a separate fall-through case; tests check a fraction",
 [J],[("kind dispatch","jscandec.go: token and frame kind switches")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
