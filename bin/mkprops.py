"""Writes properties.jsonl (single source for the property texts)."""
import json, os
H='include/json_struct/json_struct.h'; D='include/json_struct/json_struct_diff.h'
P=[]
def p(id,title,statement,over,qtext,why,mech,files=(H,),observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
p('C01','Tokens do not depend on how the input is split into buffers',
 'For every input and every choice of parsing options, splitting the input into buffers at any places, and handing the buffers over up front, on request or through the data callback, gives the same sequence of tokens (names, values, types) and the same final outcome as handing it over in one piece. A token is handed out as soon as the bytes that determine it have arrived.',
 ['inputs','schedules','configurations'],'every byte sequence without NUL, every segmentation into non-empty buffers, every delivery mode, every option combination',
 'Tests split a handful of documents at a handful of places; the number of segmentations is exponential and the lexer state that has to survive a boundary differs in every position.',
 [('tokenizer state kept across buffers',H+': Tokenizer::nextToken, populateNextTokenFromDataRef, IntermediateToken'),('string, number, word scans with an escape flag',H+': Tokenizer::findStringEnd, findNumberEnd, findAsciiEnd'),('comment state',H+': Tokenizer::skipComment, continueComment')],
 observe=['Tokenizer::nextToken'])
p('C02','Every JSON document is tokenized to exactly its contents',
 'With default options, every syntactically valid document (an object or an array at the top, or a stream of them) is accepted, and the tokens produced are exactly its members, elements and brackets in document order, with the names, raw values and types found in the text. Every prefix of such a document yields a prefix of these tokens and no error.',
 ['inputs'],'all JSON texts whose root is an object or array, any nesting, white space and string contents',
 'Tests hold a few dozen documents; the property is about all of them, including unusual white space, brackets and escapes inside strings and lengths around the vector block sizes.',
 [('tokenizer state machine',H+': Tokenizer::populateNextTokenFromDataRef, findStartOfNextValue, findDelimiter, findTokenEnd'),('character classification',H+': Internal::lookup')],observe=['Tokenizer::nextToken'])
p('C03','Malformed documents are rejected in strict mode',
 'With default options a document that violates the JSON structure (unbalanced or mismatched brackets, missing or doubled separators, a member without name, colon or value, unquoted words other than true, false and null, stray characters) is reported as an error at the first byte that makes it malformed, after exactly the tokens that precede it. Number spelling and escape sequences are not judged by this property.',
 ['inputs'],'all byte sequences that are not a prefix of a JSON document stream',
 'The set of malformed inputs is unbounded and tests name a few; a check that is dropped for one combination of states is invisible to them.',
 [('container stack and expectation flags',H+': Tokenizer::nextToken (container_stack), expecting_prop_or_anonymous_data'),('illegal character and delimiter errors',H+': findStartOfNextValue, findDelimiter, findTokenEnd')],observe=['Tokenizer::nextToken'])
p('C04','Each relaxed-syntax option admits exactly its own extension',
 'Under any combination of the four relaxations (unquoted words, newline as separator, superfluous trailing comma, // comments) the accepted inputs are the JSON grammar extended by exactly the enabled relaxations, and the tokens are those of the document they stand for: a comment counts as white space, an unquoted word as a value or name of its own type, a newline as a comma, a superfluous comma as nothing. Whatever is not enabled stays an error.',
 ['inputs','configurations'],'all inputs under all 16 option combinations',
 'Tests exercise each option in one or two documents and never the combinations or the inputs that must stay rejected.',
 [('options',H+': Tokenizer::allowAsciiType, allowNewLineAsTokenDelimiter, allowSuperfluousComma, allowComments'),('comments',H+': skipComment, continueComment'),('words',H+': findAsciiEnd, populateFromDataRef')],observe=['Tokenizer::nextToken'])
p('C05','Skipping a scope lands exactly behind it',
 'Leaving a scope early, and skipping members a program is not interested in, always continues with the token that follows the matching closing bracket, however deep the skipped part is, wherever in it the skip starts and however the input is buffered. If the scope does not end or is malformed, that is reported instead.',
 ['inputs','histories'],'all documents, all points at which a scope is pushed, left, or skipped, nested scopes included',
 'Tests skip a few fixed members; nesting depth, position and segmentation are unbounded.',
 [('scope counters',H+': Internal::ScopeCounter, Tokenizer::pushScope, popScope, goToEndOfScope'),('skipping',H+': Internal::skipArrayOrObject, ParseContext::nextToken')],observe=['Tokenizer::goToEndOfScope','ParseContext::parseTo'])
p('C06','Buffers are given back when, and only when, they are no longer needed',
 'With a release callback every buffer is given back exactly once, in the order in which they were added, and only after all of its bytes have been consumed; overwriting a buffer once it was given back never changes a later token. When the input is replaced by another one the buffers still held are given back and reading starts afresh. Text captured verbatim (raw object, array or value members) is byte for byte the source text from the opening to the matching closing bracket, whatever buffers it came from.',
 ['inputs','schedules','histories'],'all inputs, segmentations, and interleavings of token requests, data requests and releases',
 'The tests keep all buffers alive, so use after release cannot show; segmentations are not enumerated.',
 [('release',H+': Tokenizer::releaseFirstDataRef, setReleaseCallback'),('copies that span buffers',H+': Tokenizer::copyIncludingValue, copyFromValue, copy_buffers, IntermediateToken'),('raw captures',H+': TypeHandler<JsonObject>, <JsonArray>, <JsonObjectOrArray>')],observe=['release callback','Tokenizer::nextToken'])
p('C07','Serializer output is well-formed and says exactly what was written',
 'For every sequence of tokens that forms a document, the text produced, pretty or compact, with any indentation width, parses back to exactly that sequence; compact output contains no white space outside strings and pretty output puts every member and element on its own line, indented by its depth. The text does not depend on the sizes of the output buffers supplied.',
 ['inputs','configurations','schedules'],'all token sequences, styles, indentation widths, depths and output buffer segmentations',
 'Tests compare a few documents at one buffer size.',
 [('delimiters and indentation',H+': Serializer::write, SerializerOptions'),('output buffers',H+': SerializerBuffer, Serializer::writeAsString, askForMoreBuffers, markCurrentSerializerBufferFull')],observe=['Serializer::write','serializeStruct'])
p('C08','Reformatting changes layout only',
 'Reformatting any valid document, pretty or compact, yields a document with the same tokens; reformatting is idempotent, and going to pretty and back gives what going to compact directly gives; a stream of documents stays a stream of documents. Malformed input yields an error; of input that merely ends early, what is there is reformatted.',
 ['inputs','configurations'],'all documents and styles, from text and from already tokenized input',
 'Tests reformat two documents.',
 [('reformat',H+': JS::reformat, Internal::reformat')],observe=['JS::reformat'])
p('C09','Struct members are bound by name, each at most once per member, nothing else',
 'Parsing an object into a struct assigns each declared member from the value of the JSON member carrying its name or, for members with aliases, one of its aliases (a superseding name replaces the declared one), inherited members included, independent of member order; members that are absent keep their previous value. Names that match nothing and required members that are missing are collected and reported exactly as the context is configured, and never change other members.',
 ['inputs','programs'],'all objects: every order, subset, duplication, unknown members with arbitrary values, aliases, inheritance, error settings',
 'Tests fix one order per struct; the number of orders, omissions and unknown values is unbounded.',
 [('member matching',H+': Internal::MemberChecker, SuperClassHandler, StartSuperRecursion'),('missing and unassigned',H+': ParseContext::missing_members, unassigned_required_members, TypeHandler<T>::to')],observe=['ParseContext::parseTo'])
p('C10','Serializing a value and parsing it back gives the same value',
 'For every value of a supported type, including nested structs, containers, optional members, strings with any bytes, integers and floating point numbers at their limits, parsing the serialized text back into the same type gives an equal value with no error, for every output style; values that have no text of their own (data hidden behind a null, a capture that was never made) are written the same way again. The text is accepted by the strict tokenizer. (Not covered: empty optionals as elements of arrays and tuples, which are left out; NaN and infinities, which are written as null; points in time before 1974, whose unit cannot be recognised.)',
 ['inputs','programs'],'all values of composite types that parsing can produce; finite floating point numbers',
 'Tests round-trip a few hand written values.',
 [('type handlers',H+': TypeHandler<T>::to/from for all T'),('escaping',H+': Internal::handle_json_escapes_in/out')],observe=['serializeStruct','ParseContext::parseTo'])
p('C11','String contents survive escaping in both directions',
 'Parsing a string decodes every JSON escape, including \\uXXXX and surrogate pairs, to the UTF-8 bytes it denotes and leaves all other bytes alone; serializing a string produces text that contains no raw control character or unescaped quote or backslash and that decodes to exactly the original bytes.',
 ['inputs'],'all byte strings without restriction on length or content',
 'Tests try about ten strings; combinations of escapes at every position are unbounded.',
 [('unescape',H+': Internal::handle_json_escapes_in'),('escape',H+': Internal::handle_json_escapes_out')],observe=['TypeHandler<std::string>','serializeStruct'])
p('C12','Integers are converted exactly or clamped, and never silently wrong',
 'Parsing a number into an integer type gives its exact value when the number is integral and in range; fractions are truncated toward zero and values outside the range give the nearest representable value (zero for negative numbers in unsigned types); text that is not a number is an error. Serializing any integer of any width produces its shortest decimal spelling, which parses back to it.',
 ['inputs','programs'],'all number spellings, all integer widths up to 128 bits',
 'Tests cover limits of some types in one spelling each.',
 [('integer parsing',H+': Internal::ft::integer::to_integer, parse_int'),('integer printing',H+': Internal::ft::integer::to_buffer')],observe=['TypeHandlerIntType'])
p('C13','Floating point numbers round-trip exactly and parse to the nearest value',
 'Every finite float and double is serialized to a decimal text that parses back to the identical bit pattern, and to a shortest such text. Parsing a decimal number with up to 19 significant digits gives the correctly rounded value (to nearest, ties to even, its sign kept, infinity when too large); text that is not a number is an error.',
 ['inputs'],'all finite float and double bit patterns; all decimal spellings of up to 19 significant digits',
 'Tests sample fewer than a hundred of 2^64 values.',
 [('printing',H+': Internal::ft::ryu'),('parsing',H+': Internal::ft::to_ieee_t, convertToNumber')],observe=['TypeHandler<double>','TypeHandler<float>'])
p('C14','A map answers every query with the latest value set, and converts faithfully',
 'After any history of parsing documents into a map and setting values, by name, replacing or adding, looking up a name finds it exactly when it was parsed or set, converting it yields the value last stored under it, all other members keep theirs, whatever the parse context was used for in between, and converting or serializing the whole map gives the document with these members.',
 ['histories','inputs'],'all sequences of set and query operations on maps with nested and scalar members',
 'Tests perform one or two updates; index bookkeeping errors need longer histories.',
 [('map',H+': struct Map, Map::setValue, castTo, find, Internal map helpers'),('index of containers',H+': JsonMeta, metaForTokens')],observe=['JS::Map'])
p('C15','Container metadata describes the token list exactly',
 'For every token list of a document, the metadata has one entry per object or array in order of their opening tokens, each with the position, the number of tokens, the number of nested containers, the direct children and whether there is data, all as found by walking the tokens.',
 ['inputs'],'all token lists of valid documents',
 'Tests check two fixed documents.',
 [('metadata',H+': metaForTokens, JsonMeta')],observe=['metaForTokens'])
p('C16','The diff of two documents reports exactly where they differ',
 'Diffing a document against a base marks a member or element as unchanged exactly when both documents hold an equal value there, and reports value changes, type changes, added members and elements and removed members and elements at the right place otherwise; comparing a document with itself reports no difference. Strings and names are compared as written, numbers within the configured tolerance. This holds for valid documents with distinct member names per object, and again after the base was changed or the options were replaced.',
 ['inputs','histories'],'all pairs of documents, all histories of comparing, changing the base and the options',
 'Tests diff a dozen fixed pairs.',
 [('diff',D+': DiffContext, DiffFlags, Internal diff helpers')],files=(D,),observe=['DiffContext::diff'])
p('C17','A call document invokes exactly the named functions, in order',
 'Executing a call document invokes, for each member naming a function (by its name or, if no function has that name, one of its aliases, inherited ones included), that function once in document order with the parsed argument, and produces a result document that is valid JSON with one entry per returned value. Unknown functions, unparsable arguments and errors reported by functions are recorded for that call (with the message and the missing or unassigned member names belonging to it) and, unless execution is configured to stop, do not affect the others; several documents executed with one context add to the same record.',
 ['inputs','histories'],'all call documents over a set of functions with and without arguments and results, all error settings',
 'Tests run a few fixed documents.',
 [('dispatch',H+': CallFunctionContext::callFunctions, FunctionObjectTraverser, FunctionCaller'),('results',H+': ArrayEndWriter, CallFunctionExecutionState')],observe=['CallFunctionContext::callFunctions'])
p('C18','Containers receive exactly the elements of the array or object',
 'Parsing an array into a sequence, set, fixed-size array or tuple, or an object into an associative container, stores exactly its elements in order and nothing else (entries of an associative container are set under their decoded keys, the last one winning, and other entries it already held stay), leaves the parser exactly behind the closing bracket, and reports an error when the shape of the value does not fit or an element cannot be converted.',
 ['inputs','programs'],'all arrays and objects, element types and container types, nested arbitrarily',
 'Tests parse one array per container.',
 [('container handlers',H+': TypeHandler<std::vector>, <std::array>, T[N], TypeHandlerMap, TypeHandlerSet, TupleTypeHandler, OneOrMany, ArrayVariableContent')],observe=['ParseContext::parseTo'])
p('C19','Enums map names and values one to one',
 'An enum declared with names parses exactly its declared names to their values and rejects every other string, and serializes each declared value to its name; parsing back what was serialized gives the same value.',
 ['inputs','programs'],'all strings and numbers, all declared values',
 'Tests check a few names.',
 [('enum handlers',H+': EnumHandler, TypeHandler for JS_ENUM')],observe=['ParseContext::parseTo','serializeStruct'])
p('C20','Null and absence are kept apart for optional and nullable members',
 'A null resets pointer members, sets the null state of checked nullable members and leaves plain nullable members alone; for optional members, whose empty state is absence, it is a value like any other and is judged by the contained type. A present value assigns it and marks the member as present. An absent member leaves the previous state and is only an error for members that are not optional. When serialized, empty pointers and checked nullables come out as null, empty optionals are left out, and the result parses back to the same state.',
 ['inputs','programs'],'all combinations of present, null and absent members over all wrapper types',
 'Tests fix one combination per wrapper.',
 [('wrappers',H+': Nullable, NullableChecked, Optional, OptionalChecked, std::optional, std::unique_ptr, std::shared_ptr handlers')],observe=['ParseContext::parseTo','serializeStruct'])
p('C21','Error reports point at the line and column of the offending input',
 'For every malformed document, and for every document that does not fit the type it is read into, the error report names the kind of error and quotes consecutive text of the input with a mark at the rejected byte, directly behind it or in the blanks before it, within the buffer that was being read, whatever the line structure, the size of the document and the context settings; reports about missing or unassigned members list all their names; reports about a token list quote the offending token. A report never tells about an earlier error, and building it never fails or reads outside the input.',
 ['inputs'],'all malformed inputs, all line structures',
 'Tests check three error strings.',
 [('error context',H+': Tokenizer::updateErrorContext, makeErrorString, Internal::getLines')],observe=['Tokenizer::makeErrorString'])
p('C22','All build configurations behave identically',
 'The vectorised builds (SSE2, SSE4.2, AVX2), the plain build and the builds for the different language standards produce identical tokens and errors for every input, option combination and segmentation.',
 ['inputs','configurations'],'all inputs and segmentations; builds selectable on x86-64',
 'The tests run in one configuration; differences show at block boundaries only.',
 [('vector scans',H+': findStringEndSIMD/AVX2, skipWhitespaceSIMD/AVX2, findNumberEndSIMD, findAsciiEndSIMD, skipCommentSIMD/AVX2')],observe=['Tokenizer::nextToken'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
