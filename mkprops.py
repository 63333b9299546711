#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json,os
H='zzzjson.h'
P=[]
def p(id,title,statement,over,qtext,why,mech,observe,files=(H,),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Parsing accepts exactly the RFC 8259 JSON texts',
 'Parsing a text returns true if and only if the whole text is one RFC 8259 value (any kind at top level) surrounded only by space, tab, LF and CR; inside strings every byte from 0x20 up is accepted, and an escaped surrogate must be a high half directly followed by an escaped low half. Parsing in place, parsing a copy and parsing by length agree on every text, and parsing by length returns false for any text that contains a NUL byte.',
 ['inputs'],'every byte text of any length and nesting depth, for each of the three parse calls, on empty and on already filled values',
 'The conformance suite samples about 210 texts; the grammar is infinite and the interesting deviations (one more digit state, one surrogate bound, one bracket mix-up at depth) lie between samples.',
 [('zj_ParseFast',f'{H}: iterative descent over one text'),('zj_consumeStr / zj_consumeNum / zj_consumeHex',f'{H}: token scanners'),('zj_ParseLen, zj_Parse',f'{H}: copy then ParseFast')],
 ['return value of Parse, ParseLen, ParseFast'])
p('C02','A parsed document mirrors its text exactly',
 'After a successful parse the value tree has exactly the nesting of the text: every container holds its elements or members in text order, duplicates included, and its reported size is their number. Every string, key and number exposes exactly the bytes written in the text (without the quotes) and every literal its kind.',
 ['inputs'],'every accepted text of any length and depth',
 'The tests look at a few fields of a few fixed documents; a wrong link, length, or order that only shows at some shape (empty container followed by a sibling, key after nested container, deep closings) is not sampled.',
 [('zj_ParseFast',f'{H}: node linking and (pointer,length) slices')],['Type, SizeOf, Begin/Next, ArrayGet, ObjGet, GetKey*, GetStr*, GetNum*, Stringify after Parse'],
 state=[('node.Value/Len/Next/Prev/Father/End','tree links and text slices',f'{H} struct zj_node')])
p('C03','A failed parse changes nothing',
 'When parsing returns false, the value is exactly as before the call: an empty value is still empty, and a filled value keeps its type, content, children, key and its place in its document. No other value of any document changes either.',
 ['inputs','histories'],'every rejected text and every state of the target value, at every point at which the text can turn out to be wrong',
 'Needs every failure point (there are 19 error exits) crossed with every prior state of the target; tests check the return value only.',
 [('src_node save and restore',f'{H}: zj_ParseFast')],['all getters after a false Parse'])
p('C04','Scanning never leaves its text and always ends',
 'Parsing and validating read only the bytes of the given text up to and including its terminating NUL (or up to the given length), whatever those bytes are and wherever the text stops. They write nothing but newly obtained memory and the target value, and they end for every text.',
 ['inputs'],'every byte text, including texts truncated at any byte, for all parse and validate entry points',
 'Out-of-bounds reads are invisible to value-comparing tests, and truncation points are not enumerated.',
 [('zj_peek, zj_consume*, zj_checkStr, zj_checkNum',f'{H}: index-based scanners that stop at NUL'),('zj_checkStrLen, zj_checkNumLen',f'{H}: copy with terminator first')],
 ['memory accesses during Parse*, SetStr*, SetKey*, SetNumStr*'])
p('C05','Stringify prints exactly the compact JSON text of the value',
 'For every value, Stringify returns a NUL-terminated text made of that value and its descendants only, in order, with keys, strings and numbers byte for byte as stored, the right brackets, commas and colons, and no other byte; the value\'s own key and siblings are not printed, and an empty value gives the empty text. The document is not changed, and the result does not depend on how large the text gets.',
 ['inputs','histories'],'every document reachable by parsing and mutation, every value inside it, every output length (buffer growth at any point)',
 'Shapes times growth points are unbounded; tests print a handful of documents smaller than the initial buffer.',
 [('zj_Stringify',f'{H}: iterative traversal using Next/Father'),('zj_appendStr, zj_appendChar',f'{H}: growing buffer')],['Stringify'])
p('C06','Every operation keeps the document well formed',
 'After every public operation, in any order, each container\'s size equals the number of its children, and first/next iteration, access by index and later appends and deletes all see that same sequence. Every child belongs to exactly one container, members of objects have keys, elements of arrays have none.',
 ['histories'],'every finite sequence of public operations on any number of values (values are not inserted below themselves)',
 'A broken back link or last-child pointer shows only in a later operation of a particular sequence; three such sequences were in fact broken and untested.',
 [('zj_Move, zj_ObjAdd*, zj_ArrayAdd*, zj_Set, zj_SetFast, zj_ValueCopyFrom, zj_ParseFast',f'{H}: all writers of Next/Prev/Father/End/Len')],
 ['SizeOf, Begin, Next, ArrayGet, ObjGet, Stringify, Add*, Del* after any history'],
 state=[('node links','Value/End/Len of containers, Next/Prev/Father of children',f'{H} struct zj_node')])
p('C07','Add, delete and move change exactly the sequence they name',
 'A successful add appends the item at the end of the named container, a successful delete or move takes out exactly the named child, and everything else in every document keeps its value and order. The moving adds leave the source value empty and remove the item from its former container; adds to arrays drop the key, adds to objects need one; every call that cannot do this returns false and changes nothing.',
 ['inputs','histories'],'every container, position (first, middle, last, only) and item, including items that are children of other containers',
 'Position times history combinations; tests delete from one or two fixed positions and do not look at the other links.',
 [('zj_Move, zj_ArrayAddFast, zj_ObjAddFast, zj_ArrayAdd, zj_ObjAdd, zj_ArrayDel, zj_ObjDel',H)],['children sequence before and after'])
p('C08','Copies are deep, equal and independent',
 'Copy, Set, ObjAdd and ArrayAdd produce a tree equal to the source (same kinds, order, keys, raw texts) that shares no node and no key, string or number text with it. The copy lives entirely in the allocator of the destination, so later changes to the source or release of the source\'s allocator do not affect it, and the source itself is not changed.',
 ['inputs','histories'],'every source tree of any depth, every destination, equal or different allocators',
 'Sharing is invisible until a later mutation or release; tests copy two small documents in one allocator.',
 [('zj_ValueCopyFrom, zj_Copy, zj_Set, zj_ObjAdd, zj_ArrayAdd',H)],['both trees after the copy, later mutations, release of the source allocator'])
p('C09','Setters accept exactly valid JSON string bodies and numbers',
 'Setting a string or a key from text succeeds if and only if the text is a valid JSON string body (no control byte, no bare quote, only legal escapes, paired surrogates), and setting a number from text if and only if it is an RFC 8259 number; with an explicit length the same holds for exactly that many bytes. On success exactly those bytes are stored; on false nothing changes.',
 ['inputs'],'every byte text and length, all string, key and number text setters',
 'Infinite input space with per-byte case analysis; the tests sample some escapes and missed a wrong surrogate bound.',
 [('zj_checkStr, zj_checkStrLen, zj_checkNum, zj_checkNumLen',H),('zj_SetStr*, zj_SetKey*, zj_SetNumStr*',H)],['return value, GetStrFast/GetKeyFast/GetNumFast, Stringify'])
p('C10','Escaping setters store valid text that decodes to the original bytes',
 'Setting a string or key with escaping succeeds for every byte text, stores a valid JSON string body, and reading it back with unescaping gives exactly the original bytes; with an explicit length this includes NUL and control bytes.',
 ['inputs'],'every byte sequence of any length',
 'All 256 byte values in all combinations and lengths; tests use a few strings.',
 [('zj_escapeChars, zj_escapeStr, zj_escapeStrLen',H),('zj_SetStrEscape, zj_SetStrLenEscape, zj_SetKeyEscape, zj_SetKeyLenEscape',H)],['GetUnEscapeStr, GetUnEscapeKey, Stringify'])
p('C11','Unescaping decodes every JSON escape correctly',
 'Reading a string or key with unescaping returns the NUL-terminated byte sequence in which every two-character escape is replaced by its character, every four-digit escape by the UTF-8 form of its code point (surrogate pairs combined into one), and every other byte is kept. The result always fits the memory obtained for it and the stored text is not changed.',
 ['inputs'],'every valid string body: all 65536 code units, all 1048576 surrogate pairs, any length and mixture',
 'Tests decode a few dozen code points.',
 [('zj_unEscapeStr, zj_addUTF8, zj_consumeHexForUnEscape',H),('zj_GetUnEscapeStr, zj_GetUnEscapeKey',H)],['GetUnEscapeStr, GetUnEscapeKey'])
p('C12','Numbers convert from exactly their own text and round-trip',
 'Numeric getters convert exactly the stored number text, whatever its length and whatever bytes happen to follow it in memory. Setting a number from an int, long, long long or finite double stores a valid JSON number that reads back as the same number; a non-finite double is refused and changes nothing.',
 ['inputs'],'every stored number text of any length, every machine number',
 'Depends on neighbouring memory and on lengths above 127, which tests did not reach (both were broken).',
 [('zj_strToInt/Long/LongLong/Double',H),('zj_intToStr/longToStr/longLongToStr/doubleToStr',H),('zj_SetInt/Long/LongLong/Double/Num, zj_GetInt/Long/LongLong/Double/Num',H)],['Get* after Set* or Parse'])
p('C13','Allocator blocks never overlap, move or leak',
 'Every block an allocator hands out lies inside memory the allocator owns and overlaps no other block still in use, and it stays where it is and unmodified by the allocator until release. Releasing an allocator gives every piece of memory it obtained back exactly once and touches nothing of other allocators.',
 ['inputs','histories'],'every sequence of request sizes (up to the stated 1 GiB size limit) on any number of allocators',
 'Needs all request-size sequences around block boundaries; tests use fixed sizes.',
 [('zj_NewAllocator, zj_ReleaseAllocator, zj_allocatorAppendChild, zj_allocatorAlloc',H),('C++ constructor and destructor of zj_Allocator',H)],['addresses returned, malloc/free trace'])
p('C14','Typed getters return the stored content or null and change nothing',
 'Each typed getter returns null (or false or 0) when the value is empty or of another kind, and otherwise exactly the stored content: raw text and length, NUL-terminated copy, boolean, kind, key. No getter changes any value of any document.',
 ['inputs','histories'],'every value state times every getter',
 'Kind times getter times history matrix; tests check the matching kind mostly.',
 [('zj_Get*, zj_IsNull, zj_Type, zj_SizeOf',H)],['getter results, document before and after'])
p('C15','Lookup and iteration find exactly the right child',
 'Lookup by key returns the first member whose raw key bytes equal the given key and null if there is none; lookup by index returns the i-th element and null beyond the end; begin and next walk the children in order and end with null. Returned values refer to the child itself, and no lookup changes the document.',
 ['inputs','histories'],'every container, key and index, including prefixes, empty keys, duplicates and lengths',
 'Key pairs and positions are unbounded; tests look up a few distinct keys.',
 [('zj_ObjGet, zj_ObjGetLen, zj_ArrayGet, zj_Begin, zj_Next, zj_strIsEqual, zj_strIsEqualLen',H)],['ObjGet, ObjGetLen, ArrayGet, Begin, Next'])
p('C16','Setting a value replaces its content and nothing else',
 'Setting a value (null, boolean, number, string, empty array, empty object, moved or copied value) gives it exactly the new kind and content while its key, its position, its siblings and every unrelated value stay as they were; setting a key changes only the key. On an empty value it creates a detached one.',
 ['inputs','histories'],'every value in any position of any document, every setter',
 'Setter times position times prior kind; tests set fresh values.',
 [('zj_SetNull, zj_SetBool, zj_SetNum*, zj_SetStr*, zj_SetKey*, zj_SetArray, zj_SetObj, zj_SetFast, zj_Set',H)],['the document around the value before and after'])
p('C17','All API spellings perform the same operation',
 'For every operation, the C name, the short name, the C++ member function and the C++ wrapper class give the same result and have the same effect for all arguments; results that are values are wrapped one to one, null staying null.',
 ['inputs','programs'],'every entry point of every API layer and all arguments',
 'The wrapper header is not included by any test, and the short names and members only partly.',
 [('short names, members of zj_Value and zj_Allocator',H),('zzzjson::Value, zzzjson::Allocator','zzzjson.hpp')],['every wrapper'],files=(H,'zzzjson.hpp'))
p('C18','Operations share no hidden state and take memory only from their value',
 'No operation reads or writes state that is shared between values of different allocators, so what is done with one document can never influence another, before or after either is released. All memory an operation keeps comes from the allocator of the value it is called on (copying operations: the destination), and temporary memory is given back before it returns.',
 ['histories'],'every interleaving of operations on any number of documents and allocators',
 'The defect class (a static cache into a released allocator) needs a particular release/use history; it was present and untested.',
 [('no static mutable state; every zj_allocatorAlloc call uses the A field of the target',H)],['histories over several allocators, allocation trace'])
p('C19','Memory exhaustion is survived',
 'When the system cannot provide memory, every operation fails cleanly and leaves the document as it was.',
 ['fault_sequences'],'every allocation failure point','Tests never make allocation fail.',
 [('zj_new',f'{H}: result is used unchecked')],['return values under failing malloc'])
p('C20','The Go binding and the beta header behave like the C library',
 'The Go binding and the beta variant of the library give the same results as the main header for every operation.',
 ['inputs'],'every operation and input','Only two performance programs use the beta header, nothing uses the Go file.',
 [('Go binding','zzzjson.go'),('beta variant','beta/zzzjson_beta.h')],['API results'],files=('zzzjson.go','beta/zzzjson_beta.h'))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
