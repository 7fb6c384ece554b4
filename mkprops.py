#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
E='oct/src/encode/encode/mod.rs'; D='oct/src/decode/decode/mod.rs'; S='oct/src/encode/sized_encode/mod.rs'
O='oct/src/encode/output/mod.rs'; I='oct/src/decode/input/mod.rs'
p('C01','Fixed-size values survive an encode/decode round trip',
 'For every value of every built-in fixed-layout type (integers of all widths, floats bit for bit, bool, char, non-zero integers, atomics, Wrapping/Saturating, tuples up to twelve members, arrays, Option, Result, Bound, the range types, unit, Duration, IP and socket addresses, and whole-second system times), encoding the value and decoding the produced bytes as the same type yields an equal value. Decoding consumes exactly the bytes that encoding produced, no more and no fewer. Encoding such a value into a buffer that is large enough never fails, except for pointer-sized integers that do not fit in 16 bits.',
 ['inputs'],'every value of each listed type (full bit width), composed types over representative members',
 'test_encode/test_decode use one or two literal values per type; round trip must hold for all 2^8..2^128 values and for every variant of every composed type.',
 [E,D],[('little-endian write of the natural width','impl_numeric! in '+E),('matching read','impl_numeric! in '+D),('variant tags','Option/Result/Bound/IpAddr/SocketAddr impls in both files')],['decoded value','Input::position after decode','Output::position after encode'])
p('C02','Collections and strings survive an encode/decode round trip',
 'For every vector, linked list, slice, hash map, hash set, owned string, C string, borrowed-or-owned value, size-limited slice and size-limited string, encoding it and decoding the bytes as the matching owned type yields a collection with the same length and the same elements (in the same order, for ordered collections). Decoding consumes exactly the produced bytes.',
 ['inputs'],'every content and every length up to the stated bound, including empty and full',
 'The tests encode one literal of some collection types, never decode what they encoded, and never touch hash maps, hash sets, linked lists or C strings.',
 [E,D,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs'],[('length prefix then elements','[T], LinkedList, HashMap, HashSet Encode impls in '+E),('length-driven element loop','Vec, LinkedList, HashMap, String, CString Decode impls in '+D),('partially filled fixed buffers','oct/src/sized_slice/code.rs')],['decoded collection','Input::position'])
p('C03','Encodings are byte-for-byte the documented wire format',
 'Every built-in type encodes to exactly the documented octets and nothing else: numbers in little-endian at their natural width, usize/isize as 16-bit numbers, bool as one octet 0 or 1, char as its 32-bit code point, an 8-bit tag before optional (None 0, Some 1), fallible (Ok 0, Err 1), bound (included 0, excluded 1, unbounded 2) and address (4 or 6) values, a 16-bit element count before every variable-length collection or string and none before arrays, and durations as 64-bit seconds then 32-bit nanoseconds. Composite members follow each other in declaration order (address, port, flow information, scope identifier; start then end; key then value) with no padding; zero-information types encode to nothing.',
 ['inputs'],'every value of each type, against an independently written reference encoding',
 'The tests pin the octets of a few literals; a change of order, width, endianness or tag that only shows on other values, variants or types is not seen.',
 [E,'oct/src/lib.rs'],[('to_le_bytes','impl_numeric! in '+E),('tags and order of members','per-type Encode impls in '+E)],['bytes written to the output'])
p('C04','No encoding exceeds the declared maximum size',
 'For every type that declares a maximum encoded size, every value that encodes successfully produces at most that many octets, and successful decoding never consumes more than that many. Consequently a buffer of exactly the declared size always suffices to encode any encodable value of the type without failing or panicking.',
 ['inputs'],'every value of each size-declaring type, including every variant and nested composites',
 'test_sized_encode compares the constant with literals; nothing relates the constants to the bytes that encode actually writes for each value, and Result or size-limited slices are not covered.',
 [S,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs','oct-macros/src/impls/sized_encode_enum.rs','oct-macros/src/impls/sized_encode_struct.rs'],[('MAX_ENCODED_SIZE','SizedEncode impls'),('Slot::new allocates MAX_ENCODED_SIZE octets','oct/src/slot/mod.rs')],['MAX_ENCODED_SIZE','Output::position','Input::position'])
p('C05','Values the format cannot represent are refused, never truncated',
 'Encoding a pointer-sized integer outside the 16-bit range, a collection or string with more than 65535 elements, or a reference cell that is currently mutably borrowed returns an error and never a truncated or altered encoding; everything inside the limits is accepted. The error reports the offending value (or length), and for an element of a collection also its index. When the value itself or the length is refused, nothing has been written to the output.',
 ['inputs'],'every usize/isize, every length, every index of the first unencodable element',
 'No test encodes an out-of-range value, an over-long collection or a borrowed cell; boundaries are at 65535/65536 and -32768/-32769.',
 [E,'oct/src/error/usize_encode_error.rs','oct/src/error/isize_encode_error.rs','oct/src/error/collection_encode_error.rs','oct/src/error/item_encode_error.rs','oct/src/error/ref_cell_encode_error.rs'],[('u16::try_from / i16::try_from',E+' usize and isize impls'),('try_borrow','RefCell impl in '+E),('BadLength/BadItem mapping','[T], [T; N], LinkedList impls in '+E)],['returned error and its fields','Output::position'])
p('C06','Malformed input is rejected exactly, with the offending value',
 'A decoder accepts an input if and only if it is a valid encoding of its type: a char must be a Unicode scalar value, a non-zero integer must not be zero, a string must be valid UTF-8, a C string must hold no null octet, an 8-bit tag must be an assigned one (any non-zero octet counts as true for bool, Option and Result), and a size-limited slice or string must not announce more elements than its capacity. Every rejection carries the exact cause: the code point, the first bad octet and its index, the index of the null octet, the unassigned tag value, the announced length and the capacity, or the index of the element whose decoding failed.',
 ['inputs'],'every input byte string up to the stated length',
 'Only a handful of malformed inputs are tested (two for strings, one for an enum); the boundaries of the accepted sets and the reported fields are not.',
 [D,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs','oct/src/sized_str/conv.rs','oct/src/error'],[('scalar value check','char impl in '+D),('UTF-8 check','String impl in '+D+', SizedStr::from_utf8'),('null octet scan','CString impl in '+D),('tag match','Bound/IpAddr/SocketAddr impls in '+D)],['Ok/Err of decode','fields of the error'])
p('C07','Decoding arbitrary bytes is memory-safe and total on complete input',
 'Decoding any byte string as any built-in type has no undefined behaviour: it reads no octet outside the input, writes no memory outside its own value, and never yields an invalid value. If the input holds as many octets as the encoding announces, decoding returns a value or an error and does not panic; if it is truncated, decoding stops by panicking or returning an error without ever producing a value.',
 ['inputs'],'every byte string of every length up to the stated bound',
 'Tests feed well-formed literals; the claim is over all hostile inputs and all truncation points.',
 [D,I,'oct/src/sized_slice/code.rs','oct/src/sized_str/code.rs'],[('bounds check before raw copy','Input::read, Input::read_into in '+I),('raw buffer writes under a checked length','Vec, String, CString, [T; N], SizedSlice Decode impls')],['panics, Kani memory checks','returned value'])
p('C08','Byte streams keep exact cursor accounting',
 'Reading or writing n octets on a byte stream succeeds if and only if at least n octets remain; on success exactly those n octets are transferred in order and the position advances by exactly n, and on failure neither the position, the stream contents nor the destination changes. Always position plus remaining equals the capacity, the capacity never changes, and a failure reports the capacity, position and requested count as they were. The bytes shown as written by an output are exactly the concatenation of all successful writes, and comparisons of outputs compare exactly those bytes.',
 ['inputs','histories'],'any sequence of operations, as one step from every valid stream state plus short sequences',
 'Streams are only used indirectly and never driven to their limits; no test observes a failed operation.',
 [I,O,'oct/src/error/input_error.rs','oct/src/error/output_error.rs'],[('remaining check','read, read_into, write'),('cursor update','pos += count')],['returned slice or error','position/remaining/capacity','as_slice'],[('pos','cursor; never exceeds the buffer length','Input, Output')])
p('C09','Encodings are self-delimiting and confined to their own bytes',
 'Values encoded one after another into one output decode back one after another from one input, in the same order, whatever their types. What a value decodes to does not depend on any octet after its encoding, and encoding changes no octet of the output buffer before its start or after its end.',
 ['inputs','histories'],'every pair or triple of values of representative types, every surrounding byte content, every start offset',
 'Tests always start at offset zero in a buffer they do not inspect beyond the result.',
 [E,D,I,O],[('cursor-based streams',I+', '+O),('length prefixes and tags',E)],['decoded values','bytes outside the encoding'])
p('C10','Derived implementations follow the declaration',
 'For every struct or enum that derives the traits, the encoding is the discriminant (enums only; in the representation named by its repr attribute, or isize when there is none, with explicit values honoured and missing ones counted on from the previous variant) followed by every field in declaration order, and decoding restores the same variant and fields. An unassigned discriminant is rejected with that value and no variant is ever confused with another; field errors are passed on as their generic cause. The derived maximum size is the sum over fields, plus the discriminant and maximised over variants for enums.',
 ['inputs','programs'],'every value of a family of representative declarations: unit/tuple/named structs, generics, lifetimes, where clauses, every repr, explicit and implicit discriminants',
 'The tests derive two small types and check a few literal values; field order, repr width, implicit discriminants after explicit ones and error paths are unexplored.',
 ['oct-macros/src/impls','oct-macros/src/discriminants/mod.rs','oct-macros/src/repr/mod.rs','oct-macros/src/generic_name/mod.rs','oct-macros/src/impl_derive_macro.rs'],[('discriminant numbering','Discriminants::next'),('representation','Repr::get, Repr::default'),('field order','impls/*.rs')],['bytes written','decoded variant and fields','errors','MAX_ENCODED_SIZE'])
p('C11','A slot holds exactly the last successful encoding',
 'After a successful write to a slot its length is the number of octets of that encoding, its contents are exactly that encoding, and reading it yields an equal value; reading sees only the octets up to the length, never the rest of the buffer. The length never exceeds the capacity, which never changes: copying in or setting a length beyond it panics and a failed write leaves the length unchanged. All octets of a new slot are zero, its views (slices, indexing, comparisons) agree with its length and contents, and a slot made for a size-bounded type can hold every encoding of that type.',
 ['inputs','histories'],'every value, buffer content, length and capacity up to the bound, one operation from every valid slot state plus short sequences',
 'One test writes and reads a few literal chars; stale bytes, partial lengths, failed writes and the bounds panics are not reached.',
 ['oct/src/slot/mod.rs'],[('length update after write','Slot::write'),('input limited to the used part','Slot::read'),('capacity assertions','Slot::set_len, Slot::copy_from_slice')],['len, capacity, as_slice, as_mut_slice','read result','panics'],[('len','octets in use, at most the capacity','Slot')])
p('C12','A size-limited slice behaves as a bounded vector of its elements',
 'A size-limited slice built from a slice, array or iterator holds exactly the given elements in order (an iterator is cut at the capacity and no further element is taken from it; a slice that is too long is refused with its length and the capacity), and its length never exceeds the capacity. Every view and conversion (slices, references to each element, iteration, clones, boxed slice, vector, raw parts) shows the same elements in the same order, writes through mutable views are seen by all others, and copying in a slice that is too long panics instead of writing out of bounds.',
 ['inputs','histories'],'every content and length up to the capacity bound, over several element types including zero-sized ones',
 'One test collects one literal string; conversions, clones, references and over-long data are not tested.',
 ['oct/src/sized_slice/mod.rs','oct/src/sized_slice/conv.rs','oct/src/sized_slice/iter.rs'],[('initialised prefix of a fixed buffer','SizedSlice { buf, len }'),('length check','SizedSlice::new, copy_from_slice')],['as_slice and all other views','LengthError fields','panics'],[('len','number of initialised elements, at most N','SizedSlice')])
p('C13','A size-limited string is always valid UTF-8 within its limit',
 'Constructing a size-limited string succeeds exactly when the text is valid UTF-8 and its octet count does not exceed the limit, and then holds exactly that text; otherwise the error reports the length and limit, or the first invalid octet and its index. Collecting characters yields the longest prefix of whole characters that fits. Every view and conversion (str, bytes, characters, String, boxed string, raw parts, size-limited bytes, clones, indexing) shows the same text, and the default string is empty.',
 ['inputs'],'every byte string and character sequence up to the bound, limits 0 to several octets',
 'Three literals are tested; the interesting cases are multi-octet characters at the limit and every kind of ill-formed sequence.',
 ['oct/src/sized_str/mod.rs','oct/src/sized_str/conv.rs'],[('UTF-8 and length checks','SizedStr::from_utf8, SizedStr::new, FromStr'),('whole-character truncation','FromIterator<char>')],['as_str and all other views','StringError fields'],[('SizedSlice<u8, N>','valid UTF-8 prefix','SizedStr')])
p('C14','The owning iterator is an exact double-ended queue',
 'From any state of the owning iterator of a size-limited slice, taking from the front or back returns the first or last remaining element and removes exactly it, an exhausted iterator keeps returning nothing, and the reported size is always the exact number of remaining elements. Its slice views and clones show exactly the remaining elements in order, and skipping ahead by n returns the element n places after the current front, or nothing when fewer remain.',
 ['inputs','histories'],'every interleaving of front, back and skip operations up to the stated number of steps, every content and length',
 'Two literal sequences are tested; the size hint, slice views and skips from a non-fresh position are not.',
 ['oct/src/sized_iter/mod.rs'],[('pos/len window','next, next_back, nth, size_hint, as_slice, clone')],['returned elements','size_hint, len','as_slice'],[('pos, len','window of live elements inside the buffer','SizedIter')])
p('C15','No element is ever duplicated or dropped twice',
 'Whatever sequence of constructions, conversions, iterations, clones and decodings is performed on the owning containers, every element that is handed to them is given back or destroyed at most once, and none is destroyed while it is still reachable. Elements handed out are the very elements put in, a clone makes exactly one new element per element, and conversions to vectors or boxed slices hand over every element and destroy none.',
 ['inputs','histories'],'every length up to the bound and every choice of operations, with drop-counting elements',
 'All tests use Copy elements, for which double drops are invisible.',
 ['oct/src/sized_slice/conv.rs','oct/src/sized_slice/mod.rs','oct/src/sized_iter/mod.rs',D],[('manual ownership via MaybeUninit','SizedSlice, SizedIter'),('incremental initialisation','[T; N] and Vec Decode impls')],['number of drops per element','number of clones'])
p('C16','Equality, ordering and hashing agree with slices and strings',
 'Equality, ordering and hashing of size-limited slices and strings give the same answer as for the plain slices or strings they hold, whatever their capacities and whichever of the supported types (other capacities, arrays, slices, vectors, strings) they are compared with. In particular equal values are ordered equal and hash equally, also to the borrowed form, and bytes beyond the length never matter.',
 ['inputs'],'every pair of contents and lengths up to the bound',
 'Tests compare a few literals for equality only; ordering, hashing and stale bytes beyond the length are not exercised.',
 ['oct/src/sized_slice/cmp.rs','oct/src/sized_str/cmp.rs','oct/src/sized_slice/mod.rs','oct/src/sized_str/mod.rs'],[('delegation to as_slice/as_str','cmp.rs'),('Hash impls','mod.rs')],['results of ==, cmp, partial_cmp','bytes fed to the hasher'])
p('C17','Converting an error to its generic form preserves the cause',
 'Converting any specific encode or decode error into the generic error keeps the kind of failure and every recorded detail, however deeply the failure is nested in collections, items and enum fields: the string error with octet and index, the null index, the length and capacity, the timestamp, the refused number, the borrow failure, and the unassigned discriminant zero-extended to 128 bits. The reported source error of a generic or composite error is the contained cause.',
 ['inputs'],'every payload of every specific error and every nesting of the composite errors up to depth three',
 'No test constructs or converts any error.',
 ['oct/src/error','oct/src/primitive_discriminant/mod.rs'],[('From impls','generic_decode_error.rs, generic_encode_error.rs'),('to_u128','oct/src/primitive_discriminant/mod.rs')],['variant and fields of the generic error'])
p('C18','Wrapper and pointer types are transparent on the wire',
 'References, boxes, reference-counted pointers, borrowed-or-owned values, cells, reference cells, mutexes, read-write locks, lazily initialised values, one-member tuples, Wrapping, Saturating, non-zero integers and atomics encode to exactly the bytes of the value they hold, propagate exactly its failure, declare the same maximum size, and decode (where supported) to a wrapper around exactly what the value would decode to. Encoding leaves the wrapper as it was (still borrowable, still lockable, same value), works on a poisoned lock, and the lock or borrow is held while the contained value is encoded.',
 ['inputs'],'every contained value of representative inner types, both succeeding and failing',
 'A few wrappers are tested with one literal each; failing inner values and locking are not.',
 [E,D,S],[('delegation to the inner value','wrapper impls in '+E+' and '+D)],['bytes written','returned error','state of the wrapper afterwards'])
p('C19','Decoding is injective: re-encoding restores the consumed bytes',
 'Whenever a byte string is accepted by the decoder of a type, encoding the decoded value produces exactly the bytes that were consumed, so no two different byte strings decode to the same value. The only exceptions are truth tags (any non-zero octet reads as 1), durations whose nanoseconds exceed one second, which are normalised, and hash maps and hash sets, whose order is unspecified.',
 ['inputs'],'every accepted byte string up to the stated length for each type',
 'The tests never re-encode what they decode.',
 [E,D],[('canonical fixed-width fields and tags',E+', '+D)],['bytes consumed versus bytes written'])
p('C20','The crate builds and behaves alike under every feature combination',
 'Disabling any combination of the optional features removes only the items documented as belonging to them; the remaining items build and behave identically.',
 ['configurations'],'all eight combinations of the alloc, proc-macro and std features',
 'Only the default feature set is ever built.',
 ['oct/Cargo.toml','oct/src/lib.rs'],[('cfg(feature) attributes','throughout oct/src')],['successful build'])
p('C21','Encoding shared state under concurrent mutation observes one stored value',
 'While other threads store into an atomic, or lock and modify a mutex or read-write lock, encoding it produces the encoding of a single value that was stored at some time, never a mixture of two values.',
 ['schedules'],'all interleavings of one encoding thread with writers',
 'The tests are single-threaded.',
 [E],[('single relaxed load','impl_atomic! in '+E),('lock held while encoding','Mutex and RwLock impls in '+E)],['bytes written'])
p('C22','Error messages name the cause',
 'The human-readable message of every error contains the details it records (value, index, length, capacity, count), so that a user can find the cause from the message alone.',
 ['inputs'],'every payload of every error type',
 'No test formats an error.',
 ['oct/src/error'],[('Display impls','oct/src/error/*.rs')],['formatted message'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
