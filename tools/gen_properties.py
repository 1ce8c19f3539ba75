#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the prose stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      observe_at=obs or [],hook_needed=None)))
E='oct/src/encode/encode/mod.rs'; D='oct/src/decode/decode/mod.rs'; SZ='oct/src/encode/sized_encode/mod.rs'
SL='oct/src/slot/mod.rs'; IN='oct/src/decode/input/mod.rs'; OU='oct/src/encode/output/mod.rs'
SS='oct/src/sized_slice/'; ST='oct/src/sized_str/'; SI='oct/src/sized_iter/mod.rs'; M='oct-macros/src/'
p('C01','Every intact message decodes to exactly what was sent',
 'When peers exchange messages encoded with this library over a transport that may lose, duplicate, reorder or delay them, partition the peers or crash and restart them, every message that arrives undamaged decodes to a value equal to the one encoded, for every supported type including derived structures and enumerations. Decoding consumes exactly the bytes encoding produced, so messages packed back to back in one datagram come apart at the right places. Once faults stop, every request that is retried is answered within a bounded number of attempts.',
 ['inputs','histories','fault_sequences','programs'],
 'all values of all supported and derived types, all histories of sends, deliveries, retries, crashes and restarts, all batches of messages in a datagram',
 'The tests encode one or two hand-picked values of some types into a fresh buffer and never exchange a sequence of messages; most collection, address, time, lock and derived types are never decoded from what was encoded.',
 [E,D,SS+'code.rs',ST+'code.rs',SL,M+'impls/'],
 [('paired Encode/Decode implementations of each type',E+', '+D),('derived field-by-field encoding and decoding',M+'impls/encode_struct.rs, decode_struct.rs, encode_enum.rs, decode_enum.rs'),('discriminant assignment shared by all derives',M+'discriminants/mod.rs'),('slot write and read',SL)],
 obs=['<T as Encode>::encode','<T as Decode>::decode','Slot::write','Slot::read','Input::position'])
p('C02','Damaged messages never become a wrong or ill-formed value',
 'Bytes that a fault has truncated, extended, flipped, spliced or replaced either decode to precisely the value those bytes denote under the wire format or are refused: a complete but invalid encoding is refused with an error, an incomplete one never yields a value. No ill-formed value (a surrogate character, invalid UTF-8, an interior null in a C string, a zero non-zero integer, a collection over its capacity, an unassigned variant) is ever produced, and nothing outside the supplied bytes is read. The receiver stays usable: the next intact message decodes correctly.',
 ['inputs','fault_sequences','histories'],
 'all byte strings reachable by transport faults, at every position, for every decodable type, interleaved with intact traffic',
 'The tests decode only well-formed literals; they feed no truncated, corrupted or out-of-range input to any decoder.',
 [D,SS+'code.rs',ST+'code.rs',ST+'conv.rs',IN,M+'impls/decode_enum.rs'],
 [('validation of characters, strings, C strings, non-zero integers',D),('capacity checks',SS+'code.rs, '+ST+'code.rs'),('unassigned discriminant arm',M+'impls/decode_enum.rs'),('bounds check of every read',IN)],
 obs=['<T as Decode>::decode','Slot::read'])
p('C03','A slot holds exactly what its last successful update put in it',
 'After any history of encodings, copies, raw writes with a length update, and reads, a slot has the length of its last successful update and presents exactly the bytes that update put in it, with an unchanged capacity, through every accessor and comparison. Reading decodes those bytes only, never remnants of an earlier, longer message beyond them. An encoding that fails, panics or runs out of room leaves the length as it was and changes no byte beyond those it had emitted when it failed; a copy or length update that does not fit is refused and changes nothing; nothing is ever written outside the slot.',
 ['histories','fault_sequences','inputs'],
 'all histories of slot operations with failing, panicking and oversized updates, all capacities',
 'The tests write a fresh slot and look once; no test reuses a slot after a longer message, a failed encode or a receive into its raw buffer.',
 [SL,OU,IN],
 [('length recorded from the stream position after a successful encode only','Slot::write in '+SL),('read restricted to the used part','Slot::read in '+SL),('capacity assertions','Slot::copy_from_slice, Slot::set_len in '+SL)],
 state=[('buf','allocated bytes; capacity is its length',SL),('len','length of the last update',SL)],
 obs=['Slot::as_slice','Slot::len','Slot::read','Slot::capacity'])
p('C04','Every element is dropped exactly once, whatever fails',
 'Every element owned by a value of this library, or created while decoding, copying or converting one, is dropped exactly once: never leaked, never dropped twice, never used after it was dropped. This holds when decoding fails or panics part-way through a collection, when input runs out, and when user code invoked while cloning or collecting panics. All heap memory obtained on the way is returned with the layout it was requested with.',
 ['histories','fault_sequences','inputs'],
 'all histories of decoding, encoding, cloning, collecting, converting and dropping containers of tracked elements, with a failure or panic injected at any element',
 'The tests use only plain-data elements, for which a leak or double drop is invisible, and inject no failure.',
 [D,SS+'mod.rs',SS+'conv.rs',SS+'iter.rs',SS+'code.rs',SI],
 [('incremental construction that owns what it has built',D+', '+SS+'code.rs, '+SS+'iter.rs'),('ownership transfer of raw storage',SS+'conv.rs'),('destructor',SS+'mod.rs')],
 obs=['Drop of element types','global allocator'])
p('C05','Concurrent encoding takes an atomic, deadlock-free snapshot',
 'Encoding a mutex, reader-writer lock or lazily initialised value while other threads use it yields a state the value really had between the start and end of that encoding, never a mixture of two updates. The lock is released however encoding ends, a lock poisoned by a panicking thread is still encoded, encoding through a reader-writer lock does not exclude other readers, and a lazy value is initialised exactly once. Encoding never deadlocks a program that would not otherwise deadlock.',
 ['schedules','fault_sequences','histories'],
 'all interleavings of encoder, reader and writer threads, with panics inside critical sections, failing encodings, exhausted output and spurious wake-ups',
 'The tests are single-threaded and never encode a contended or poisoned lock.',
 [E],
 [('guard held across the encoding of the inner value','Encode for Mutex and RwLock in '+E),('recovery from poisoning','PoisonError::into_inner in '+E),('forced initialisation by dereference','Encode for LazyLock and LazyCell in '+E),('atomic load','impl_atomic in '+E)],
 obs=['<Mutex<T> as Encode>::encode','<RwLock<T> as Encode>::encode','<LazyLock<T> as Encode>::encode'])
p('C06','Stream operations are all-or-nothing and stay in bounds',
 'Every read from an input stream and write to an output stream either transfers exactly the requested bytes at the cursor and advances it by that many, or fails, moving nothing and reporting, in its fields and its text, the capacity, position and count of the attempt. Remaining, position, capacity and the written part always agree with the history of successful operations, whatever requests failed in between. Encoding into a full output is refused by panic with everything written before intact and nothing outside the buffer touched.',
 ['histories','fault_sequences','inputs'],
 'all histories of reads and writes of any count on streams of any capacity, with exhaustion injected at any point, including absurd counts',
 'The tests perform a few in-bounds operations; no test continues after a refused operation.',
 [IN,OU],
 [('remaining-capacity check before the transfer','Input::read, Input::read_into, Output::write'),('single cursor update after the transfer','Input::pos, Output::pos')],
 state=[('pos','cursor, never past the capacity',IN+', '+OU)],
 obs=['Input::read','Input::read_into','Output::write','position','remaining','as_slice'])
p('C07','A type\'s maximum encoded size is never exceeded',
 'For every type with a stated maximum encoded size, including derived ones and any nesting of the provided ones, no value ever encodes to more bytes than that maximum and no intact encoding takes more to decode. A buffer or slot of that size therefore never runs out of room, however often it is reused for whichever values.',
 ['inputs','histories','programs'],
 'all values of all size-bounded types, all sequences of values written to one reused slot of the stated size',
 'The tests compare the constant of a few types with a literal and never compare it with the longest encodings of collections, results or derived enumerations.',
 [SZ,SS+'code.rs',ST+'code.rs',M+'impls/sized_encode_struct.rs',M+'impls/sized_encode_enum.rs',SL],
 [('MAX_ENCODED_SIZE of each type',SZ),('derived maxima',M+'impls/sized_encode_enum.rs'),('slot sized by the maximum','Slot::new in '+SL)],
 obs=['MAX_ENCODED_SIZE','Slot::new','Slot::write'])
p('C08','Bounded collections behave as vectors and strings with a capacity limit',
 'Through any history of construction, copying, conversion, mutation, comparison, hashing and formatting, a bounded slice or string holds the same elements as an ordinary vector or string given the same operations, refuses what exceeds its capacity (leaving it unchanged) and never stores more, and a bounded string always holds valid UTF-8 ending at a character boundary. Comparison, ordering and hashing agree with the borrowed form. A panic in user code called along the way leaves every surviving collection intact.',
 ['histories','inputs','fault_sequences'],
 'all histories of operations on bounded slices and strings of any capacity and element type, with user-code panics injected',
 'The tests build a handful of strings and slices and compare them once, mostly below capacity and with plain-data elements.',
 [SS+'mod.rs',SS+'conv.rs',SS+'cmp.rs',SS+'iter.rs',ST+'mod.rs',ST+'conv.rs',ST+'cmp.rs'],
 [('capacity checks of constructors',SS+'mod.rs, '+ST+'conv.rs'),('character-wise collection',ST+'mod.rs'),('comparison through slices',SS+'cmp.rs, '+ST+'cmp.rs')],
 state=[('buf','storage for N elements',SS+'mod.rs'),('len','initialised elements',SS+'mod.rs')],
 obs=['SizedSlice and SizedStr public methods'])
p('C09','Bounded iterators yield each element once, in order, from both ends',
 'Through any interleaving of taking from the front, taking from the back, cloning, inspecting and modifying the remainder, an owning iterator over a bounded collection yields exactly the remaining elements in order, each once, reports exactly how many are left, and stays exhausted once exhausted. A clone continues independently from the same point. A panic in the element\'s own code neither corrupts nor repeats other elements.',
 ['histories','inputs','fault_sequences'],
 'all histories of front, back, clone, inspect, modify, collect and fold operations, for all lengths and capacities',
 'The tests run two fixed sequences over eleven plain characters and never ask for the remaining count.',
 [SI,SS+'iter.rs'],
 [('front cursor and remaining length',SI)],
 state=[('pos','index of the next element',SI),('len','remaining elements',SI)],
 obs=['SizedIter::next','next_back','size_hint','as_slice','clone'])
p('C10','Values that cannot be encoded are refused, never truncated',
 'A size outside the 16-bit range, a collection or string of more than 65535 elements or bytes, a reference cell that is mutably borrowed at that moment, or a variant whose discriminant does not fit is always refused with an error naming the offending value and, inside collections, the index of the offending element; the text of the error says so too. No truncated or wrapped number is ever emitted as if it had succeeded. Everything encoded earlier into the same output stays intact, and the value encodes normally once the obstacle is gone.',
 ['inputs','histories','fault_sequences'],
 'all unencodable values at all positions in all containers, all histories in which the obstacle appears and disappears',
 'The tests encode only encodable values.',
 [E,'oct/src/error/','oct-macros/src/impls/encode_enum.rs'],
 [('checked narrowing of usize and isize',E),('length prefix through the same narrowing',E),('try_borrow of reference cells',E),('error index','ItemEncodeError in '+E)],
 obs=['<T as Encode>::encode result','Output::as_slice'])
p('C11','The wire format interoperates with an independent implementation',
 'Peers that implement the documented wire format independently understand every message this library produces and are understood by it: little-endian integers, 16-bit sizes and length prefixes, no prefix for arrays and tuples, one-byte markers for optionals, results, booleans and address families, discriminants as declared, fields in declaration order, transparent wrappers. The owned, borrowed, bounded and shared forms of the same data are interchangeable on the wire. A receiver with a smaller capacity refuses what does not fit.',
 ['inputs','histories','programs'],
 'all values of all types exchanged, in either direction, with an independent peer, and all pairs of interchangeable types, over a faulty transport',
 'The tests compare bytes of a few literals; whole families (addresses, times, collections, derived discriminants, borrowed forms) are unpinned and a symmetric change of both directions would go unnoticed.',
 [E,D,M+'discriminants/mod.rs',M+'impls/encode_enum.rs',M+'repr/mod.rs','oct/src/decode/decode_borrowed/mod.rs'],
 [('per-type layouts',E+', '+D),('discriminants',M+'discriminants/mod.rs'),('representation',M+'repr/mod.rs')],
 obs=['encoded bytes','decoded values'])
p('C12','Hash maps and sets survive any hashing and any iteration order',
 'A map or set decodes to one with the same entries whatever hashers, hash seeds and insertion orders the two peers use, across restarts with new seeds and with colliding keys. Its encoding states its length and occupies exactly the bytes its entries denote, so what follows it in the same message is unaffected. When received bytes repeat a key, the last entry wins.',
 ['inputs','configurations','histories'],
 'all maps and sets, all pairs of sender and receiver hash seeds including degenerate ones, all histories of restarts',
 'No test encodes or decodes a map or set.',
 [E,D],
 [('length prefix and entry sequence','HashMap and HashSet in '+E+' and '+D)],
 obs=['<HashMap as Encode>::encode','<HashMap as Decode>::decode','<HashSet as Encode>::encode','<HashSet as Decode>::decode'])
p('C13','Clock readings survive skew, jumps and extreme values',
 'A time point sent by any node, whatever its clock does (skew, steps, before the epoch, the ends of the representable range), arrives as the same whole second, its sub-second part discarded toward the epoch, so order between received time points never inverts the order of those sent. A duration arrives exactly, to the nanosecond. Every encodable timestamp decodes or is refused; none is silently altered and none makes encoding fail.',
 ['inputs','histories','fault_sequences'],
 'all clock readings producible by skewed, stepped and extreme clocks on communicating nodes',
 'One test encodes a few recent dates.',
 [E,D],
 [('timestamp conversion','SystemTime in '+E+' and '+D),('seconds and nanoseconds','Duration in '+E+' and '+D)],
 obs=['<SystemTime as Encode>::encode','<SystemTime as Decode>::decode','<Duration as Encode>::encode','<Duration as Decode>::decode'])
p('C14','Running out of memory is fail-stop',
 'When memory runs out at any allocation made while decoding, encoding, or converting, the operation stops by panicking or aborting, or completes correctly. It never continues with missing, partial or foreign memory, never returns a wrong value and never corrupts what existed before.',
 ['fault_sequences','inputs'],
 'failure of any one allocation, or of all from some point on, during any operation',
 'The tests never make an allocation fail.',
 [D,SS+'conv.rs',SL],
 [('null check','SizedSlice::into_boxed_slice in '+SS+'conv.rs'),('infallible allocation of the standard collections',D)],
 obs=['process exit','returned values'])
p('C15','A log of encoded records recovers to an exact prefix after a crash',
 'If records encoded back to back are appended to a file and a crash leaves only some prefix of those bytes, decoding the file from the start yields exactly the records that were completely stored, in order and unchanged, and then stops without producing a further record. Nothing after a complete record influences how it decodes. Recovery and continued appending can be repeated through any sequence of crashes.',
 ['crash_points','histories','inputs'],
 'all sequences of records of all types, all crash points at every byte and write boundary, repeated crashes during recovery',
 'The tests never decode more than one value from a buffer and never from a truncated one.',
 [E,D,IN,OU],
 [('self-delimiting encodings',E+', '+D),('exhaustion check on every read',IN)],
 obs=['<T as Decode>::decode','Input::position'])
p('C16','Refusals say what was wrong and where',
 'When a complete but invalid message is refused, the error identifies the actual fault: the index of the first bad element at each level of nesting, the offending code point, byte, offset, discriminant or timestamp, or the capacity and the length that exceeded it. Refusal stops at that first fault, and errors inside derived types carry the same underlying cause. The text of the error and its chain of sources name each of these facts. An error is never reported for something that was not wrong.',
 ['inputs','fault_sequences'],
 'all invalid messages produced by transport damage at any position and depth, for every decodable type',
 'No test decodes an invalid message or inspects a decoding error.',
 [D,SS+'code.rs',ST+'code.rs',ST+'conv.rs','oct/src/error/','oct/src/primitive_discriminant/mod.rs'],
 [('error construction at each decoder',D),('conversion to the derived error type','oct/src/error/generic_decode_error.rs')],
 obs=['<T as Decode>::Error'])
p('C17','Every documented feature combination builds and works without std',
 'With any combination of the documented feature flags, including none, the crate builds and the types that remain available behave as they do with all of them, without requiring the standard library.',
 ['configurations'],'all combinations of the alloc, proc-macro and std features',
 'The test suite only builds the default features.',
 ['oct/Cargo.toml','oct/src/lib.rs'],[('cfg(feature) gates','oct/src/')],obs=['event logs of simulated exchanges in each build','cargo build'])
p('C18','Deriving rejects what it cannot encode, at compile time',
 'Deriving an encoding for a union, for an enumeration with a non-literal discriminant or an unsupported representation, or for a type with a field that is not itself encodable is rejected at compile time with a diagnostic; no such type compiles to a wrong encoding.',
 ['programs'],'all type definitions given to the derive macros',
 'No test compiles an invalid definition.',
 [M+'impl_derive_macro.rs',M+'repr/mod.rs',M+'discriminants/mod.rs'],[('macro panics',M)],obs=['rustc diagnostics'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
