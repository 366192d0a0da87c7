ACCEL = NOTE + (' The C++ part runs from clang\'s typed syntax tree, the Cython part from Cython\'s own analysed tree; every memory '
                'access of it is checked. Counterexamples and witnesses are replayed on the extension compiled from the same '
                'sources with AddressSanitizer. Trusts the two translations and the compilers.')
IO = 'src/avb/ioctx.py'
PROPS = [
P('C01', 'Fixed-size field codecs are exact, order-correct and reject bad data',
  'For both byte orders, every fixed-size value type of the format (signed and unsigned integers of 1 to 8 bytes, '
  'doubles, flags, four-character codes, rectangles, colours, timestamps) decodes from its bytes to the value they '
  'denote and encodes back to exactly those bytes, consuming and producing exactly the field width. '
  'Encoding a value the field cannot represent, or decoding a field cut short by the end of the data, raises an error '
  'instead of storing or returning another value.',
  ['inputs', 'configurations'], 'every byte pattern of each field, every integer in and out of range, both byte orders',
  'tests/test_utils.py tries a few values per type; a wrong sign, width or order for one bit pattern survives.',
  [IO], [('AVBIOContext read_*/write_* pairs', IO)]),
P('C02', 'Length-prefixed strings round-trip and are bounded by their prefix',
  'Every text the string encodings can express (empty, legacy Mac Roman, UTF-8; without NUL at its ends, which is padding) '
  'is read back equal to what was written, in both byte orders, consuming exactly the bytes written; an absent text is '
  'stored as an empty one, and the null string marker reads as empty. '
  'A text that does not fit its length prefix or encoding is rejected when written, '
  'and a string whose data ends early or is not valid in its encoding is rejected when read.',
  ['inputs', 'configurations'], 'every text up to the stated length, every byte string of the prefix and body, both orders',
  'tests use a handful of ASCII and accented literals; terminator, null-marker and length-boundary handling is unsampled.',
  [IO], [('read_string/write_string and utf-8 tagging', IO)]),
P('C03', 'Identifiers survive their binary encodings bit for bit',
  'Every 16-byte UUID and every 32-byte MobID (including all label, length, instance and material fields) is recovered '
  'bit for bit from each of its binary encodings in both byte orders, using the tagged or raw layout of the format. '
  'An encoding with a wrong field tag or missing bytes is rejected.',
  ['inputs', 'configurations'], 'all 2^128 UUIDs and 2^256 MobIDs, both byte orders, every tag byte, every truncation',
  'tests round-trip a few random ids; a swapped byte pair that the samples share, or an unchecked tag, goes unnoticed.',
  [IO, 'src/avb/mobid.py'], [('read/write of uuid, raw uuid and mob id', IO)]),
P('C04', 'Frame rates and rationals keep their value through their decimal-float encoding',
  'A stored rate or ratio (mantissa and power-of-ten exponent) decodes to mantissa times ten to the exponent, and '
  'writing that value stores a pair denoting the same number. '
  'Writing any rate keeps whole numbers exact and every other value within 1e-6 (or five parts in 1e9), never '
  'turning it into a different rate.',
  ['inputs'], 'every mantissa and the exponents of the format; every decimal rate up to the stated digits',
  'tests check the common broadcast rates only; the special-casing and digit loops depend on values they do not reach.',
  [IO], [('read_exp10_encoded_float / write_exp10_encoded_float', IO)]),
P('C05', 'MobID text, integer, dictionary and binary forms identify the same id',
  'A MobID converted to its URN text, integer, dictionary or byte form and back is the same id, and equality, ordering '
  'and hashing depend exactly on its 32 bytes. '
  'Setting one field of an id changes that field only, malformed text is rejected, and generated ids are distinct and '
  'carry the requested parts.',
  ['inputs'], 'all 2^256 ids for every conversion and accessor; malformed text by single edits',
  'tests convert a few sample ids; half-swapped ids and field boundaries need particular bytes.',
  ['src/avb/mobid.py'], [('MobID accessors and URN/int/dict conversions', 'src/avb/mobid.py')],
  note=NOTE + ' One recorded finding (K05a): the URN of half-swapped ids is ambiguous.'),
P('C06', 'Decoding recovers every field of every object kind of the format',
  'Reading a well-formed object record of any supported kind, in either byte order and with any combination of its optional '
  'fields, yields an object whose fields are exactly the values encoded in the record, with signs, widths and units of the format, '
  'and consumes the whole record. '
  'Optional fields that are not in the record read as absent.',
  ['inputs', 'configurations'], 'all field values of each kind, both byte orders, presence patterns and list lengths up to the stated bound',
  'the sample files contain few values of most kinds and almost no big-endian data; a sign or order slip in one field is invisible.',
  ['src/avb/components.py', 'src/avb/trackgroups.py', 'src/avb/misc.py', 'src/avb/essence.py', 'src/avb/bin.py',
   'src/avb/attributes.py'],
  [('read() of each registered class', 'src/avb/*.py')]),
P('C07', 'Encoding writes every field in its canonical layout, and it decodes back',
  'Writing an object of any supported kind in either byte order produces the canonical record of its fields: the '
  'documented order, widths and tags, with an optional field present exactly when the object has it. '
  'Reading that record back yields an object with the same fields, and writing it again yields the same bytes.',
  ['inputs', 'configurations'], 'all field values of each kind, both byte orders, presence patterns and list lengths up to the stated bound',
  'round-trip tests re-read sample files with the same code, so a matching mistake in reader and writer, or one on rare fields, passes.',
  ['src/avb/components.py', 'src/avb/trackgroups.py', 'src/avb/misc.py', 'src/avb/essence.py', 'src/avb/bin.py',
   'src/avb/attributes.py'],
  [('write() of each registered class', 'src/avb/*.py')]),
P('C08', 'Malformed records are rejected instead of being misread',
  'A record of any supported kind that is cut short at any byte, carries bytes after its end, has a wrong version, '
  'field tag, type code or end marker, a negative count, or refers to an object that does not exist is rejected with an error when read. '
  'It is never returned as an object.',
  ['inputs', 'fault_sequences'], 'every truncation point, every value of each structural byte, every out-of-range reference, both byte orders',
  'the tests read only valid files; the checks that reject bad data are never executed by them.',
  ['src/avb/components.py', 'src/avb/trackgroups.py', 'src/avb/misc.py', 'src/avb/essence.py', 'src/avb/bin.py',
   'src/avb/attributes.py', 'src/avb/utils.py', 'src/avb/file.py'],
  [('tag assertions, end markers, unread-byte check, reference range check', 'src/avb/file.py')]),
P('C09', 'The accelerated reader returns exactly what the reference reader returns',
  'For every well-formed record of a kind the compiled accelerator handles, opening the file with the accelerator and with the '
  'pure Python reader gives objects with the same fields, value types and values. '
  'Objects read by the accelerator are copied, edited and saved exactly like those read by the pure reader.',
  ['inputs', 'configurations'], 'all field values of each accelerated kind, both byte orders of the file, presence patterns up to the stated bound',
  'the accelerator tests compare the two readers on the sample files only.',
  ['src/avb/_ext.pyx', 'src/avb/_ext_core.cpp', 'src/avb/file.py'],
  [('read_* of the accelerator', 'src/avb/_ext_core.cpp')], note=ACCEL),
P('C10', 'The accelerated reader stays inside its buffer and rejects malformed records',
  'Given any record, truncated or damaged ones included, the compiled accelerator never reads outside the bytes it was given, '
  'uses uninitialised data or reserves memory out of proportion to the record. '
  'A record that the pure Python reader rejects as cut short, too long or damaged is also rejected by the accelerator.',
  ['inputs', 'fault_sequences'], 'every truncation point, every value of each byte of a record, every out-of-range reference, code and count',
  'no test feeds the accelerator invalid data.',
  ['src/avb/_ext.pyx', 'src/avb/_ext_core.cpp'], [('Buffer reads and error returns', 'src/avb/_ext_core.cpp')], note=ACCEL),
P('C11', 'Saving and reopening a file preserves the whole object graph',
  'Writing a file and reading it back gives the same graph of objects: same kinds, same field values, every reference '
  'leading to the counterpart of its original target (shared targets stay shared), the same root, save time and creator '
  'version (padded or cut to its 30-byte field), in either byte order. '
  'Every object reachable from the root is stored exactly once and the header counts match the stored objects; object '
  'graphs are acyclic.',
  ['inputs', 'histories', 'configurations'], 'graph shapes and field values up to the stated size, both byte orders',
  'the tests rewrite sample files; sharing, ordering of new and untouched objects, and header accounting are not varied.',
  ['src/avb/file.py', 'src/avb/utils.py'], [('AVBFile.write / write_object / walk_references', 'src/avb/file.py')]),
P('C12', 'Objects can be read in any order, any number of times, with one identity each',
  'Objects of a file resolve to the same data whatever the order in which they are accessed, and while one is alive every path to '
  'it yields the same object. '
  'Enumerating the records of a file visits each stored object once, in file order, with its kind and data.',
  ['inputs', 'histories'], 'all access orders up to the stated number of objects',
  'tests walk the files front to back.',
  ['src/avb/file.py'], [('AVBFile.read_object cache and object positions', 'src/avb/file.py')]),
P('C13', 'Edits are saved, and only edits: untouched objects are carried over unchanged',
  'After any sequence of edits to objects of an open file (assigning fields, changing object lists and attribute maps, adding objects), whether or not the caller keeps the objects it went through, saving to another file stores the edited state of every object reachable from the root. Objects that were only read are not treated as modified, objects that were not edited keep their stored content, and the opened file itself is not changed.',
  ['histories', 'inputs'], 'edit sequences up to the stated length over the fields of an open file',
  'tests perform one or two edits on one file.',
  ['src/avb/core.py', 'src/avb/file.py', 'src/avb/utils.py'], [('mark_modified, AVBPropertyData, modified_objects', 'src/avb/core.py')]),
P('C14', 'Object lists and attribute maps behave like lists and dictionaries of objects',
  'A list of object references and an attribute map behave like a plain list or insertion-ordered dictionary of the referenced objects for reading, slicing, searching, comparing, concatenating and iterating and for every operation that changes them (append, insert, extend, in-place concatenation and repetition, assignment, deletion, removal, pop, clear, sort, reverse; map assignment, deletion, pop, default, update, reordering, clear), with the same results and errors. Every such change to an opened file survives and is what gets saved.',
  ['histories', 'inputs'], 'operation sequences up to the stated length, all indices and slices',
  'tests use append and indexing.',
  ['src/avb/utils.py', 'src/avb/attributes.py'], [('AVBRefList, Attributes', 'src/avb/utils.py')]),
P('C15', 'Copying an object yields an equal, independent tree',
  'Copying an object, into another file or the same one, produces objects of that file with the same kinds and exactly the same fields and values, '
  'through every level of nested parts, empty references included, and the copy can be saved. '
  'Changing any part of either tree afterwards (a field, a list, an attribute, a byte of data, an id) does not change the other.',
  ['inputs', 'histories'], 'every object kind, all field values, presence patterns and list lengths up to the stated bound, any single part changed',
  'tests copy mobs of one sample file and compare them after saving; they never change a copy.',
  ['src/avb/core.py', 'src/avb/attributes.py'], [('AVBObject.copy', 'src/avb/core.py')]),
P('C16', 'Newly created objects start from fresh, valid defaults',
  'Every kind of object can be created, belongs to the file that created it, and starts from the same defaults (with the '
  'name, type, rate and media kind it was asked for; unknown types and kinds are rejected); new mobs get distinct ids. '
  'Changing any part of a new object never changes another object, another part of it, or what is created later.',
  ['histories', 'inputs'], 'every class that can be created, any part of it changed to any value',
  'tests create objects but never look at two of them.',
  ['src/avb/core.py', 'src/avb/bin.py', 'src/avb/file.py', 'src/avb/trackgroups.py'], [('property defaults, AVBFactory', 'src/avb/core.py')]),
P('C17', 'Sequence positions, lengths and time lookups agree with the clip lengths',
  'In a sequence every component starts where the lengths before it add up to, with transitions overlapping the '
  'neighbouring clips, and the sequence is as long as its parts. '
  'The component found for a time is one whose span contains it, a transition rather than the clips it joins, never one '
  'without length; before the start it is the first and after the end the last component (transitions no longer than either neighbour).',
  ['inputs'], 'all clip lengths and times, patterns of clips, fillers, nested sequences and transitions up to the stated number',
  'tests use a few fixed sequences; boundary times, zero lengths and transitions next to each other need particular values.',
  ['src/avb/components.py'], [('Sequence.positions / nearest_component_at_time', 'src/avb/components.py')]),
P('C18', 'Parameter curves evaluate to their control points and interpolate between them',
  'A keyframed parameter evaluates at a control point to its value, before the first and after the last point to their '
  'values, and in between as its interpolation says: constant holds, linear is the straight line, bezier the cubic '
  'curve with the handles of the two points (a handle reaching past the other point is shortened to it), spline stays between the values of the two points and is straight through evenly spaced points on a line. '
  'Curves without points, with an invalid point time or an unknown interpolation are rejected.',
  ['inputs'], 'all control point times and values up to the stated number of points; given handle lengths and point distances for bezier and spline',
  'tests sample a few curves at a few times.',
  ['src/avb/trackgroups.py'], [('ParamClip interpolation', 'src/avb/trackgroups.py')]),
P('C19', 'Speed curves integrate to the source offset they describe',
  'Integrating a speed curve over a range of frames gives one offset per half frame, in order, starting from the base '
  'offset at the first control point: base plus speed times time for a constant speed, and otherwise steps that add up the '
  'speeds on the way. '
  'The offset of a frame does not depend on the range asked for; a range that ends before it starts is rejected.',
  ['inputs'], 'all speed values and base offsets; stated ranges of frames and numbers of points',
  'tests check one or two retimes.',
  ['src/avb/trackgroups.py'], [('integrate', 'src/avb/trackgroups.py')]),
P('C20', 'Mob lookup and dependency search are complete',
  'Every mob of a bin is found by its id (and only by it) and listed in order under its type; the mob of a clip is the one with the '
  'id the clip refers to, and its track the first one with the number and media kind of the clip. '
  'The dependencies of a mob are exactly the other mobs reachable through its clips, wherever they are nested in it and '
  'even if mobs refer to each other, each once and after its own dependencies.',
  ['inputs', 'histories'], 'all ids and track numbers, reference graphs and lookup histories up to the stated number of mobs',
  'tests look at a few sample bins: no missing, repeated or cyclic references, no lookups between changes.',
  ['src/avb/bin.py', 'src/avb/components.py', 'src/avb/trackgroups.py'], [('content lookup', 'src/avb/bin.py')],
  note=NOTE + ' One recorded finding (K20a): changes of a bin after the first lookup, other than adding mobs.'),
P('C21', 'Kind names and numbers map one to one',
  'Every stored media kind number has its own name and every known name leads back to its number; unknown names are '
  'rejected and change nothing. '
  'Mob types, usage codes, interpolations, value types and control point properties are named as the format numbers them, unknown mob types rejected.',
  ['inputs'], 'all stored numbers, all texts up to the stated length',
  'tests use two kinds.',
  ['src/avb/components.py', 'src/avb/trackgroups.py', 'src/avb/misc.py'], [('name tables', 'src/avb/trackgroups.py')]),
P('C22', 'Only whole AVB files open',
  'A file opens only if its header is that of an AVB file in one of the two byte orders (byte order mark, markers, header '
  'version byte and byte order code), all its parts up to the start of its last record are there and its root number is not beyond its records; any other is rejected with an error. '
  'A record that is cut short is rejected when it is read. '
  'The date text, save time, creator version and reserved bytes of the header do not matter: any of them opens, with the version and save time of the header.',
  ['inputs'], 'every byte of the header replaced by any other, files cut at every byte, listed wrong counts and root numbers, free header parts of the stated lengths',
  'tests open whole files only.',
  ['src/avb/file.py'], [('Header and record table', 'src/avb/file.py')]),
P('C23', 'Saving is repeatable, and a save that fails destroys nothing',
  'Saving changes nothing in memory: saving again stores the same bytes. '
  'A save that is refused, because a value does not fit its field, an object belongs to another file or the byte order is unknown, leaves the file that was at the '
  'destination as it was, and once the value is put right the same is stored as if it had never failed. '
  'Saving over the file that is open stores the same as saving elsewhere.',
  ['histories', 'fault_sequences', 'inputs'], 'objects of every kind saved three times; one unstorable value, object or byte order at the listed places; files of 1 or 2 mobs saved over themselves',
  'tests save a file once, to a new place.',
  ['src/avb/file.py', 'src/avb/core.py'], [('AVBFile.write', 'src/avb/file.py')]),
P('C24', 'Every object can be printed',
  'The printed form of any stored or newly created object, whatever its field values, exists and names its class and, where it has them, its name and its length; printing changes nothing.',
  ['inputs'], 'objects of every kind but the lists and maps, any values of the printed fields, one or all at a time',
  'tests print a few objects of sample files.',
  ['src/avb/core.py'], [('__repr__', 'src/avb/core.py')]),
]
