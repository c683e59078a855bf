"""Texts of the properties (gen.py writes properties.jsonl from them)."""


def P(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)


RP = 'src/ringhopper-primitives/src/'
RH = 'src/ringhopper/src/'

PROPS = [
    P('P01', 'Tag files of every group are read and written exactly as the format lays out',
      'For every tag group, a tag file is a 64-byte header (constants, group code, version, checksum of everything after it) followed by the main structure and what its fields append, in field order. Reading a well-formed file yields exactly the value its bytes spell out, field by field: offset, type, byte order, array nesting and unsaved fields as the format defines them. Writing a value produces exactly that layout, so a file that is read and written back is unchanged except for bytes that carry no meaning, and every value read back after writing is the value written.',
      ['inputs'], 'every tag group, every well-formed file of it: all field values, array lengths and nesting depths, all contents of unused bytes',
      'the existing tests parse a few fixtures; there are 84 groups and 300+ generated structures with thousands of offsets, and one wrong offset, order or width shows only in the structure that has it',
      ['src/ringhopper-structs-codegen/src/lib.rs', RP + 'tag.rs', RP + 'parse.rs', 'src/ringhopper-definitions/src/lib.rs', 'src/ringhopper-structs/src/lib.rs'],
      [('generated TagData implementations (read_from_tag_file, write_to_tag_file)', 'src/ringhopper-structs-codegen/src/lib.rs'), ('TagFile::read_tag_from_file_buffer, to_tag_file, TagFileHeader', RP + 'tag.rs')]),
    P('P02', 'Damaged tag files are refused, and never crash or exhaust the reader',
      'A tag file is accepted only if its header is valid for its group and version, its checksum matches (unless disabled in the header or by the reader), and every array, data block and reference lies inside it with nothing left over. Anything else is an error: any changed byte is noticed by a strict reader, truncated or extended files are refused even with a correct checksum, and a file is never read as another group. No input whatever makes reading panic or take memory out of proportion to the file, and an accepted file is a value that can be written and read back.',
      ['inputs'], 'every byte string given as a tag file, strict or relaxed, as any group',
      'the existing tests read well-formed fixtures only; lengths near integer limits, nested counts and single-bit damage need particular inputs',
      [RP + 'tag.rs', RP + 'parse.rs', RP + 'primitive/data.rs', 'src/ringhopper-structs-codegen/src/lib.rs'],
      [('TagFile::load_header_and_data, TagFileHeader::validate', RP + 'tag.rs'), ('bounds checks of the generated readers', RP + 'parse.rs')]),
    P('P03', 'Tags in cache files are read exactly as the cache layout places them',
      'For every tag group, reading a tag out of a cache file yields exactly the values stored at its address: little endian, fields at their documented offsets, arrays and data blocks through their pointers, sound and bitmap data in the map or the resource file as its flag says, references resolved through the tag table, BSP vertices from whichever region the engine keeps them in, and only the fields caches store. Saving the tag gives the corresponding tag file. Damaged cache data is an error or another value, never a panic or an allocation out of proportion.',
      ['inputs'], 'every tag group, every value, every placement of its parts in tag data, BSP data, vertex and resource regions, every damage to them',
      'the existing tests open no cache file; every offset of the cache layout, and the cached/non-cached distinction of every field, is untested',
      ['src/ringhopper-structs-codegen/src/lib.rs', RP + 'map.rs', RP + 'parse.rs', RP + 'primitive/data.rs', RP + 'primitive/path.rs'],
      [('generated TagData::read_from_map implementations', 'src/ringhopper-structs-codegen/src/lib.rs'), ('read_from_map of Reflexive, Data, FileData, BSPVertexData, TagReference', RP + 'primitive/data.rs')]),
    P('P04', 'Fixed-size values are stored exactly, in either byte order',
      'Every fixed-size primitive (integers, floats, vectors, colors, angles, bounds, identifiers, addresses, tag groups, 32-character strings, compressed values) is written as exactly the bytes the file format gives it, big endian or little endian, occupying exactly its declared size and changing no neighbouring byte. Reading any bytes yields the value those bytes encode, so every value reads back as written. A read or write that does not fit in the data or in its struct is reported as an error (reads) and never touches memory outside.',
      ['inputs'], 'every value of every primitive type, every prior buffer content, every offset, both byte orders',
      'the existing tests read and write no primitive on its own; the fixtures cover a few values at fixed places, never neighbouring bytes, boundaries, or both byte orders',
      [RP + 'parse.rs', RP + 'primitive/data.rs', RP + 'primitive/vector.rs', RP + 'primitive/color.rs', RP + 'primitive/string.rs'],
      [('SimpleTagData implementations and macros', RP + 'parse.rs'), ('tag_data_fits / U8SizeConversion bounds checks', RP + 'parse.rs')]),
    P('P05', 'The checksum is CRC-32 of exactly the bytes given, however split',
      'The checksum of any byte string equals division by the reflected CRC-32 polynomial starting from the given register value, for data of any length. Feeding data in pieces gives the same checksum as feeding it whole. Damage confined to one byte always changes the checksum.',
      ['inputs', 'histories'], 'every byte string of every length, every start value, every way of splitting it',
      'the existing test checks one short string; a wrong table entry or a length-dependent slip shows only for particular bytes',
      [RP + 'crc32.rs'], [('crc32 table and loop', RP + 'crc32.rs'), ('CRC32::update', RP + 'crc32.rs')]),
    P('P06', 'Tag paths are normalised, stay inside the tags folder, and survive every form',
      'TagPath accepts exactly the texts that are tag paths (no character Windows or the archive format forbids, not rooted, no component ending in a dot and no reserved device name) and stores them in one normal form: ASCII lower case, backslash separators, no repeated separators. Normalising a stored path again changes nothing. The internal, native, zip and printed forms of a path with its group lead back to the same path and group, and the native form is relative and never leaves the folder it is joined to. Ordering, equality and hashing of paths agree.',
      ['inputs'], 'every text of every length, every tag group',
      'the existing tests use a handful of ordinary paths; escapes, reserved names, repeated separators and non-ASCII text are what matters',
      [RP + 'primitive/path.rs'], [('TagPath::new', RP + 'primitive/path.rs'), ('from_path, split_str_path, to_internal_path, to_native_path, to_zip_path, Display', RP + 'primitive/path.rs')]),
    P('P07', 'Tag groups, their names and their four-character codes match one to one',
      'Every tag group has one name and one four-character code, no two groups share either, and looking a group up by its name or code finds exactly that group. Any other name or code is refused. The group ordering is the alphabetical ordering of names. Each group names the group it extends, and following the chain ends at an object or shader base.',
      ['inputs'], 'every 32-bit code, every text, every group',
      'the existing tests look up a few groups; one wrong entry in a sorted table breaks only the groups next to it',
      [RP + 'primitive/group.rs'], [('FourCC and name tables, binary searches', RP + 'primitive/group.rs')]),
    P('P08', 'Identifiers, indices, script values and padding keep their documented encoding',
      'A tag identifier made from an index (0..65534) and a salt gives back the index and the low 15 salt bits, is valid, is never null, and two different pairs give different identifiers; the raw forms agree, and the checked constructor accepts exactly the raw values of valid identifiers. Index values use FFFF for none and refuse it as an index. A script value read back as the type it was made from is unchanged. Padding brings a size up to the next multiple of the alignment and is less than the alignment, or is an overflow error.',
      ['inputs'], 'every index, salt, raw value, size and alignment',
      'bit-level encodings go wrong only for particular values (top bits, FFFF, wraparound) that examples miss',
      [RP + 'primitive/id.rs', RP + 'primitive/index.rs', RP + 'map.rs'], [('ID::new, index, salt, from_u32_checked', RP + 'primitive/id.rs'), ('Index', RP + 'primitive/index.rs'), ('calculate_padding_for_alignment', RP + 'parse.rs')]),
    P('P09', 'Map readers return exactly the addressed bytes or an error',
      'Reading data from a map at an address returns exactly the bytes of the domain that address denotes (address minus the base the domain is mapped at), for tag data, BSP data and model data, and the same for C strings, arrays of structures and data blocks; when any byte is outside, or the arithmetic overflows, the read is an error. An address of a BSP below its base is looked up in the tag data.',
      ['inputs'], 'every domain size and base, every address and length, including those near the limits of the integer types',
      'the existing tests open no map at all; off-by-one at the end of a domain and overflow near FFFFFFFF need exactly those addresses',
      [RP + 'map.rs', RP + 'parse.rs', RP + 'primitive/data.rs'], [('Map::get_data_at_address, get_c_string_at_address, get_domain', RP + 'map.rs'), ('read_from_map implementations', RP + 'parse.rs')]),
    P('P10', 'Arrays, data blocks and references have one layout, and read back',
      'In a tag file an array is stored as its count with the rest of its field zero, followed, after the structures already appended, by all its elements and then what each of them appends, in order; a data block as its length and then its bytes; a reference as its group code, the length of its path and a null identifier, then the path and one terminator (nothing when the path is empty); bounds and fixed arrays as their elements in order. Writing changes nothing else. Reading gives the same value back (a reference to the empty path reads as the null reference of its group) and ends exactly after the last byte read. Data in which any of it is missing or malformed is an error: never a panic, a wrapped length, or a huge allocation.',
      ['inputs'], 'every element type that itself keeps the contract, every count and length, every prior content, every malformed input',
      'the existing tests write one data block and one array; nesting order, counts near the limits of the integer types and truncated input are what go wrong',
      [RP + 'primitive/data.rs', RP + 'primitive/path.rs', RP + 'primitive/array.rs', RP + 'parse.rs'],
      [('Reflexive, ReflexiveC, DataC and the data types', RP + 'primitive/data.rs'), ('TagReference, TagReferenceC', RP + 'primitive/path.rs'), ('Bounds and fixed arrays', RP + 'primitive/array.rs')]),
    P('P11', 'Bitmap pixel layout: sizes, levels, swizzled order and color plates are exact',
      'Every bitmap format has its documented bits per pixel and block size. A texture is iterated as exactly its levels (each side halved, at least 1, until all are 1 or the mipmap count is reached) and their faces (6 of a cube map, the depth of a 3D texture at that level, else 1), each beginning at the block where the one before ends; by texture, all faces of a level are one item. A bitmap with a side of 0 is refused. Swizzling puts each pixel of a power-of-two texture where interleaving the bits of its coordinates says (square tiles along the longer side; cubes in three coordinates), deswizzling is its exact inverse, nothing else changes, and other sizes are refused with nothing changed. The color plate in a tag is exactly the pixels compressed in it, or an error, and the image recovered from it reads back equal. A color plate made of loose images holds exactly the images of the sequences there are, each in place and framed in colors it does not use; bad colors, images and directories are errors.',
      ['inputs'], 'every width, height, depth, kind, format and mipmap count; every pixel',
      'the existing tests iterate a few 8 by 8 textures and swizzle nothing; order, tiles of oblong textures and the last levels need every size',
      [RH + 'tag/bitmap.rs', RH + 'tag/bitmap/swizzle.rs', RH + 'tag/recover.rs', RH + 'data/bitmap/plate.rs'], [('make_color_plate_from_loose', RH + 'data/bitmap/plate.rs'), ('MipmapFaceIterator, MipmapTextureIterator', RH + 'tag/bitmap.rs'), ('swizzle, swizzle_2d, swizzle_block, swizzle_3d', RH + 'tag/bitmap/swizzle.rs'), ('extract_compressed_color_plate_data', RH + 'tag/bitmap.rs'), ('recover_bitmap', RH + 'tag/recover.rs')]),
    P('P12', 'Extracting a tag gives the tag stored, with the changes of caching undone',
      'Extracting a tag from an opened cache gives the value stored for it, field by field, with exactly the changes made for caches undone: vertices and triangles from where the engine keeps them, in order, with the runtime markers moved; bitmap data of each bitmap put together without padding, faces in tag order, deswizzled, from the map or the resource file; 16-bit sound samples in tag byte order; animation data in tag byte order, with the frames a compressed animation lacks; weights of change colors as differences; velocities and durations per second instead of per tick; detail object heights by the offset of their collection; campaign patches unless forbidden. Anything the data denies (a size, a node, a weight, a domain, another group) is an error, never a panic, an endless recursion, or an allocation out of proportion.',
      ['inputs'], 'every tag of every group in a cache of every engine, every damage to it',
      'the existing tests extract nothing from a cache; the order of faces and levels, the ends of lists and damaged pointers need particular tags',
      [RH + 'map.rs', RH + 'map/extract.rs'], [('extract_tag', RH + 'map.rs'), ('fix_bitmap_tag, fix_sound_tag, fix_object_tag', RH + 'map/extract.rs'), ('extract_vertices, load_all_indices', RH + 'map/extract.rs'), ('fix_model_animations_animation', RH + 'map/extract.rs')]),
    P('P13', 'Compressed numbers, vectors, colors and angles convert to the precision stored',
      'A compressed float or vector component is a two\'s-complement fraction in its own bits (16; 11, 11 and 10; 16 and 16) whose ends are exactly one; every code decodes to that value and encodes to itself, and every number encodes to the nearest code, never one on the other side of zero, whatever the other components are. Integer colors are alpha, red, green, blue from the top byte, their channels 255ths which come back from floating point; luma, gamma, blending and clamping follow their documented formulas and leave alpha where documented. Vector operators act component by component, and normalising gives the length asked for in the same direction. Angles keep radians.',
      ['inputs'], 'every code, every number, every color and vector',
      'the one existing test tries codes, which are exact; numbers between codes, near zero and at the borders are what real normals are',
      [RP + 'primitive/vector.rs', RP + 'primitive/color.rs', RP + 'primitive/plane.rs'], [('compress_float, decompress_float, compress_vector3d', RP + 'primitive/vector.rs'), ('Vector', RP + 'primitive/vector.rs'), ('Color', RP + 'primitive/color.rs')]),
    P('P14', 'Field matchers and the dynamic view reach exactly the items they name',
      'A matcher such as [0-3,7,e].name visits exactly the items its lists select, each once, in ascending order, for reading and for writing alike, and stops when the callback returns false. A list is accepted exactly when every part is a number, a range in order, e or *, and lies inside the array; any other text is an error given to the callback, never a panic, and validation says so beforehand. The dynamic view of an array gives each item by position and none past its end, and inserting puts the item at that position and moves the rest.',
      ['inputs'], 'every matcher text, every array length',
      'the existing tests try some matchers on small arrays; overlaps, adjacency, order and the ends of the array need particular lists',
      [RP + 'dynamic.rs', RP + 'primitive/data.rs', RP + 'primitive/array.rs'], [('parse_range', RP + 'primitive/data.rs'), ('foreach, foreach_mut, validate_matcher', RP + 'dynamic.rs'), ('DynamicTagDataArray, DynamicReflexive', RP + 'primitive/data.rs')]),
    P('P15', 'Text in tags: fixed strings, UTF-16 strings, string lists and tag collections',
      'A fixed string keeps text of up to 31 bytes without NULs exactly, padded with zeros, and refuses longer text; of any 32 stored bytes it gives the text up to the first NUL and at most 31 bytes, with what is no UTF-8 replaced, and writes nothing after it. A UTF-16 string made from text is that text up to a NUL, with CR LF line ends, without lone CRs or control characters other than tabs, and with a NUL at the end; one read from a tag keeps its bytes, and gives its text exactly if it is all that already, else the text so cleaned as an error. A string list is the lines between ###END-STRING### lines of text in UTF-8 or either UTF-16, and the text made from a list reads back as the list; a missing end, a NUL or wrong encoding is refused. A tag collection refers to the path of each line that is not empty, in order, or names the first bad line.',
      ['inputs'], 'every text, every stored bytes',
      'the existing tests try a few strings; line ends, lone surrogates, cut characters and blank lines at the end need particular text',
      [RP + 'primitive/string.rs', RH + 'tag/unicode_string_list.rs', RH + 'tag/tag_collection.rs'], [('String32::from_str, from_bytes_lossy', RP + 'primitive/string.rs'), ('UTF16String::try_parse', RP + 'primitive/string.rs'), ('UnicodeStringListFunctions', RH + 'tag/unicode_string_list.rs'), ('TagCollectionFunctions', RH + 'tag/tag_collection.rs')]),
    P('P16', 'Opening a cache file finds exactly its regions and tags, and is always safe',
      'A cache file is recognised by its header and opened as the engine its version and build denote (or the default engine of its version). Its tag data, BSP, vertex, triangle and resource regions are exactly the ranges its headers and scenario give, and lie inside the file; every tag of its tag array is found by path, index and identifier at the address and in the region stored, BSPs and externally stored tags included; one scenario exists. The checksum is computed over exactly the BSPs (with external vertices), model data and tag data, and a wrong one is refused by a strict reader unless the header disables it. A compressed file opens as its decompressed bytes. A file or resource file that is damaged in any way is refused or opened, never with a panic, an access outside the file, or an allocation out of proportion.',
      ['inputs'], 'every cache file and resource file of every engine, every damage to them',
      'the existing tests open no cache file; the regions are read with unchecked accesses that are sound only if every way of opening a file has validated them',
      [RH + 'map.rs', RH + 'map/gearbox.rs', RH + 'map/xbox.rs', RH + 'map/util.rs', RH + 'map/header.rs', RH + 'map/resource.rs'],
      [('GearboxCacheFile::new, get_domain', RH + 'map/gearbox.rs'), ('XboxCacheFile::new, get_domain', RH + 'map/xbox.rs'), ('load_scenario_info, get_all_tags, fixup_bsp_addresses', RH + 'map/util.rs'), ('ResourceMap', RH + 'map/resource.rs'), ('ParsedCacheFileHeader', RH + 'map/header.rs')]),
    P('P17', 'Decompiled scripts read back as what was compiled; damaged ones are refused',
      'The source made from the compiled scripts of a scenario reads back as exactly its globals (type, name, initial value) and scripts (type, return type, name, parameters, expressions) in order, each expression with its calls, operators and values in order, where the implied begin of a script is left out, Void says nothing and text that needs it is quoted (text without double quotes). Nothing else in the scenario changes. Source is split into pages only between top-level forms, once a page holds 512 KiB; pages are named after the scenario, at most 31 bytes long. A damaged node table, a reference to no node, a cycle, unterminated text, a name used twice or a scenario name over 31 bytes is an error that leaves the source as it was. However damaged the scripts are, decompiling ends, without a panic or memory out of proportion.',
      ['inputs'], 'every script, every graph of nodes, every name',
      'no existing test decompiles a script; quoting, page limits, shared nodes and cycles need particular scripts',
      [RH + 'tag/scenario.rs'], [('decompile_scripts', RH + 'tag/scenario.rs'), ('format_tokens', RH + 'tag/scenario.rs'), ('check_bad_scripts', RH + 'tag/scenario.rs')]),
    P('P18', 'Defaults are set and unset as documented; comparison finds every difference',
      'Setting the defaults of a tag replaces exactly the fields, at any depth, that have a default and are zero in all parts, and then those of the groups whose defaults go together or depend on other fields: sounds, lights, particles, light volumes, looping sounds, shader maps, lens flares, model parts, and the render radius of objects. Unsetting does the reverse in the reverse order, also for values read from a file, and setting, unsetting and setting again is setting. Groups without defaults say so and stay as they are. Comparing two tags of a group reports exactly the fields that differ, in order, each with its path and depth: cache-only fields only when asked, floats at single precision, the common elements of lists of different length as well, and a list as one difference when minimizing is asked.',
      ['inputs'], 'every tag of every group, every pair of tags',
      'no existing test sets a default or compares tags; fields that go together, nested lists and values around a default need particular contents',
      [RH + 'tag/default.rs', RH + 'tag/default/sound.rs', RH + 'tag/default/particle.rs', RH + 'tag/default/shader.rs', RH + 'tag/default/model.rs', RH + 'tag/default/light.rs', RH + 'tag/default/object.rs', RH + 'tag/compare.rs'], [('set_all_defaults_for_tag, unset_all_defaults_for_tag', RH + 'tag/default.rs'), ('set_or_unset_defaults_for_sound', RH + 'tag/default/sound.rs'), ('compare_tags', RH + 'tag/compare.rs')]),
    P('P19', 'Dependencies are exactly the references tags hold; refactoring is all or nothing',
      'The dependencies of a tag are exactly the paths of the references set in it, at any depth of its structure. The recursive dependencies are exactly the tags reachable over references, each with its own, a missing one being an error that names it and its referrer unless broken dependencies are allowed. Those of a map add the tags the engine requires. The reverse dependencies are exactly the tags that refer to the given one. Refactoring groups changes exactly the references it may change. Refactoring paths moves exactly the selected tags, rewrites every reference to a moved tag once, in all tags, and changes nothing else; if it cannot be done, no tag moves. A tag that cannot be opened is reported, never a panic.',
      ['inputs', 'histories'], 'every tag of every group, every graph of references with cycles and missing tags, every selection and replacement',
      'the existing tests count the dependencies of one small tree; cycles, missing tags, collisions of new paths and rollback need particular trees',
      [RH + 'tag/dependency.rs'], [('recursively_get_dependencies_for_tag', RH + 'tag/dependency.rs'), ('get_reverse_dependencies_for_tag', RH + 'tag/dependency.rs'), ('refactor_groups_for_block, refactor_paths_for_tag_tree', RH + 'tag/dependency.rs'), ('recursively_get_dependencies_for_map', RH + 'tag/dependency.rs')]),
    P('P20', 'Filters select what their pattern says; tag trees list, open and write exactly',
      'A filter passes a tag exactly when its group, if any, is that of the tag and its pattern matches the path (the whole name without a group), where * is any text and ? any one character; one expected extension and native separators are normalised away. A tags directory lists every tag of any of its directories exactly once, opens the one of the first directory that has it, says it contains exactly those, and skips files that are no tags. Writing replaces the tag that would be opened, puts new tags in the first directory or everything in the copy-on-write directory, and does nothing when the tag is unchanged. A caching tree opens a tag once, shares it, and writes through at once or on commit as asked. Wrapped trees answer as the tree inside.',
      ['inputs', 'histories'], 'every pattern and path, every content of the directories, every sequence of operations',
      'the existing tests try a few patterns and one cache scenario; a pattern language and overlapping directories need all combinations',
      [RH + 'tag/tree.rs'], [('TagFilter', RH + 'tag/tree.rs'), ('VirtualTagsDirectory', RH + 'tag/tree.rs'), ('CachingTagTree', RH + 'tag/tree.rs'), ('AtomicTagTree, Arc, Box', RH + 'tag/tree.rs')]),
    P('P21', 'Models, BSPs, animations and objects convert losslessly; nudging rounds exactly',
      'The index check of a model passes exactly when every node, geometry, shader and local node index is in range. Converting a model to a gbxmodel and back changes nothing; a gbxmodel with local nodes becomes a model naming the same nodes. Recompressing rebuilds compressed vertices from full ones, or missing full ones from compressed ones, vertex by vertex in order, for models and structure BSPs, and nothing else; BSP vertex data of the wrong size is an error. Runtime markers move to the permutations they name; detail cutoffs mirror. Objects and items convert keeping their common part. Animation frames hold, node by node, what the flags say, and change byte order value by value. Nudging rounds the documented fields to six significant digits, half up, carrying correctly, and twice is once.',
      ['inputs'], 'every model, BSP, animation, object and number',
      'the existing tests nudge a dozen numbers and convert nothing; carries, empty lists, local nodes and bad indices need particular contents',
      [RH + 'tag/model.rs', RH + 'tag/scenario_structure_bsp.rs', RH + 'tag/model_animations.rs', RH + 'tag/convert.rs', RH + 'tag/nudge.rs', RH + 'tag/object.rs'], [('ModelFunctions', RH + 'tag/model.rs'), ('recompress_scenario_structure_bsp_vertices', RH + 'tag/scenario_structure_bsp.rs'), ('FrameDataIterator', RH + 'tag/model_animations.rs'), ('get_tag_conversion_fn', RH + 'tag/convert.rs'), ('nudge_tag', RH + 'tag/nudge.rs')]),
    P('P22', 'Checking and repairing tags ends, reports every problem and mends what it can',
      'Verifying a scenario over any complete tree of tags, with references of any groups, damaged numbers and HUDs that lead back to themselves, ends without panic or deadlock, with a verdict for exactly the tags of the map, the same for every number of threads. A tag with NaN, a color part outside 0 to 1, or a reference of a group the field or engine does not take never passes (single values, bounds and lists); tags with nothing else to check pass otherwise. A missing tag is an error. Permutation chains of a sound are reported exactly when they leave the pitch range or never end. Bludgeon turns NaN to 0 and clamps colors, changes nothing else in tags without own repairs, brings mendable sounds, strings, BSP normals and model rotations into order, refuses the others, leaves healthy ones alone, and twice is once.',
      ['inputs', 'schedules'], 'every tag, every tree of tags and every number of threads',
      'the existing tests verify and repair nothing; bounds, loops, wrong groups and races between threads need particular trees',
      [RH + 'tag/verify.rs', RH + 'tag/verify/sound.rs', RH + 'tag/verify/floats.rs', RH + 'tag/verify/dependencies.rs', RH + 'tag/verify/hud_interface.rs', RH + 'tag/verify/object.rs', RH + 'tag/verify/scenario_structure_bsp.rs', RH + 'tag/bludgeon.rs', RH + 'tag/bludgeon/floats.rs', RH + 'tag/bludgeon/model.rs', RH + 'tag/bludgeon/sound.rs', RP + 'tag.rs', RP + 'primitive/vector.rs'], [('verify', RH + 'tag/verify.rs'), ('verify_sound_permutation_indices', RH + 'tag/verify/sound.rs'), ('check_bad_floats', RH + 'tag/verify/floats.rs'), ('bludgeon_tag', RH + 'tag/bludgeon.rs'), ('for_each_field', RP + 'tag.rs')]),
]

NOT_APPLICABLE = {}
