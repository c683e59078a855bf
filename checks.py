"""What each check runs, and what it trusts."""

FMT = 'message formatting (alloc::fmt::format) is replaced by a constant under Kani; no contract mentions message text'
KANI = ['Kani 0.68.0 and CBMC 6.11.0 translate and decide the compiled MIR', 'rustc']
VERUS = ['Verus 0.2026.09.13 with Z3, run with --no-cheating except in units whose assumed contracts are listed in coverage.verus; the text verified is copied from the source on every run, with the rewrites listed in coverage.verus']
DROP = 'drop glue of the error type is not under contract'

STRUCTS = ['the contracts of field types that are not generated (numbers, vectors, colors, text, references, data) are those of this check; P04 and P10 prove the functions themselves against their own statement of the same layout, not against this one',
    'the specifications come from spec/layout.txt, a copy of the layout pinned when the check was written and reviewed against the definitions']
CHECKS = {
    'P01': dict(level='proof', secs=6, trusted=VERUS + ['rustc -Zunpretty=expanded prints what the compiler compiles'], verus_timeout=300,
        technique='Verus contracts, generated from the pinned layout, on the code rustc expands for every structure, enumeration and set of flags; native contracts on whole files',
        level_note='Proved per type for all contents: offsets, order, widths, byte order, appended data. Quick leaves one type (Dialogue) to thorough. Field types are used by contract. Header and checksum are executed.',
        assumptions=STRUCTS + ['headers, checksums and whole files are checked by contracts executed on generated files of every group (bounded)']),
    'P02': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contracts on the extracted tag file reader and writer and the header code, for any tag structure; native contracts on damaged files of every group',
        level_note='The file level is proved for files of any length and any structure keeping the contract of tag data: header, group, version, checksum, leftover. Containers are proved in P10, checksum in P05. Structures under damage, and memory, are executed only.',
        theorems=['TagFile::read_tag_from_file_buffer', 'TagFile::load_header_and_data', 'TagFile::validate_crc32', 'TagFileHeader::validate', 'TagFileHeader::verify_group_matches', 'TagFile::to_tag_file', 'written_is_read'],
        assumptions=[FMT, 'the number, string and group contracts are those discharged by Kani in P04 and P07; the checksum contract is the theorem of P05',
            'a tag structure reads the same amount of appended data whenever it reads the same data', 'memory is measured by counting allocations of the process (executed)']),
    'P03': dict(level='proof', secs=8, trusted=VERUS + ['rustc -Zunpretty=expanded prints what the compiler compiles'], verus_timeout=300,
        technique='Verus contracts, generated from the pinned layout, on the map readers rustc expands for every structure; native contracts on whole maps',
        level_note='Proved per structure for all maps: offsets, order, fields kept in one kind of file. Field types are used by contract. Quick leaves Dialogue to thorough; vertices of BSP materials are executed only.',
        assumptions=STRUCTS + ['field readers, and structures embedded in whole maps, are checked by contracts executed on generated maps (bounded)']),
    'P04': dict(level='proof', kani=True, secs=8, trusted=KANI,
        technique='contracts on the real codec functions, discharged by Kani (CBMC) with every input symbolic',
        level_note='Proved for all values and buffer contents, per function; callers use the bounds check by its contract. Trusts Kani/CBMC and rustc; message formatting is stubbed.',
        assumptions=[FMT, DROP,
            'callers of the bounds check are verified against its contract (fits_contract), which is itself a verified harness of this check',
            'the value sits at offset 1 of its buffer in the Kani harnesses (the bounds check is verified at any offset; native execution varies the offset)',
            'the quick tier proves big-endian writing and little-endian reading and executes the other two directions; the thorough tier proves all four']),
    'P05': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contracts and loop invariants on the extracted checksum code; native replay',
        level_note='Proved for data of every length over the text of crc32.rs extracted on every run. Trusts Verus/Z3 and the extractor.',
        theorems=['crc32', 'CRC32::update', 'table', 'incremental', 'one_byte_damage_detected'], assumptions=['the extracted text is compiled by the same rules in the crate (no macros or attributes change it; attributes and comments are dropped)']),
    'P08': dict(level='proof', kani=True, secs=4, trusted=KANI + VERUS,
        technique='Verus contracts (bit-vector) on the extracted ID and padding functions; Kani contracts on the same and on the script value and index code',
        level_note='Proved for all inputs: every function is loop-free or proved by Verus without bound. Trusts Kani/CBMC, Verus/Z3, rustc.',
        theorems=['ID::new', 'ID::index', 'ID::salt', 'round_trip', 'calculate_padding_for_alignment'],
        assumptions=[FMT, 'an index of 65535 is outside the documented range and not created']),
    'P06': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contract and loop invariant on the extracted TagPath::new with lemmas about the normal form; native contracts on the forms',
        level_note='Proved for text of any length: acceptance and normal form of TagPath::new, idempotence. Assumed: contracts of 5 std functions and the reserved-name test (executed on all cases). Conversions between forms are executed, not proved.',
        theorems=['TagPath::new', 'norm_clean', 'norm_idempotent'],
        assumptions=['str and char functions of the standard library behave as their stated contracts (executed on every character by every_char)',
            'the component test (reserved names, trailing dots) is an uninterpreted predicate in the proof; executed on every reserved name in every position',
            'to_internal_path, to_native_path, to_zip_path, Display, from_path, Ord and Hash are checked by contracts executed on generated paths (bounded)']),
    'P07': dict(level='proof', kani=True, secs=4, trusted=KANI,
        technique='Kani contract on the code lookup with every 32-bit code symbolic; name lookup contract executed for every group',
        level_note='Proved by Kani for all codes. Names: every group executed (a finite domain, complete); other texts are sampled. Trusts Kani/CBMC and rustc.',
        assumptions=[FMT, 'refusal of texts that are not group names is executed on generated texts (bounded)']),
    'P09': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contracts on the extracted map address translation and slicing; native contracts on the readers built on it',
        level_note='Proved for every domain size, base, address and length: get_data_at_address and the string scan. Readers on top are executed contracts. Trusts Verus/Z3 and the extractor.',
        theorems=['Map::get_data_at_address', 'Map::get_c_string_at_address'],
        assumptions=['reflexive, data and reference readers over maps are checked by contracts executed on generated maps (bounded)']),
    'P10': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts and loop invariants on the extracted readers and writers of arrays, data, references and bounds, over a trait contract for tag data; native contracts on the same',
        level_note='Proved for arrays of any length over any element type keeping the contract, data of any length, references and bounds. Assumed: number codecs (proved by P04), group codes (P07), UTF-8. Fixed arrays ([T; N]) and strings are executed only.',
        theorems=['Reflexive::read_from_tag_file', 'Reflexive::write_to_tag_file', 'Data::read_from_tag_file', 'Data::write_to_tag_file', 'TagReference::read_from_tag_file', 'TagReference::write_to_tag_file', 'Bounds::read_from_tag_file', 'Bounds::write_to_tag_file'],
        assumptions=['contracts of u32 and padding codecs, discharged in check P04', 'group codes round-trip, discharged in check P07', 'UTF-8 encoding of the standard library is an injective function of the text',
            'memory never holds a byte vector longer than usize::MAX', '[T; N] and UTF16String are checked by executed contracts (bounded)']),
    'P11': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contracts, loop invariants and lemmas on the extracted swizzling code and mipmap iterators; native contracts on the same and on color plates',
        level_note='Proved for every size up to 65536 per side (iterators) and every size that fits memory (swizzling): order, inverse, levels, offsets, no overflow, nothing out of bounds. Color plates are executed only.',
        theorems=['swizzle', 'swizzle_2d', 'swizzle_block', 'swizzle_3d', 'morton_encode_3d', 'deswizzled_swizzled', 'swizzled_deswizzled', 'MipmapFaceIterator::next', 'MipmapTextureIterator::next', 'bytes_per_block'],
        assumptions=['is_power_of_two, NonZeroUsize and Ord::max of the standard library behave as their stated contracts', 'usize has 64 bits', 'sides are at most 65536 in the iterator proof (tag fields are 16 bits)', 'zlib and TIFF libraries and the color plate are executed only']),
    'P12': dict(level='proof', secs=15, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted functions which undo weights, samples, layers and index lists; native contracts on tags extracted from whole cache files',
        level_note='Proved for every object, sound, BSP and index list (floats uninterpreted); animations in P21, swizzling and levels in P11. Reading from the map, bitmaps, vertices and tick rates are executed on generated caches of every engine.',
        theorems=['fix_object_tag', 'fix_scenario_structure_bsp_tag', 'fix_sound_tag', 'load_all_indices'],
        assumptions=['arithmetic and comparison of floats are uninterpreted in the proof: it shows which numbers are combined, executed contracts what comes out', 'chunks, flatten and get_mut of the standard library behave as their stated contracts', 'a tag extracted has the group of its path (executed for every group)', 'bitmaps, vertices, script data and the choice of fix per group are checked by contracts executed on generated caches (bounded)']),
    'P13': dict(level='proof', kani=True, kani_timeout=330, secs=8, trusted=KANI,
        technique='Kani contracts on the real conversions with every code and number symbolic; native contracts count out every 32-bit float and sample the rest',
        level_note='Proved by Kani for all codes (decoding, encoding back) and all numbers (encoding). Every 32-bit float is also counted out natively. Vector and color arithmetic is executed against formulas.',
        assumptions=[FMT, 'floating point of CBMC and of the processor is IEEE 754 binary64', 'harnesses the solver does not finish in time are reported as not discharged; the counted-out floats and sampled vectors stand in', 'vector, color and angle arithmetic is checked by contracts executed on generated values (bounded)']),
    'P14': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contract with loop invariants on the extracted list parser and range merger; native contracts on matchers and the dynamic view',
        level_note='Proved for every text and length: the list parser, merger included. Assumed: contracts of slice split, contains, sort, dedup and number parsing. The traversal over fields is executed, not proved.',
        theorems=['parse_range'], assumptions=['slice::split, contains, sort_by, Vec::dedup and str::parse of the standard library behave as their stated contracts', 'foreach, foreach_mut and the array views are checked by executed contracts (bounded)']),
    'P16': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts on the extracted loaders: region invariants that make the unchecked accesses sound, checksum and scenario postconditions; native contracts on whole cache files',
        level_note='Proved for every file: regions inside it and as the headers denote, checksum over them, resource entries, one scenario, no overflow. Tag table, external tags, engine choice and header reading are executed on generated files of every engine.',
        theorems=['GearboxCacheFile::new', 'GearboxCacheFile::get_domain', 'XboxCacheFile::new', 'XboxCacheFile::get_domain', 'load_scenario_info', 'get_tag_data_details', 'load_model_data', 'load_external_vertex_data', 'ResourceMap::from_data', 'ResourceMap::get_unchecked'],
        assumptions=['contracts of get_all_tags, handle_external_tags, fixup_bsp_addresses and the generated readers are assumed in the proof and executed on generated files (bounded)', 'map addresses are translated as proved in P09, checksums as in P05', 'resource regions of get_domain are executed only', 'slice, vector, range and C string functions of the standard library behave as their stated contracts']),
    'P19': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts and loop invariants on the extracted recursive and reverse dependency searches, over a contract for tag trees; native contracts on tags of every group and on trees on disk',
        level_note='Proved for every tree and graph: recursive dependencies are the reachable tags with their references, reverse dependencies the referrers (partial correctness). References in a tag, group and path refactoring, map dependencies are executed.',
        theorems=['recursively_get_dependencies_for_tag', 'get_reverse_dependencies_for_tag', 'complete'],
        assumptions=['HashMap, HashSet and Vec of the standard library are the abstract maps, sets and sequences of the contracts', 'the references of a tag and the table of groups are executed for every group (one_tag, hints)', 'termination of the search is executed only', 'path and group refactoring and map dependencies are checked by contracts executed on generated trees (bounded)']),
    'P20': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contract and loop invariants on the extracted filter matcher against the pattern language; native contracts on directories, caches and wrappers',
        level_note='Proved for patterns and texts of any length: the matcher decides the pattern language, terminates, never slices inside a character. Directories, writing, caching and wrappers are executed on generated trees and sequences.',
        theorems=['TagFilter::filter_passes_raw', 'TagFilter::passes', 'TagFilter::reference_matches'],
        assumptions=['str functions of the standard library behave as their stated contracts', 'paths contain no asterisk (proved in P06)', 'TagFilter::new, directories, caches and wrappers are checked by contracts executed on generated input (bounded)']),
    'P21': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted index checks, vertex restoration and animation functions; native contracts on conversions and nudging',
        level_note='Proved for every model and animation: the index check, rebuilding of vertex lists, cutoffs, frame layout and byte order of animation data. Conversion between tag types, BSP vertices, markers, objects and nudging are executed contracts.',
        theorems=['ModelFunctions::check_indices', 'check_vertex_buffer', 'FrameDataIterator::next', 'FrameDataIterator::to_size', 'flip_endianness_for_model_animations_animation', 'fix_model_animations_animation', 'restore_missing_compressed_vertices'],
        assumptions=['the conversion of one vertex, and reading and writing of one animation value, are uninterpreted in the proof; P13, P01 and executed contracts check them', 'model and BSP conversion, markers, objects and nudging are checked by contracts executed on generated tags (bounded)', 'Vec and slice functions of the standard library behave as their stated contracts']),
    'P22': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted permutation chain and BSP vertex size checks; native contracts verifying and repairing generated tag trees',
        level_note='Proved for every sound and BSP: which permutations begin a sound, that an error is reported exactly if a chain leaves or never ends, and the vertex size check. Verifying whole trees on threads and the repairs are executed contracts (bounded).',
        theorems=['next_subpermutation_index', 'sound_tag_actually_contains_split_permutations', 'find_actual_permutation_count', 'verify_sound_permutation_indices', 'check_scenario_structure_bsp_vertex_data_size_correct'],
        assumptions=['verify starts threads and downcasts dyn Any: whole trees, schedules the machine produces and all repairs are checked by contracts executed on generated trees (bounded)', 'the sizes of BSP vertices (56, 20, 32, 8 bytes) are stated; executed contracts use the same numbers on the real types', 'Vec and slice functions of the standard library behave as their stated contracts']),
    'P17': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted script checker, decompiler and page formatter; native contracts with a reader of the source language',
        level_note='Proved for every graph of nodes: the check of the nodes ends and passes only lists that end and nest a bounded depth, whose decompilation is exactly their source; for every list of tokens: pages hold exactly the tokens, split only where full and outside of forms. Text, quoting, names and the node table are executed contracts.',
        theorems=['check_bad_scripts', 'decompile_script_block_to_tokens', 'decompile_token', 'format_tokens'],
        assumptions=['the text of a node, of a number, and quoting are uninterpreted in the proof; executed contracts read the source back', 'that decompile_scripts hands format_tokens well-formed forms, the node table and page names are checked by contracts executed on generated scenarios (bounded)', 'Vec and slice functions of the standard library behave as their stated contracts']),
    'P15': dict(level='proof', secs=6, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted fixed string and UTF-16 cleaning code; native contracts on these, string lists and tag collections',
        level_note='Proved for every text and bytes: what a fixed string keeps, and what cleaning of decoded UTF-16 does and accepts. Decoding itself, string lists and tag collections are executed contracts.',
        theorems=['strlen', 'String32::from_str', 'String32::from_bytes_lossy', 'UTF16String::try_parse (after decoding)'],
        assumptions=['decoding of UTF-8 and UTF-16 by the standard library is uninterpreted in the proof (mended text is no longer than it was); executed contracts check it', 'string lists and tag collections are checked by contracts executed on generated text (bounded)', 'Vec and slice functions of the standard library behave as their stated contracts']),
    'P18': dict(level='proof', secs=8, trusted=VERUS,
        technique='Verus contracts with loop invariants on the extracted default setters of models, light volumes, looping sounds, particles, lights, objects and shader maps, and on the comparison of lists, structures and data; native contracts on tags of every group',
        level_note='Proved for every value: which of these fields are set and unset, and that a comparison is the differences of elements and fields in order. Defaults of the definitions, of sounds and lens flares, and comparison of single values are executed contracts.',
        theorems=['set_defaults_for_model', 'unset_defaults_for_gbxmodel', 'set_defaults_for_particle', 'set_or_unset_defaults_for_light', 'fix_map_scale', 'compare_array', 'compare_tag_data_blocks', 'compare_data'],
        assumptions=['equality of floating point numbers is uninterpreted in the proof except that different whole numbers differ', 'comparison of single values is uninterpreted in the proof; executed contracts check it', 'the walk over a structure through the dynamic interface is checked for every group by executed contracts (bounded)', 'Vec functions of the standard library behave as their stated contracts']),
}
