#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit them)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Decoded tiles hold exactly the pixels the file encodes",
  "For every well-formed tiled TIFF (classic or BigTIFF, little- or big-endian, chunky or planar, every supported sample type, any lossless compression and predictor, any tile geometry and physical layout, offsets beyond 4 GiB included), fetching a tile (x, y) and decoding it yields an array whose data type is the file's sample type, whose shape is [height, width, samples] for chunky and [samples, height, width] for planar images, and whose elements, in native byte order, equal the encoded pixels of that tile. Edge tiles keep the full nominal tile size, and one-bit images come back as one boolean per pixel.",
  ["inputs", "configurations"], "all files x all tiles x all sample types, byte orders, planar configurations, compressions, predictors",
  "The fixture tests open a handful of files, mostly u8/u16 little-endian chunky; big-endian decoding, planar images, 64-bit and boolean samples, odd tile sizes and BigTIFF offsets beyond 4 GiB have no test that compares pixels.",
  ["src/tile.rs", "src/ifd.rs", "src/array.rs", "src/decoder.rs", "src/predictor.rs", "src/data_type.rs", "src/reader.rs"],
  [("Tile::decode", "src/tile.rs"), ("fix_endianness", "src/predictor.rs"), ("TypedArray::try_new / expand_bitmask", "src/array.rs"), ("DataType::from_tags", "src/data_type.rs"), ("ImageFileDirectory::fetch_tile(s)", "src/ifd.rs")],
  ["ImageFileDirectory::fetch_tile / fetch_tiles", "Tile::decode", "Array::{shape,data,data_type}"])

p("C02", "Horizontal and floating-point predictors are undone exactly",
  "For every tile stored with the horizontal predictor (any integer width of 8, 16, 32 or 64 bits, differences wrapping modulo 2^bits) or the floating-point predictor (float32, float64), decoding returns exactly the samples from before prediction, bit for bit (NaN payloads included). This holds for either byte order, any number of samples per pixel, chunky or planar storage (where each band is predicted on its own), any tile width including 1 and edge tiles, and every row independently of the rows before it.",
  ["inputs", "configurations"], "all sample values x widths x byte orders x samples per pixel x planar configuration x predictor",
  "Unit tests cover predictor calls on a few hand-made buffers; no test sees planar tiles, wrapping values, 64-bit samples or the byte-order x predictor x compression combinations through the decode path.",
  ["src/predictor.rs", "src/tile.rs"],
  [("unpredict_hdiff / rev_hpredict_nsamp", "src/predictor.rs"), ("unpredict_float / rev_predict_f32/f64", "src/predictor.rs"), ("Tile::decode calls per plane", "src/tile.rs")],
  ["Tile::decode"])

p("C03", "Each built-in codec reproduces the data it is given; unknown codecs are errors",
  "For every compression in the default registry (none, Deflate and its old code, LZW, ZSTD, LZMA, JPEG with or without shared tables, WebP, JPEG 2000, LERC with its none/Deflate/ZSTD inner codecs), decoding a tile that a conforming encoder produced yields the encoder's input exactly (lossless codecs) or the values the stream's definition assigns (JPEG: grey, YCbCr, RGB, within rounding), in pixel-interleaved order. A compression that has no registered decoder makes decoding fail with an error that is not a panic, and is never decoded with some other codec.",
  ["inputs", "configurations"], "all sample contents x sizes x channel counts x codec parameters (levels, multiple frames, restart markers, subsampling)",
  "Fixtures exercise one or two files per codec with fixed content; stream shapes such as concatenated ZSTD frames, opaque WebP alpha, 16-bit or multi-component JPEG 2000, LERC inner compression per data type and abbreviated JPEG streams are not sampled.",
  ["src/decoder.rs", "src/tile.rs", "src/ifd.rs"],
  [("DecoderRegistry::default", "src/decoder.rs"), ("decode_modern_jpeg", "src/decoder.rs"), ("LercDecoder, WebPDecoder, JPEG2kDecoder, ...", "src/decoder.rs")],
  ["Tile::decode", "Decoder::decode_tile"])

p("C04", "Every tag value is reported with the file's type, count and value",
  "For every IFD entry of a well-formed file - any of the sixteen TIFF/BigTIFF field types, any count, stored inline or out of line at any offset, either byte order - the value reported to the caller has the type of that entry and exactly the stored elements in order (a single element as a scalar, several as a list, ASCII up to its terminator with bytes that are not UTF-8 replaced, floating point bit for bit). Unused bytes of an inline value field never influence the value.",
  ["inputs", "configurations"], "all types x counts x values x inline/out-of-line x byte order x classic/BigTIFF",
  "Unit tests decode a table of hand-written entries; counts around the inline limit, BigTIFF-only types in both byte orders, and junk in unused inline bytes are only partially sampled.",
  ["src/metadata/reader.rs", "src/tag_value.rs", "src/reader.rs"],
  [("read_tag / read_tag_value", "src/metadata/reader.rs"), ("EndianAwareReader", "src/reader.rs")],
  ["ImageFileDirectory::{other_tags, accessors}", "TiffMetadataReader::read_next_ifd"])

p("C05", "The chain of IFDs is read completely, in order, once, and ends",
  "Reading a file's metadata returns every IFD of the chain exactly once and in chain order, wherever the IFDs lie in the file, and reading them one at a time gives the same IFDs as reading all at once, with has_next_ifd telling beforehand whether another follows. After the last IFD the incremental reader keeps reporting the end without further requests, and a chain that loops back on itself ends (with an error or at the cycle) instead of repeating IFDs forever.",
  ["inputs", "histories"], "all chain lengths x physical orders x classic/BigTIFF x interleavings of the incremental and bulk entry points, cyclic chains included",
  "Tests open files with a few IFDs in file order; backward-pointing chains, long chains, mixes of incremental and bulk reads and cycles are not reached.",
  ["src/metadata/reader.rs", "src/tiff.rs"],
  [("TiffMetadataReader::{try_open, read_next_ifd, read_all_ifds, read}", "src/metadata/reader.rs")],
  ["TiffMetadataReader", "TIFF::ifds"], [("next_ifd_offset", "offset of the IFD to read next", "TiffMetadataReader")])

p("C06", "IFD accessors report what the tags say, with TIFF's defaults",
  "For every well-formed IFD each accessor (dimensions, bits, compression, photometric interpretation, planar configuration, predictor, sample format, tile and strip layout, resolution, text fields, colour map, geo tags, GDAL tags, ...) returns exactly the value of its tag whichever legal integer type stores it, and an absent tag yields TIFF's default or None, never another tag's value. Unknown tags are kept, with their values, in the set of other tags, and an integer too large for the accessor's type makes reading fail rather than be truncated. Tag numbers and enumeration codes carry the names the TIFF specification gives them.",
  ["inputs"], "all subsets of tags x legal types x values, in any order within the IFD",
  "Snapshot tests pin the parsed IFDs of a few fixture files; most tags never occur in them, and absent/default/out-of-range combinations are not covered.",
  ["src/ifd.rs", "src/tags.rs", "src/metadata/reader.rs"],
  [("ImageFileDirectory::from_tags", "src/ifd.rs"), ("tag enums", "src/tags.rs")],
  ["ImageFileDirectory accessors"])

p("C07", "A tile position maps to exactly its own bytes, or to nothing",
  "For every tiled IFD, tile_count is the rounded-up quotient of the image and tile dimensions, and the byte range(s) used for tile (x, y) are exactly the offset and byte count that the tile arrays hold at its row-major index (in every plane of a planar image). Positions outside the grid, arrays too short for the position, and images without tiles (strips) give no range or an error, without panicking and without touching the reader.",
  ["inputs", "configurations"], "all grids (dimensions up to 2^32-1) x positions (up to usize::MAX) x planar configurations x offset/count array lengths",
  "Tests address a few in-range tiles of small chunky grids; planar index arithmetic, huge grids, overflow and out-of-grid positions are not sampled.",
  ["src/ifd.rs"],
  [("tile_count / tile_byte_range / get_tile_byte_range", "src/ifd.rs"), ("get_planar_tile_byte_ranges", "src/ifd.rs")],
  ["ImageFileDirectory::{tile_count, tile_byte_range(s), fetch_tile}", "requests seen by the reader"])

p("C08", "Fetching many tiles equals fetching each of them",
  "For every list of tile positions - any order, repeats included, empty - fetch_tiles returns one tile per position in the order asked, each equal (position, compressed bytes, decoded pixels) to what fetch_tile returns for it. The bytes requested from the reader are exactly those of the listed tiles, all in one batch request, and an error for any position fails the whole call.",
  ["inputs", "histories"], "all position lists x grids x planar configurations x readers with native or default batching",
  "Tests fetch a short fixed list from chunky fixtures; duplicates, permutations, planar batches (several ranges per tile) and invalid positions inside a batch are not covered.",
  ["src/ifd.rs", "src/reader.rs"],
  [("fetch_tiles / fetch_tiles_planar", "src/ifd.rs"), ("AsyncFileReader::get_byte_ranges", "src/reader.rs")],
  ["ImageFileDirectory::fetch_tiles", "requests seen by the reader"])

p("C09", "The metadata cache is transparent",
  "For every file, cache configuration and sequence of reads, in any order, overlapping or concurrent, a fetch through the read-ahead metadata cache returns exactly the bytes of the requested range that exist in the file, the same as reading the source directly. Metadata read through the cache is identical to metadata read without it.",
  ["inputs", "schedules", "configurations"], "all files x initial sizes x growth factors x fetch sequences x interleavings of concurrent fetches",
  "Unit tests run a few sequential fetches against a small buffer; ranges across or past the end, growth factors and concurrent fetches are not explored.",
  ["src/metadata/cache.rs", "src/metadata/fetch.rs"],
  [("ReadaheadMetadataCache::fetch", "src/metadata/cache.rs"), ("SequentialBlockCache", "src/metadata/cache.rs")],
  ["MetadataFetch::fetch on the cache", "requests at the wrapped source"], [("cache", "blocks of the prefix fetched so far", "ReadaheadMetadataCache")])

p("C10", "The metadata cache never fetches a byte twice and follows its sizing policy",
  "For every sequence or interleaving of fetches, the requests a read-ahead metadata cache issues cover the file contiguously from offset 0 without overlap, one request at a time, at most one per fetch, and none at all for a range already cached. The first request is for the configured initial size and each later one for the previous cached size times the multiplier, or for exactly what the fetch needs when that is larger.",
  ["histories", "schedules", "configurations"], "all fetch sequences and interleavings x initial sizes x multipliers",
  "Unit tests count requests for two short sequences; the request log of arbitrary sequences and of concurrent misses is never examined.",
  ["src/metadata/cache.rs"],
  [("SequentialBlockCache::{contains, append_buffer}", "src/metadata/cache.rs"), ("next_fetch_size / mutex held over fetch", "src/metadata/cache.rs")],
  ["requests at the wrapped source"])

p("C11", "The metadata cache survives failed and cancelled fetches",
  "If a request of a read-ahead metadata cache fails, the fetch that issued it reports that failure, and no other fetch reports an error or gets wrong bytes because of it; a fetch that is cancelled at any suspension point leaves the cache consistent. After any such history later fetches succeed once the source does, with correct bytes, and none waits forever.",
  ["schedules", "fault_sequences", "histories"], "all schedules of concurrent fetches x failing requests x cancellation points",
  "No test injects a failure or drops a cache fetch half way.",
  ["src/metadata/cache.rs"],
  [("async Mutex around the block cache, appended only after a successful fetch", "src/metadata/cache.rs")],
  ["MetadataFetch::fetch on the cache under a controlled scheduler"])

p("C12", "Every reader adapter returns exactly the requested bytes",
  "For every supported source (tokio AsyncRead+AsyncSeek, object_store, HTTP via reqwest, boxed and shared trait objects, and the default batching of the trait) get_bytes(range) returns exactly the file's bytes in that range and get_byte_ranges one buffer per range in the order asked, however the source splits its reads, however many calls run concurrently on one reader, and after calls that were cancelled or failed. Source failures (missing object, HTTP error status, dropped connection, read error) surface as errors; a range that ends past the end of the file yields the existing bytes or an error, never other bytes. Boxed and shared readers forward each call to the inner reader unchanged.",
  ["inputs", "schedules", "fault_sequences"], "all ranges x read fragmentations x interleavings of concurrent calls x cancellation points x source failures",
  "Tests read local fixtures with one task at a time; short reads, concurrent seeks on a shared handle, cancellation between seek and read and HTTP servers that misbehave do not occur.",
  ["src/reader.rs", "src/metadata/fetch.rs"],
  [("TokioReader (mutex over seek+read)", "src/reader.rs"), ("ObjectReader", "src/reader.rs"), ("ReqwestReader", "src/reader.rs"), ("AsyncFileReader for Box/Arc", "src/reader.rs")],
  ["AsyncFileReader::{get_bytes, get_byte_ranges}"])

p("C13", "I/O errors reach the caller and a retry succeeds",
  "If any single request of the underlying source fails while opening a file, reading IFDs or fetching tiles, the call in progress returns an error carrying that failure - never success with missing or default data, never a panic. The objects involved stay usable: repeating the failed step once the source works again gives the same result as if nothing had failed, with no IFD skipped or repeated.",
  ["fault_sequences", "histories"], "every request index of every operation, singly and in sequences, with and without the metadata cache",
  "No existing test injects an I/O error.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/ifd.rs", "src/reader.rs"],
  [("TiffMetadataReader advances only after a successful read", "src/metadata/reader.rs"), ("error propagation with ?", "src/ifd.rs")],
  ["TiffMetadataReader", "ImageFileDirectory::fetch_tile(s)", "AsyncTiffError"])

p("C14", "Malformed metadata is an error, never a crash, hang or allocation blow-up",
  "For every byte sequence presented as a TIFF file - random, truncated, bit-flipped, or structurally hostile (huge counts, wild or overlapping offsets, wrong types, missing tags, cyclic chains) - opening it, reading all its IFDs, querying every accessor and addressing tiles either succeeds or returns an error. It never panics, never fails to terminate, and uses memory and requests in proportion to the bytes actually present, not to counts the file merely claims.",
  ["inputs", "fault_sequences"], "all byte sequences as files, read with and without the metadata cache",
  "Tests only open valid fixtures.",
  ["src/metadata/reader.rs", "src/ifd.rs", "src/geo/geo_key_directory.rs", "src/tag_value.rs", "src/metadata/cache.rs"],
  [("bounds-checked EndianAwareReader", "src/reader.rs"), ("checked offset arithmetic in read_tag", "src/metadata/reader.rs"), ("from_tags errors", "src/ifd.rs")],
  ["TiffMetadataReader", "ImageFileDirectory", "process allocator and exit status"])

p("C15", "Malformed tile data is an error or a full-size array, never a crash",
  "For every tile payload - corrupted, truncated, of the wrong size, encoded with other parameters than the tags claim - and every combination of tags around it, decoding either returns an error or an array whose element count equals the product of its shape and whose type matches its reported data type. It never panics, aborts, reads outside its buffers or fails to terminate (payloads that validly declare more data than fits in memory aside).",
  ["inputs", "configurations"], "all payload bytes x compressions x predictors x sample types x planar configurations x JPEG tables",
  "Tests only decode valid fixtures.",
  ["src/tile.rs", "src/decoder.rs", "src/predictor.rs", "src/array.rs"],
  [("size checks in Tile::decode and TypedArray::try_new", "src/tile.rs, src/array.rs"), ("row checks in predictors", "src/predictor.rs"), ("codec error mapping", "src/decoder.rs")],
  ["Tile::decode", "process exit status"])

p("C16", "Geo keys are read as the directory defines them",
  "For every well-formed GeoKeyDirectory, each key accessor returns exactly the value the directory, the double parameters or the ASCII parameters define for that key (text without the terminating '|'), absent keys give None, and unknown keys do not disturb known ones. epsg_code returns the projected code if there is one, otherwise the geographic one, otherwise None; directory entries pointing outside their parameter arrays are errors, not panics.",
  ["inputs"], "all sets of keys x locations x values x parameter arrays",
  "Tests parse the geo keys of a few fixtures, always complete and in the usual order.",
  ["src/geo/geo_key_directory.rs", "src/ifd.rs"],
  [("GeoKeyDirectory::from_tags", "src/geo/geo_key_directory.rs"), ("epsg_code", "src/geo/geo_key_directory.rs")],
  ["ImageFileDirectory::geo_key_directory", "GeoKeyDirectory fields and epsg_code"])

p("C17", "Arrays are internally consistent and typed views preserve every element",
  "For every decoded array the number of elements equals the product of its shape, the variant of its data matches its data type, and its byte view is the native-endian memory of those elements. Building a typed array from raw native-endian bytes succeeds exactly when the byte length is a whole number of elements (one-bit data becomes a boolean array only together with its shape, and needs enough bits) and preserves every value bit for bit whatever the alignment of the bytes; unknown sample types are kept as bytes; and converting an array into an ndarray keeps shape, type and every element at its index.",
  ["inputs", "configurations"], "all shapes x data types x byte lengths x contents, with alignment of the source bytes arbitrary",
  "Unit tests build a few small arrays; odd lengths, empty arrays, misaligned inputs, all eleven types and the ndarray conversion per element are not covered.",
  ["src/array.rs", "src/ndarray.rs", "src/data_type.rs"],
  [("Array::try_new / TypedArray::try_new / expand_bitmask", "src/array.rs"), ("TryFrom<Array> for NdArray", "src/ndarray.rs")],
  ["TypedArray", "Array", "NdArray"])

p("C18", "Tag value conversions preserve the value or fail",
  "For every tag value and every conversion offered on it (to u8..u64, i8..i64, f32, f64, strings and vectors of these), the conversion either returns the same mathematical value (or text) element for element and in order, or an error; it never wraps, truncates, drops, reorders or invents elements and never panics. A value already of the target type is always accepted, and for targets of 16 bits and more so is every value of a narrower integer type of the same signedness (IFD offsets included, for u32 and u64).",
  ["inputs"], "all variants x all values x all conversions, nested and empty lists included",
  "No test covers the conversions systematically; they are only hit with small positive numbers.",
  ["src/tag_value.rs"],
  [("TagValue::into_*", "src/tag_value.rs")],
  ["TagValue::into_*"])

p("C19", "Results do not depend on concurrency",
  "Any number of tasks on any number of threads may at once read metadata through one shared cache, fetch tiles through one shared reader, and decode tiles with one shared registry; each result equals the one a single sequential caller gets, with no data race, deadlock or cross-talk between callers.",
  ["schedules"], "all interleavings of metadata reads, tile fetches and decodes over shared readers, caches and registries, with arbitrary delays",
  "Existing tests are single-task.",
  ["src/reader.rs", "src/metadata/cache.rs", "src/ifd.rs", "src/decoder.rs"],
  [("Mutex in TokioReader", "src/reader.rs"), ("Mutex in ReadaheadMetadataCache", "src/metadata/cache.rs"), ("Send + Sync decoders", "src/decoder.rs")],
  ["results of concurrent tasks on a multi-threaded runtime", "ThreadSanitizer (thorough)"])

p("C20", "Header size and prefetch make a COG's metadata one request",
  "For every file whose metadata precedes its image data, the reported header byte size is the smallest (non-zero) tile or strip offset of all IFDs, so that a buffer of the file's first bytes up to it holds all metadata. Reading metadata through a cache whose initial size covers the metadata issues exactly one request to the source, however many IFDs and out-of-line values there are.",
  ["inputs", "configurations"], "all COG layouts x numbers of IFDs x tiled/stripped x prefetch sizes",
  "One fixture-based test (whose file is missing here) checks a single COG.",
  ["src/tiff.rs", "src/metadata/cache.rs"],
  [("header_byte_size", "src/tiff.rs"), ("ReadaheadMetadataCache initial size", "src/metadata/cache.rs")],
  ["TIFF::header_byte_size", "requests at the wrapped source"])

p("C21", "Decoding and parsing are free of memory errors and undefined behaviour",
  "No input - well-formed or malformed, through any built-in codec, predictor, array view or metadata path - makes the library read or write outside its buffers, use freed memory, misuse alignment or otherwise execute undefined behaviour, including in the native codec libraries it drives. No decode or metadata read leaks memory without bound.",
  ["inputs"], "all metadata and tile inputs of C01-C18",
  "Plain tests cannot see an out-of-bounds read that happens not to crash.",
  ["src/decoder.rs", "src/array.rs", "src/predictor.rs", "src/tile.rs", "src/metadata/reader.rs"],
  [("safe Rust plus bytemuck casts", "src/array.rs, src/predictor.rs"), ("arguments given to lerc/webp/openjpeg/zstd", "src/decoder.rs")],
  ["AddressSanitizer reports", "Miri reports (thorough)"])

p("C22", "A truncated file gives an error or unchanged metadata, never different data",
  "For every well-formed file and every prefix of it, reading the prefix's metadata either fails with an error or returns exactly the metadata of the whole file. Fetching and decoding a tile whose bytes are cut off fails, or gives exactly the pixels of the complete tile, never other pixels, under readers that report the end by short reads or by errors.",
  ["crash_points", "inputs"], "every prefix length of every file x reader end-of-file behaviour x cache on/off",
  "No test truncates a file.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/reader.rs", "src/ifd.rs"],
  [("EndianAwareReader reports UnexpectedEof", "src/reader.rs"), ("tag data length check", "src/metadata/reader.rs")],
  ["TiffMetadataReader", "Tile::decode"])

p("C23", "User-supplied decoders get the tile's exact parameters and are honoured",
  "A decoder registered for a compression code (replacing a built-in or for a code the library does not know) is the one used for every tile with that code, once per tile (once per band for planar images), with the tile's exact compressed bytes, photometric interpretation, JPEG tables, samples per pixel, bits per sample and the LERC parameters of the file; its output is then subject to the same predictor, byte-order and shape handling as a built-in decoder's, and its error is returned to the caller. Decoders for other codes are never called, and removing a decoder makes its code unsupported.",
  ["configurations", "inputs", "histories"], "all registries x compressions x tag combinations x planar configurations x decoder outcomes",
  "A single test registers a custom decoder on one fixture; argument values, planar calls, predictors after custom decoders and errors are not checked.",
  ["src/decoder.rs", "src/tile.rs", "src/ifd.rs"],
  [("DecoderRegistry (AsRef/AsMut map)", "src/decoder.rs"), ("Tile::decode argument passing", "src/tile.rs")],
  ["calls recorded by the registered decoder", "Tile::decode result"])

p("C24", "The Python bindings mirror the Rust results",
  "Everything the Python package exposes (opening files, IFD attributes, tile fetch and decode, arrays through the buffer protocol, custom decoders) returns the same values as the Rust API, raises Python exceptions for errors and never crashes the interpreter.",
  ["inputs", "configurations"], "all files x all exposed attributes and methods",
  "The Python tests need pyo3, maturin, obstore and a network.",
  ["python/src/"], [("pyo3 wrappers", "python/src/")], ["the Python API"])

p("C25", "Reading metadata requests metadata only, and a tile only its own bytes",
  "For every file read without a read-ahead cache, opening it requests only bytes of the file header, and reading the next IFD requests only bytes of that IFD and of the out-of-line values its entries point to (the header aside), in total no more than twice as many bytes as these have: never image data, never an IFD further down the chain, never bytes in between, wherever they lie. Fetching a tile requests only that tile's bytes, and accessors, tile addressing and decoding request nothing.",
  ["inputs", "histories"], "all files x physical layouts x numbers of IFDs and out-of-line values x step-by-step and bulk reads",
  "No test looks at which bytes are requested; reading too much returns the same values and only costs the user's bandwidth.",
  ["src/metadata/reader.rs", "src/metadata/fetch.rs", "src/ifd.rs"],
  [("MetadataCursor::read", "src/metadata/fetch.rs"), ("read_tag_value", "src/metadata/reader.rs"), ("TiffMetadataReader::read_next_ifd", "src/metadata/reader.rs"), ("TileByteRange", "src/ifd.rs")],
  ["byte ranges requested from the reader"])

p("C26", "Dropping an unfinished call has no effect on anything else",
  "For every call that opens a file, reads IFDs or fetches tiles, dropping its future at any suspension point leaves everything it shares usable: the metadata reader stays at the IFD it was reading (a dropped bulk read leaves it at some IFD of the chain, having consumed only whole ones), other calls over the same reader or cache finish with their normal results and none waits forever, and repeating the dropped call gives the result it would have given.",
  ["schedules", "crash_points", "histories"], "all calls x suspension points x numbers of dropped attempts x neighbouring calls, with and without the metadata cache",
  "No test drops a future half way.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/ifd.rs", "src/reader.rs"],
  [("TiffMetadataReader changes its state only after the last await", "src/metadata/reader.rs"), ("async Mutex guard released on drop", "src/metadata/cache.rs")],
  ["TiffMetadataReader", "ImageFileDirectory::fetch_tile(s)", "calls over the same cache"], [("next_ifd_offset, visited_ifd_offsets", "position in the chain", "TiffMetadataReader")])

p("C27", "The Python enumerations carry the library's codes",
  "Every enumeration of the Python package (async_tiff.enums: Compression, Endianness, ExtraSamples, PhotometricInterpretation, PlanarConfiguration, Predictor, ResolutionUnit, SampleFormat) has, for each name, the code that TIFF and the Rust library give to it ('Uncompressed' and 'Unknown' standing for the library's None); each code converts to exactly one member, which equals the code as an integer, and no name stands for another one's code.",
  ["inputs"], "all eight enumerations x all names x all 65536 codes",
  "The Python tests need the compiled extension and compare a few values of a few files.",
  ["python/python/async_tiff/enums.py", "python/src/enums.rs", "src/tags.rs"],
  [("IntEnum classes", "python/python/async_tiff/enums.py"), ("to_py_enum_variant", "python/src/enums.rs")],
  ["async_tiff.enums, executed"])

p("C28", "Only a TIFF or BigTIFF header opens, and it alone decides how to read on",
  "A file opens exactly when it begins with a complete TIFF header (II or MM, version 42 in that byte order, offset of the first IFD) or BigTIFF header (version 43, offset size 8, reserved word 0, 64-bit offset of the first IFD); anything else is an error and nothing is read from it. The byte order and the format the header names are used for the whole file, IFDs are read from the offset it gives, and reading an IFD with the low-level ImageFileDirectoryReader given that offset, byte order and format yields the same as reading it through the file's metadata reader.",
  ["inputs"], "all values of each header field x byte orders x classic/BigTIFF x first-IFD offsets x header lengths",
  "Tests open valid headers only; no test has a wrong version, offset size or reserved word, or a header cut short.",
  ["src/metadata/reader.rs", "src/tiff.rs", "src/reader.rs"],
  [("TiffMetadataReader::try_open", "src/metadata/reader.rs"), ("ImageFileDirectoryReader::open", "src/metadata/reader.rs")],
  ["TiffMetadataReader::try_open", "TIFF::endianness", "IFDs read afterwards"])

p("C29", "Results depend on the file alone, not on what was done before",
  "Within one process, reading metadata, fetching tiles and decoding them give for each file the results that this file's bytes determine, whatever other files were worked on before or in between, however often the operation is repeated, whichever other decoder registries exist, and whether earlier operations failed: files that agree in layout, sizes, offsets or parts of their content never see each other's values, and a tile decoded again gives the same array.",
  ["histories", "inputs"], "all sequences of operations on several files of equal layout and different content, failures and damaged tiles included",
  "Each test opens its own file and looks at it once.",
  ["src/metadata/reader.rs", "src/ifd.rs", "src/tile.rs", "src/decoder.rs"],
  [("no state outside TIFF, readers and registries", "src/"), ("Tile::decode", "src/tile.rs"), ("DecoderRegistry", "src/decoder.rs")],
  ["TiffMetadataReader", "ImageFileDirectory::fetch_tile(s)", "Tile::decode"])

p("C30", "Optional features only add: every build reads the same files alike",
  "The library builds with none, any single one, the default ones and all of its optional features, and each build reads the same metadata from the same file and decodes every tile whose codec it has to the same array, through each reader it has. A codec feature (jpeg2k, lerc, lzma, webp) adds exactly its own compression to the default registry; without the feature a tile of that compression is an error at decoding, and nothing else about the file changes.",
  ["configurations", "inputs"], "all single features, none, default and all x all codecs x files",
  "The test suite runs with one set of features; code behind the others is not even compiled.",
  ["Cargo.toml", "src/decoder.rs", "src/reader.rs", "src/lib.rs", "src/error.rs"],
  [("cfg(feature) on decoders and DecoderRegistry::default", "src/decoder.rs"), ("cfg(feature) on readers", "src/reader.rs"), ("ndarray conversion", "src/ndarray.rs")],
  ["DecoderRegistry::default", "TiffMetadataReader", "Tile::decode in each build"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
