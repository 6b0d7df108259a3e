"""The properties, what decides them, and within which bounds.  gen.py writes properties.jsonl and
MANIFEST.json from this file; check.py runs it."""

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, harnesses, bounds, note="", observe=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                      harnesses=harnesses, bounds=bounds, note=note, **kw)


R, I, D, T = "src/metadata/reader.rs", "src/ifd.rs", "src/decoder.rs", "src/tile.rs"

prop("P01", "A file is opened iff it starts with a TIFF or BigTIFF header",
     "Opening a file succeeds exactly when it starts with a complete classic TIFF or BigTIFF header in either byte order, and then reports that byte order, that variant and the first directory's offset as written. Opening never reads beyond the header.",
     ["inputs"], "every value of the first 16 bytes and every file length from 0 to 16",
     "the tests open a handful of well-formed fixture files; no test varies the header bytes, and none opens a truncated or non-TIFF file",
     [R], [("header parsing", "src/metadata/reader.rs TiffMetadataReader::try_open")],
     ["h01_header"], "all 2^128 headers x lengths 0..16", observe=["TiffMetadataReader::try_open, endianness, bigtiff, next_ifd_offset"])

prop("P02", "Directory entries are read as the value the file encodes",
     "For every tag type, count, byte order and TIFF variant, reading a well-formed directory entry gives exactly the encoded value: the right number, in the right order, with the right sign and width, whether it is stored in the entry or elsewhere in the file. One value is a scalar, none is the empty list, text comes without its terminating NULs.",
     ["inputs"], "every type, value, entry index, directory offset and value offset, for counts up to the bound",
     "fixture files use few type/count/byte-order combinations (no big-endian BigTIFF, hardly any inline lists) and only their own values",
     [R], [("entry reading", "src/metadata/reader.rs read_tag, read_tag_value"), ("cursor byte order", "src/reader.rs EndianAwareReader")],
     ["h02_values", "h02_index", "h02_long"],
     ["16 types; counts 0-5, 8, 9 and 16-256 of any values, 1025 for 7 types, 33000 of each type with mostly fixed values, every recognised tag with 2 and 6 values; directory anywhere below 2^61, values anywhere below 2^62 not overlapping the entry; entry index 0, 3, and any index below 1024 for SHORT and LONG",
      "16 types; counts 0-9, 12, 17, and up to 65537 for 7 types; any index below 65536 for SHORT and LONG"],
     observe=["ImageFileDirectoryReader::read_tag"], steps=(150_000_000, 300_000_000))

prop("P03", "The directory chain is followed once, in order, to its end",
     "Reading all directories gives each directory of the file's chain exactly once in chain order, wherever in the file they lie, and says that no directory follows exactly at the end. A chain that loops is an error instead of an endless read, and a failed read can be repeated without skipping or repeating a directory.",
     ["inputs", "fault_sequences"], "every chain of up to N directories at any offsets, ending or looping back to any of them; every position of one failing request",
     "fixtures have well-formed chains at fixed offsets and readers that never fail; no test has a cycle or a retry",
     [R, "src/tiff.rs"], [("next-directory offset", "src/metadata/reader.rs TiffMetadataReader::read_next_ifd, read_all_ifds"), ("cycle detection", "src/metadata/reader.rs TiffMetadataReader")],
     ["h03_chain", "h03_retry", "h03_long", "h03_next"], ["chains of 5-257 directories read one by one, all at once or as a TIFF, straight or looping, and directories of 300 entries at fixed places; the next pointer behind any number of entries below 2^20 (2^16 classic); 1-3 directories of 5 tags at any non-overlapping offsets in 16..2^62 (2^32 classic); last next-pointer 0 or any earlier directory; read one by one or all at once; failing request 0..59",
                                  "1-4 directories at any offsets, chains of 70 too"],
     observe=["TiffMetadataReader::{read, read_next_ifd, has_next_ifd, next_ifd_offset}", "TIFF::ifds"])

prop("P04", "Every tag ends up in its own field, with its own value",
     "Each recognised tag's value appears unchanged in the directory field of that tag and changes no other field; absent tags give the documented defaults or nothing, unrecognised tags are kept as they are. A directory without a required tag, or with a code that has no meaning for a required field, is an error.",
     ["inputs"], "every recognised tag, alone and all together, with any value in every integer width",
     "fixtures exercise a few fields with one value each; a swap of two rarely used tags or a dropped default is invisible to them",
     [I], [("tag dispatch", "src/ifd.rs ImageFileDirectory::from_tags"), ("value conversion", "src/tag_value.rs")],
     ["h04_one", "h04_all", "h04_other", "h04_missing"], ["1-300 unrecognised tags with 19 kinds of values; 39 tags; lists of 0-5, 17, 257 and 1030 values, 300 samples; integers as SHORT, LONG, LONG8; texts up to 2 characters", "more lengths of lists and texts"],
     observe=["every accessor of ImageFileDirectory"])

prop("P05", "Geo keys are read from where the key directory says",
     "Every geo key in the key directory appears in its own field with the value found at its location: in the entry, in the double parameters or in the text parameters; absent keys are absent, and the EPSG code is the projected CRS's, else the geographic one's. A key directory with a wrong version, missing entries or values outside the parameter tables is an error.",
     ["inputs"], "every key, any value, any position in the parameter tables, and any malformed directory of bounded length",
     "the tests read three fixtures with a fixed handful of keys",
     ["src/geo/geo_key_directory.rs", I], [("key directory parsing", "src/ifd.rs ImageFileDirectory::from_tags (GeoKeyDirectory)"), ("key dispatch", "src/geo/geo_key_directory.rs GeoKeyDirectory::from_tags")],
     ["h05_key", "h05_all", "h05_malformed"], ["each key alone at any position in tables of 1, 3 and 301 values, among 0, 3 or 100 unknown keys; all keys together; malformed directories of up to 9 shorts", "malformed directories of up to 13 shorts"],
     observe=["ImageFileDirectory::geo_key_directory, GeoKeyDirectory fields, epsg_code"])

prop("P06", "Tag value conversions never change the number",
     "Converting a tag value to a number type gives the same number or an error; an integer that fits the wanted type of the same signedness is converted, whatever width it was stored in. Lists convert element by element, in order, and a single value converts to a list of one.",
     ["inputs"], "every variant with any payload, every conversion, lists of up to N mixed values",
     "no unit test calls the conversions with boundary values or mixed variants",
     ["src/tag_value.rs"], [("conversions", "src/tag_value.rs TagValue::into_*")],
     ["h06_scalar", "h06_list"], ["17 variants x 11 scalar conversions, any payload; lists of 0, 1, 2, 5, 17 and 300", "lists of 0-3, 5, 17 and 300"], observe=["TagValue::into_*"])

prop("P07", "Malformed metadata is an error, never a panic, endless read or huge allocation",
     "Whatever bytes a file holds, reading its metadata ends with directories or an error: it does not panic, read for ever or allocate memory by counts the file only claims. A file that ends before its metadata does is an error, never a directory with missing or invented values.",
     ["inputs"], "every type, count and value bytes of an entry of every recognised tag, any next-directory pointer and entry count, files cut at every byte",
     "tests read well-formed files; the malformed ones are endless",
     [R, I, "src/metadata/fetch.rs"], [("entry and value reading", "src/metadata/reader.rs read_tag, read_tag_value"), ("directory construction", "src/ifd.rs ImageFileDirectory::from_tags"), ("offset arithmetic", "src/metadata/fetch.rs MetadataCursor")],
     ["h07_cut", "h07_directory", "h07_entry", "h07_tags", "h05_malformed"],
     ["one entry with any 16-bit type, count 0-3, 5 or any above 1000, any value bytes or offsets of a place at or before the end of the file, for 46 tags; directories at any offset with any entry count and next pointer, up to 2 entries, cut by up to 8 bytes; a file of 9 entries cut at every length; geo key directories of up to 9 shorts", "counts up to 9, both byte orders for all tags, geo key directories of up to 13 shorts"],
     observe=["TiffMetadataReader::{read_next_ifd, read_all_ifds}, ImageFileDirectoryReader::read_tag"])

prop("P08", "The readahead cache is transparent",
     "Whatever was requested before, a request through the metadata cache returns exactly the file's bytes in that range; behind the end of the file it returns what there is or an error, never other bytes. This holds for every initial size and growth factor, including zero, negative, infinite and not-a-number.",
     ["inputs", "histories", "configurations"], "every sequence of up to 3 requests in a file of N bytes, any contents, any initial size, multipliers including 0, NaN and 1e300",
     "the unit tests run four fixed request sequences with two configurations",
     ["src/metadata/cache.rs"], [("sequential block cache", "src/metadata/cache.rs SequentialBlockCache"), ("readahead", "src/metadata/cache.rs ReadaheadMetadataCache::fetch")],
     ["h08_sequence", "h08_eof", "h08_many", "h08_blocks", "h08_default"], ["any range over 14-40 cached blocks; file of 5 bytes, 3 requests (eof: 3 bytes, 2 requests with any 64-bit start and end); 6 requests on 12 bytes; the default configuration on a file of 110,000 bytes", "file of 7 bytes, all 8 multipliers; eof: 4 bytes, 3 requests"],
     assumptions=["the fetch below the cache returns what exists when a range reaches behind the end of the file, as object stores do"],
     observe=["ReadaheadMetadataCache::fetch"], secs=(420, 2400))

prop("P09", "The cache asks below only for what is missing, in one request",
     "A request that the cache already holds causes no request below it; any other causes exactly one, starting where the cached bytes end and as long as the larger of the missing part and the configured readahead (the initial size first, then the cached length times the multiplier).",
     ["inputs", "histories", "configurations"], "every sequence of up to 3 requests in a file of N bytes, any initial size, multipliers including 0, NaN and 1e300",
     "the unit tests check request counts for four fixed sequences",
     ["src/metadata/cache.rs"], [("readahead size", "src/metadata/cache.rs ReadaheadMetadataCache::next_fetch_size, fetch")],
     ["h09_requests", "h09_many", "h09_default"], ["file of 5 bytes, 3 requests; 6 requests on 12 bytes; the default configuration on a file of 110,000 bytes", "file of 7 bytes, 3 requests, all 8 multipliers"],
     assumptions=["the fetch below the cache returns what exists when a range reaches behind the end of the file"], observe=["requests seen by the inner MetadataFetch"])

prop("P10", "The cache survives failures, cancellation and concurrent use",
     "After a failed request below, a request dropped half-way, or several requests in flight at once in any order, the metadata cache still answers every request with the file's bytes; a failure is reported once, by the request it happened to, and repeating that request asks for the same bytes again. Without cancellation no byte is requested twice.",
     ["schedules", "fault_sequences", "crash_points"], "every position of the failures, every poll order of two or three tasks, every cancellation point",
     "the unit tests use one task, an inner reader that never fails and futures that are never dropped",
     ["src/metadata/cache.rs"], [("cache lock held over the fetch", "src/metadata/cache.rs ReadaheadMetadataCache::fetch"), ("append after success", "src/metadata/cache.rs")],
     ["h10_fault", "h10_history", "h10_three", "h10_interleave"], ["14 bytes in blocks of 1 or 2 with up to 5 failing calls anywhere, each 1-5 times in a row; 3 tasks on 6 bytes, all poll orders over the first 5 polls, one failing call, cancellation at polls 1-2; file of 4 bytes; 3 requests with one failing call; 2 tasks, all poll orders over the first 5 polls, cancellation at polls 1-3", "20 bytes with up to 6 failing calls; file of 5 bytes for faults; poll orders over the first 7 polls, cancellation at polls 1-5, inner fetch pending up to 2 times"],
     observe=["ReadaheadMetadataCache::fetch and the inner MetadataFetch"])

prop("P11", "Tile addressing: each tile's byte range is its own, others have none",
     "The number of tiles in each direction is the image size divided by the tile size, rounded up. The byte range of a tile at (x, y) starts at the table entry of row-major position y, x (per band in planar images) and is as long as its byte count; positions outside the grid, incomplete tables, overflowing ranges and images without tiles give no range instead of another tile's or a panic.",
     ["inputs"], "every x and y, any offsets and byte counts, grids up to the bound, chunky and planar, complete and incomplete tables",
     "tests fetch a few tiles of fixture files; none asks for a tile outside the grid, and hardly any fixture is planar with several rows",
     [I], [("tile index", "src/ifd.rs tile_byte_range, get_tile_byte_range"), ("tile_count", "src/ifd.rs tile_count")],
     ["h11_count", "h11_range", "h11_list", "h11_untiled", "h11_large"],
     ["tile_count: sizes below 64 with tiles below 16, any 32-bit size with tiles 2^0, 2^4, 2^8, 2^31, sizes around multiples of 7 other tile sizes; ranges: 4 grids up to 3x2 (6 tiles), 1-2 bands, any 64-bit x, y, offsets and byte counts; lists of up to 2 tiles; grids of up to 66000 tiles at any position",
      "tile_count: tiles below 64 and all powers of two; grids up to 4x3, 1-3 bands; lists of up to 3 tiles"],
     observe=["ImageFileDirectory::{tile_count, tile_byte_range, tiles_byte_ranges}"])

prop("P12", "Fetched tiles hold their own bytes, in the order asked for",
     "Fetching a list of tiles returns one tile per request, in order, each with the coordinates asked for and exactly the bytes of its own range (one buffer per band when planar), carrying its directory's compression and tables. Only those ranges are requested, a failed request fails the fetch, and if any tile does not exist nothing is requested.",
     ["inputs", "fault_sequences", "configurations"], "lists of up to N coordinates including duplicates and ones outside the grid, any offsets and byte counts, every failing request, readers with and without a list request of their own",
     "tests fetch one tile at a time from readers that never fail, and never a list in planar layout",
     [I, T], [("fetch_tile, fetch_tiles", "src/ifd.rs"), ("tile construction", "src/tile.rs Tile")],
     ["h12_fetch", "h12_one", "h12_long", "h12_large"], ["tiles of grids of 300x2, 2x300, 66000x1 and 1x66000; lists of 3-33 tiles; grids 2x2 and 3x1 (lists of up to 2), 4 grids up to 3x2 (single tiles); 1-2 bands; 4 compressions; failing request 0 or 1; pending or not", "lists of up to 3 tiles, 1-3 bands, grids up to 4x3"],
     observe=["ImageFileDirectory::{fetch_tile, fetch_tiles}, Tile accessors, requests seen by the reader"])

DECODE_B = ["tiles of 1x1, 3x1, 1x2, 3x2, 5x3 and one wider size, 1-4 samples, chunky and planar, both byte orders, any sample bytes; whole tiles, tiles over the image's edge and tiles larger than the image; with bytes fixed except at the ends and around positions 250, 4090 and 8190 also tiles of 300x2, 4100x1, 2x300 and 129x33 pixels", "also tiles of up to 33x2, 64x1 and 8x9 pixels, up to 5 samples"]
prop("P13", "Decoded samples are the stored numbers",
     "Decoding an uncompressed tile without predictor gives, for every integer and float type of 8 to 64 bits, exactly the numbers stored in the file's byte order, every sample in its place, in chunky and planar layout.",
     ["inputs", "configurations"], "any sample bytes, 10 data types, both byte orders, chunky and planar, tile sizes and sample counts up to the bound",
     "fixtures are mostly little-endian 8/16-bit and are compared on a few pixels",
     [D, T, "src/array.rs", "src/data_type.rs"], [("byte order fix-up", "src/predictor.rs fix_endianness"), ("typed arrays", "src/array.rs TypedArray::try_new")],
     ["h13_plain", "h13_wide"], DECODE_B, observe=["Tile::decode, Array"])
prop("P14", "Horizontal predictor is reversed exactly",
     "Decoding a tile stored with horizontal differencing gives, for every data type of 8 to 64 bits and both byte orders, the running sums (modulo the sample width) of the stored differences per row and per sample; in planar layout per band.",
     ["inputs", "configurations"], "any difference bytes, 10 data types, both byte orders, chunky and planar, tile sizes and sample counts up to the bound",
     "unit tests decode one hard-coded 4x4 tile per width",
     ["src/predictor.rs", T], [("row-wise sums", "src/predictor.rs unpredict_hdiff"), ("per band", "src/tile.rs Tile::decode")],
     ["h14_hdiff", "h14_wide"], DECODE_B, observe=["Tile::decode, Array"])
prop("P15", "Floating point predictor is reversed exactly",
     "Decoding a tile stored with the floating point predictor gives, for 32 and 64 bit floats, exactly the floats whose byte planes (most significant first) are the running sums of the stored bytes per row, in chunky and planar layout, whatever the file's byte order.",
     ["inputs", "configurations"], "any stored bytes, both float types, both byte orders, chunky and planar, tile sizes and sample counts up to the bound",
     "unit tests decode one hard-coded tile per width",
     ["src/predictor.rs", T], [("byte planes", "src/predictor.rs unpredict_float, predict_f32, predict_f64"), ("per band", "src/tile.rs Tile::decode")],
     ["h15_float", "h15_wide"], DECODE_B, observe=["Tile::decode, Array"])
prop("P16", "An array's type and shape follow from the directory, and its data fills it",
     "The data type of a decoded tile is decided by sample format and bits per sample alone and is absent unless all samples agree; the shape is (height, width, samples), or (samples, height, width) when planar. Data of any other length than the shape needs is an error, never an array.",
     ["inputs", "configurations"], "every pair of 16-bit sample format and bits codes, data of any length up to the bound, every predictor",
     "fixtures have matching lengths and a handful of types",
     ["src/array.rs", "src/data_type.rs", T], [("type decision", "src/data_type.rs DataType::from_tags"), ("length check", "src/array.rs")],
     ["h16_types", "h16_length"], ["1-4 samples with any format/bits codes (one value per sample, one for all, or no format) and 0-17 bytes of data (3 and more samples: 7 lengths); lengths off by up to 8 for 10 types and 6 sizes up to 300x1 and 70x60", "as quick, with up to 5 samples"], observe=["Tile::decode, Array::{shape, data, data_type}"])
prop("P17", "Bit masks decode to one boolean per pixel, most significant bit first",
     "A tile of one-bit samples whose rows are whole bytes decodes to one boolean per sample in order, the most significant bit of each byte first; a mask with missing bytes is an error.",
     ["inputs"], "any mask bytes, sizes up to the bound, chunky and planar, 1-3 samples",
     "one fixture mask is decoded",
     ["src/array.rs"], [("bit expansion", "src/array.rs expand_bitmask")],
     ["h17_mask"], ["8x1, 16x1, 8x2, 24x3 and 64x2 pixels, with mostly fixed bytes 512x40 and 4104x2", "also 40x5, 256x2 and 66000x2"], observe=["Tile::decode"])
prop("P18", "A tile is decoded by the decoder registered for its compression",
     "Decoding calls the decoder registered for the tile's compression method once per band with that band's bytes and the tile's own parameters, uses the bytes it returns and passes on its errors; without a registered decoder decoding fails and no other decoder is called. The default registry holds exactly the documented methods.",
     ["configurations", "inputs", "fault_sequences"], "12 compression codes, all photometric codes, default and empty registries, with and without tables, every failing call",
     "tests only use the default registry and decoders that succeed",
     [D, T], [("registry", "src/decoder.rs DecoderRegistry"), ("decode", "src/tile.rs Tile::decode")],
     ["h18_registry", "h18_default"], "12 compressions x 8 photometric codes x 1-2 samples x chunky/planar x failing call none, 0, 1; JPEG tables of 0-300 bytes, 0-3 LERC parameters", observe=["Tile::decode, Decoder::decode_tile"])
prop("P19", "Malformed tile data is an error, never a panic",
     "Whatever bytes a decoder returns and whatever sizes, bit depths, sample counts and predictor the directory claims, decoding a tile returns an array that fills its shape or an error; it does not panic, hang or allocate by what the directory only claims.",
     ["inputs"], "decoded data of any bytes, any one of width, height and bits with the others extreme, all predictors and layouts",
     "tests decode well-formed fixtures only",
     [T, "src/predictor.rs", "src/array.rs"], [("size checks", "src/tile.rs Tile::decode"), ("predictor row checks", "src/predictor.rs")],
     ["h19_any"], ["0, 3 or 8 decoded bytes", "0, 1, 2, 3, 5, 8, 9 or 16 decoded bytes, 12 bit depths, 4 sample formats"], secs=(500, 2700), observe=["Tile::decode"])
prop("P20", "Reading from a seekable file returns the range, under every schedule",
     "A request to a reader over a seekable async file returns exactly the bytes of that range, in any sequence of requests, however the file splits or delays its reads, and with several requests in flight or cancelled half-way. Ranges behind the end and failed reads are errors, without allocating for them, and later requests are right again.",
     ["inputs", "schedules", "fault_sequences", "crash_points"], "every pair of ranges, every split and delay schedule within the bound, every failing operation, all poll orders of two tasks, every cancellation point",
     "tests read fixtures from the local disk with one task, where reads are never short or delayed",
     ["src/reader.rs"], [("seek and read under one lock", "src/reader.rs TokioReader::make_range_request")],
     ["h20_sequence", "h20_far", "h20_ranges", "h20_fault", "h20_interleave", "h20_large"],
     ["file of 150,000 bytes given out in pieces of 4096, 8191 or 65536; file of 4 bytes, 2 requests, 1 delay, 2 short reads; two tasks on 3 bytes with up to 3 delays, orders of the first 4 polls, cancellation at polls 1-3", "file of 5 bytes, 2 delays, 3 short reads; two tasks on 3 bytes with 4 delays and orders of the first 6 polls"],
     observe=["TokioReader::{get_bytes, get_byte_ranges}"], secs=(420, 2400))
prop("P21", "Wrapped readers and object stores answer as what they wrap",
     "A reader behind a box or reference-counted pointer, used for data or for metadata, forwards every request and list of requests unchanged, including the wrapped reader's own way to serve lists; lists are answered in order, one answer per range. An object-store reader returns exactly the object's bytes and the store's errors.",
     ["inputs", "configurations", "fault_sequences"], "any ranges, lists up to the bound, every failing call, wrappers Box and Arc, objects given out in chunks",
     "the tests use one reader type each and never a list through a wrapper",
     ["src/reader.rs", "src/metadata/fetch.rs"], [("delegation", "src/reader.rs impl AsyncFileReader for Box, Arc"), ("default list request", "src/reader.rs get_byte_ranges"), ("object store", "src/reader.rs ObjectReader")],
     ["h21_delegate", "h21_object", "h21_objects"], ["lists of 0-3, 9 and 33 ranges with any 64-bit ends; 4 bytes of an object at 4 offsets up to 2^63 in chunks of 1-2; lists of 1-40 ranges of 3000 bytes in 12 patterns", "lists of up to 4; object of 5 bytes"], observe=["AsyncFileReader, MetadataFetch, ObjectReader"])
prop("P22", "Conversion to ndarray keeps type, shape and every element",
     "Converting a decoded array to an n-dimensional array gives the same type and shape with every element at the same index, and fails exactly for arrays without a data type.",
     ["inputs", "configurations"], "all data types, any element values, shapes up to the bound, chunky and planar",
     "no test compares elements after the conversion",
     ["src/ndarray.rs", "src/array.rs"], [("conversion", "src/ndarray.rs TryFrom<Array>")],
     ["h22_ndarray"], "12 data types (one unsupported), shapes up to 3x3x3 and 7x5", observe=["NdArray::try_from, Array::into_inner"])
prop("P23", "Header size is the smallest offset of any image data",
     "The reported header size of a TIFF is the smallest non-zero tile or strip offset over all its directories.",
     ["inputs"], "any offsets in up to 3 directories with tiles, strips, both or neither",
     "no test has several directories or both tiles and strips",
     ["src/tiff.rs"], [("minimum over directories", "src/tiff.rs TIFF::header_byte_size")],
     ["h23_header_size"], "8 shapes of 1-3 directories with up to 3 offsets each, any 64-bit offsets",
     assumptions=["at least one non-zero offset exists (without one it is documented to panic)"], observe=["TIFF::header_byte_size"])
prop("P24", "Codes and names of all enumerations agree with the TIFF registry",
     "Every 16-bit code maps to the documented meaning for tags, types, compressions, photometric and other codes, and back to the same code; codes without a meaning are refused, or kept as unknown with their number where unknown codes are allowed.",
     ["inputs"], "all 65536 codes of 9 enumerations",
     "tests touch the codes of the fixtures only",
     ["src/tags.rs"], [("code tables", "src/tags.rs")],
     ["h24_codes"], "all 16-bit codes", observe=["from_u16, from_u16_exhaustive, to_u16"])

prop("P25", "Codecs get the tile's bytes and their whole output is returned",
     "For every compression method the codec library is given exactly the tile's bytes (for JPEG the shared tables without their end marker followed by the data without its start marker; for LERC what its Deflate or ZSTD wrapping unpacks to, if any) and everything it produces is returned, wider samples in native byte order. Colours are converted as the photometric interpretation says, WebP pixels without alpha get an opaque one where four 8-bit samples are declared, and every failure of the codec is an error.",
     ["inputs", "configurations", "fault_sequences"], "any tile bytes and codec output up to the bound, all methods and parameters, every failing call, output given in pieces of any schedule",
     "the tests decode a few fixture tiles; none has a failing codec, and several methods or variants (16-bit JPEG 2000, LERC in ZSTD, WebP without alpha) have no fixture",
     [D], [("decoders", "src/decoder.rs impl Decoder for *Decoder"), ("JPEG tables", "src/decoder.rs decode_modern_jpeg")],
     ["h25_stream", "h25_lzw", "h25_lerc", "h25_webp", "h25_jpeg2k", "h25_jpeg"],
     ["up to 40 bytes in, up to 70,000 bytes out (LZW 9,000), 9 LERC types, 8 JPEG 2000 layouts, 8 photometric codes, JPEG tables of up to 4 bytes", "more lengths, JPEG tables of up to 6 bytes"],
     note="The codec libraries are replaced by stand-ins (codecs/stubs) that record their input and produce output chosen by the harness.",
     assumptions=["the codec libraries (zstd, flate2, weezl, lzma-rust2, webp, lerc, jpeg2k, jpeg-decoder) behave as their stand-ins in codecs/stubs: same signatures, arbitrary output, arbitrary failure"],
     observe=["Decoder::decode_tile of the default registry"], crate="codecs")
prop("P26", "The HTTP reader returns the resource's bytes in the range or an error",
     "A request to the HTTP reader returns exactly the resource's bytes in that range, as far as they exist, whether the server answers with the part asked for or with the whole resource, and whatever the range, the empty one included. For a range it makes at most one request, to the URL it was made for, and every failed connection, broken body or error status is an error, never data.",
     ["inputs", "fault_sequences"], "any resource bytes, every range of the bound, every kind of answer and failure of a server that keeps to HTTP's range rules",
     "no test makes an HTTP request",
     ["src/reader.rs"], [("range request", "src/reader.rs ReqwestReader::make_range_request")],
     ["h26_http", "h26_large"], "resource of 4 bytes seen through a window at 0, 7, 997, 2^32-3 and 2^64-10; ranges starting 0-5 into it, 0-4 bytes long; statuses 206, 200, 404, 416, 500, 403; failing send or body; answer at once or delayed; resources of 70,000 and 100,000 bytes with 7 ranges",
     note="reqwest is replaced by a stand-in (codecs/stubs/reqwest) that parses the request's headers as RFC 9110 says and answers as the modelled server.",
     assumptions=["reqwest behaves as its stand-in, and the server keeps to RFC 9110 (206 with exactly the range, or 200 with the whole resource)"],
     observe=["ReqwestReader::get_bytes, requests seen by the server"], crate="http")
prop("P27", "A file reads back as the image it stores",
     "Opening a well-formed tiled file, reading its metadata directly or through the readahead cache, fetching any of its tiles and decoding them gives exactly the image's pixels: the tile asked for, the declared type and shape, and every sample with its stored value, whatever the byte order, TIFF variant, planar configuration and data type.",
     ["inputs", "configurations"], "any pixel bytes; both byte orders, classic and BigTIFF, chunky and planar, data types and grids of the bound, with and without cache",
     "the fixtures cover a few combinations and are compared on single values or shapes",
     [R, I, T, D, "src/metadata/cache.rs"], [("metadata", "src/metadata/reader.rs"), ("tile addressing and fetch", "src/ifd.rs"), ("decoding", "src/tile.rs Tile::decode")],
     ["h27_file"], ["two directories (3x2 pixels in 2x1 tiles and 2x1 pixels in one tile; 5x3 pixels in 3x2 tiles and 1x1 pixel in a tile of 4x3), 1-2 samples, 8-bit unsigned, 16-bit signed and 32-bit float, with and without horizontal and floating-point predictor, data before or after the directories, either directory first, cache of 16 or 4096 bytes", "also 3x3 in 2x2 and 2x9 in 4x2, 1-3 samples, 6 data types"], observe=["TiffMetadataReader, ImageFileDirectory, Tile::decode, Array"])

prop("P28", "A typed array holds the numbers its bytes encode",
     "Making a typed array from bytes and a data type gives as many elements as the bytes hold, each with the value of its bytes in native order; without a type the bytes stay bytes. A length that is no multiple of the element size, or a mask, whose length in elements is not known, is an error, and length, emptiness and views of the array agree with its elements.",
     ["inputs"], "any bytes, every data type, byte lengths up to the bound",
     "unit tests build a handful of arrays with one length each",
     ["src/array.rs", "src/data_type.rs"], [("typed arrays", "src/array.rs TypedArray::try_new, len, AsRef"), ("element size", "src/data_type.rs DataType::size")],
     ["h28_typed"], "12 types (none included), 23 byte lengths between 0 and 128, any bytes; 4096, 66000 and 66001 bytes, mostly fixed", observe=["TypedArray::{try_new, len, is_empty, as_ref}, DataType::size"])
prop("P29", "Reading metadata reads metadata only",
     "Reading a file's directories without a readahead cache requests nothing but the header, the directories and the values stored outside them: never image data, never bytes that belong to nothing it reads.",
     ["inputs", "configurations"], "any offsets, tag types and counts of the bound, both byte orders and TIFF variants",
     "no test looks at what is requested",
     [R], [("cursor", "src/metadata/fetch.rs MetadataCursor"), ("directory reading", "src/metadata/reader.rs")],
     ["h29_only", "h29_types"], "files of two directories in 3 arrangements; entries of 16 types with 10 counts from 0 to 255, both byte orders, classic and BigTIFF", observe=["requests seen by the MetadataFetch"])

NOT_APPLICABLE = {
    "P90": ("The Python bindings return the same data as the Rust library",
            "Every operation of the Python package returns the same values, bytes, shapes and errors as the Rust operation it wraps, from any thread of the interpreter.",
            ["inputs", "schedules"], "all inputs and thread interleavings of the Python API", ["python/src/*.rs"],
            "the bindings need the Python interpreter and pyo3's C API, which cannot be built here offline nor encoded: the interpreter's code is outside the module"),
    "P92": ("Compressed tiles decode to what was compressed",
            "For every supported compression method, decoding a tile gives exactly the bytes that were compressed, and malformed data is an error.",
            ["inputs"], "all compressed streams of all methods", ["src/decoder.rs"],
            "ZSTD, WebP, LERC and JPEG 2000 are C libraries behind FFI (no code in the module to encode); JPEG, Deflate and LZMA entropy decoding branches on every input bit, which is out of reach beyond a few symbolic bytes. What async-tiff itself adds is P18 (selection of the decoder, parameters, errors) and P25 (input and output of the codec libraries)"),
}
