#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the statements live here, one call per property)."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

P("C01", "What was recorded is exactly what is read back",
  "Every record and tag handed to a recording that completes without error is found in the resulting file exactly once, with the same stream identity, flavor, record type, format version, timestamp and payload bytes; nothing else is in the file, records are listed in timestamp order, and each stream gets its own distinct instance id. "
  "This holds whatever the number of streams, record sizes (including empty), compression preset, number of compression threads, sync or background writing, file chunking, preallocated index or separate head file.",
  ["inputs", "configurations"], "all recordings (streams, tags, record sequences and payloads) times all writer configurations",
  "The tests write a handful of fixed files with a few sizes and presets; buffer boundaries (64 KB copies, compression retry, partial frames, index compression, preallocation overflow) depend on sizes, counts and combinations that no list of examples covers.",
  ["vrs/RecordFileWriter.cpp", "vrs/Record.cpp", "vrs/RecordManager.cpp", "vrs/IndexRecord.cpp", "vrs/Compressor.cpp", "vrs/Decompressor.cpp", "vrs/RecordFileReader.cpp", "vrs/DescriptionRecord.cpp", "vrs/TagsRecord.cpp", "vrs/FileFormat.cpp"],
  [("writer thread and record sorting", "vrs/RecordFileWriter.cpp"), ("record header with sizes and previous size", "vrs/FileFormat.h"), ("index record", "vrs/IndexRecord.cpp"), ("description record", "vrs/DescriptionRecord.cpp")],
  ["RecordFileWriter / Recordable API (what was handed in)", "RecordFileReader + StreamPlayer callbacks (what comes out)"])

P("C02", "Concurrent recording loses, duplicates, reorders and races on nothing",
  "When many threads create records and add or disable streams while the writer flushes them in the background, every record created while its stream was active and collected before the recording ended appears exactly once in the file, unmodified, and the records of one stream with increasing timestamps keep their order. "
  "The recording machinery has no data race, deadlock or use after free, closing the file returns only once everything is on disk, and the memory held by queued records falls back to zero.",
  ["schedules", "histories"], "all interleavings of record creation, stream management, flush, purge and close calls made by several threads",
  "Unit tests run one or two schedules with friendly timing; a missing lock or a lost wake-up only shows up under particular interleavings.",
  ["vrs/RecordFileWriter.cpp", "vrs/RecordManager.cpp", "vrs/Recordable.cpp", "vrs/Record.cpp", "vrs/FileHandler.h"],
  [("RecordManager mutex", "vrs/RecordManager.h"), ("writer thread data and events", "vrs/RecordFileWriter.h"), ("compression thread pool", "vrs/RecordFileWriter.cpp")],
  ["creation history recorded at the client boundary", "file contents", "ThreadSanitizer reports"])

P("C03", "An interrupted recording is recoverable up to the last complete record",
  "If a recording stops at any point after its file header and description were written (crash, kill, lost power: any prefix of what was written so far), opening the file succeeds and yields exactly the records that were completely stored, in order, byte for byte, with all the file and stream tags. "
  "A record that was cut short is never returned as if it were complete.",
  ["crash_points", "configurations"], "every byte length at which the file (or last chunk) can be cut, and every point between the writer's storage operations, for any recording and writer configuration",
  "Tests truncate a couple of sample files at one or two places; the cut may fall in any header, payload, split index, chunk or description record.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/RecordFileWriter.cpp", "vrs/DescriptionRecord.cpp"],
  [("index rebuild by scanning record headers", "vrs/IndexRecord.cpp"), ("split index recovery", "vrs/IndexRecord.cpp"), ("truncation detection", "vrs/RecordFileReader.cpp")],
  ["files cut or snapshotted at each crash point, opened with RecordFileReader"])

P("C04", "Repairing a damaged file in place keeps every record and sticks",
  "Asking to fix the index of an interrupted recording leaves a file that contains exactly the records and tags that could be read before the repair, unmodified, that opens afterwards with a proper index, and whose second repair changes nothing. "
  "A file that already has a valid index is not modified by the request.",
  ["crash_points", "inputs"], "every cut of every recording (single file, chunked or with a head file), repaired and reopened any number of times",
  "Tests repair a few sample files; the result depends on where the cut falls and on which index form the file used.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp"],
  [("rebuild with index writing", "vrs/IndexRecord.cpp"), ("index link in the file header", "vrs/FileFormat.h")],
  ["file bytes and RecordFileReader contents before and after the repair"])

P("C05", "Storage failures are reported, never turned into silent data loss",
  "If creating, writing, seeking, truncating, flushing or closing the storage fails at any point of a recording or a copy, the operation reports an error to its caller instead of success, terminates, and does not crash. "
  "Whenever it does report success, the file read back contains everything it should, and after a reported failure the records stored before the failure can still be read unmodified.",
  ["fault_sequences", "configurations"], "every single storage operation of a recording or copy failing (error or short write), in every writer configuration, plus sequences of such failures",
  "No test injects I/O errors; there is one failure path per storage call, and the background thread and async backend report them asynchronously.",
  ["vrs/RecordFileWriter.cpp", "vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/AsyncDiskFileChunk.cpp", "vrs/IndexRecord.cpp", "vrs/utils/FilterCopy.cpp"],
  [("status propagation from write calls to close", "vrs/RecordFileWriter.cpp")],
  ["return codes of the writer API with libc I/O calls intercepted", "the file left behind"])

P("C06", "No file content can crash, corrupt or hang the reading code",
  "Opening, indexing, repairing in memory, listing, decoding and playing any sequence of bytes as a file, including damaged, truncated or malicious ones, terminates with either data or an error code. "
  "It never reads or writes outside its buffers, never has undefined behavior, never aborts the process, and never loops forever or exhausts memory out of proportion with the file.",
  ["inputs"], "all byte strings used as (parts of) a recording file, cache file or media payload",
  "Tests only open well formed files and a few truncated ones; the space of corruptions is unbounded.",
  ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.cpp", "vrs/DescriptionRecord.cpp", "vrs/Decompressor.cpp", "vrs/DataLayout.cpp", "vrs/RecordFormat.cpp", "vrs/ContentBlockReader.cpp", "vrs/utils/PixelFrame.cpp", "vrs/utils/AudioBlock.cpp", "vrs/FileDetailsCache.cpp"],
  [("size sanity checks on untrusted fields", "vrs/FileFormat.cpp, vrs/IndexRecord.cpp, vrs/DescriptionRecord.cpp")],
  ["AddressSanitizer/UndefinedBehaviorSanitizer while reading mutated files"])

P("C07", "Record lookups agree with the file's full list of records",
  "Every way to find records of an opened file (by stream, record type, position, time, nearest time within a tolerance, first/last/next/previous, record index, stream by type, name, flavor, tag or serial number) returns exactly what a search of the complete timestamp-sorted list of records would return, in any order of calls. "
  "Jumping between records in any order delivers the same content as playing the file from start to end.",
  ["inputs", "histories"], "all record lists (including equal, negative and non finite timestamps and empty streams), all query arguments and all call sequences",
  "Tests check a few queries on one file; per-stream indexes are built lazily, so results can depend on call order, ties and boundaries.",
  ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.h"],
  [("sorted record index and lazily built per stream index", "vrs/RecordFileReader.cpp")],
  ["RecordFileReader query API against a brute force model"])

P("C08", "Chunked files behave as one continuous file",
  "A file stored as several chunks reads, seeks, skips, reports sizes and positions, and overwrites exactly as the concatenation of its chunks would, including across chunk boundaries and at end of file; errors reading past the end are reported with the number of bytes actually read. "
  "Chunks created while recording respect the requested limit as documented, a record is never split over two chunks, and chunks found on disk are assembled in order with nothing missing or extra.",
  ["inputs", "histories"], "all chunk layouts and all sequences of open, read, seek, skip, overwrite, truncate and add-chunk operations",
  "Tests use a couple of layouts; boundaries only matter when an access starts, ends or crosses exactly there.",
  ["vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/FileHandler.cpp", "vrs/WriteFileHandler.h", "vrs/RecordFileWriter.cpp"],
  [("current chunk tracking", "vrs/DiskFile.cpp"), ("chunk creation between records", "vrs/RecordFileWriter.cpp")],
  ["FileHandler/WriteFileHandler API against a flat byte array model"])

P("C09", "Asynchronous disk writing stores the same bytes as synchronous writing",
  "Whatever the asynchronous engine, buffer size and count, alignment, direct I/O setting and sequence of writes, seeks, overwrites, truncations, reads and closes, the file written asynchronously ends up with exactly the bytes and length a plain synchronous file would have, and reads in between see the written data. "
  "An I/O error in the background is reported by a later operation or by close, which always terminates.",
  ["schedules", "inputs", "fault_sequences"], "all operation sequences, parameters, completion orders and failing I/O requests",
  "Tests run one parameter set and cannot control completion order or make the background I/O fail.",
  ["vrs/AsyncDiskFileChunk.cpp", "vrs/AsyncDiskFileChunk.hpp", "vrs/DiskFile.cpp"],
  [("aligned buffer queue and tail handling", "vrs/AsyncDiskFileChunk.cpp")],
  ["AsyncDiskFile API against a flat byte array model, with pwrite/aio calls delayed, reordered or failed"])

P("C10", "Reading a record piecewise yields the same bytes as reading it whole",
  "Reading a record's payload in any series of pieces, of any sizes and scattered over any buffers, with any compression, or after reading other records only partially or seeking elsewhere, produces exactly the bytes of a single full read, and the amounts reported as read and remaining always add up to the record's size. "
  "Asking for more than what remains gives an error without overrunning the destination.",
  ["inputs", "histories"], "all ways to split reads, all record sizes and compression presets, all interleavings with other reads",
  "Tests read records whole; decompression state, read-ahead and leftover buffers only matter for split reads.",
  ["vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/DataReference.cpp", "vrs/Compressor.cpp", "vrs/RecordFileReader.cpp"],
  [("read buffer and frame by frame decompression", "vrs/Decompressor.cpp")],
  ["RecordReader API inside StreamPlayer callbacks"])

P("C11", "Structured metadata keeps its values across serialization and versions",
  "Values set in a structured metadata block are read back equal after being stored and loaded, for every field type, array and variable length content, in blocks with the same definition. "
  "Read with a different definition (fields added, removed, reordered or with changed defaults), each field present on both sides with the same name and type has its stored value, every other field is reported missing and yields its default, and no access reads outside the stored data; the textual description of a block rebuilds an equivalent block.",
  ["inputs", "programs"], "all block definitions, all pairs of definitions (writer/reader), all values and sizes, including blocks shorter or longer than expected",
  "Tests exercise some fixed layouts; mapping depends on the combination of field types, order, optional fields and variable size content.",
  ["vrs/DataLayout.cpp", "vrs/DataLayout.h", "vrs/DataPieces.h", "vrs/DataLayoutConventions.cpp"],
  [("field offsets and variable size index", "vrs/DataLayout.cpp"), ("mapping by label and type", "vrs/DataLayout.cpp")],
  ["DataLayout API on generated layouts against a dictionary model"])

P("C12", "Record format descriptions are stable and sizes computed from them are exact",
  "Any description of how records are made of blocks (image, audio, metadata, custom, with any format attributes) survives being written as text and parsed back unchanged, and parsing any text terminates with a description that is itself stable when written and parsed again. "
  "Block and record sizes derived from a description are either exact or reported unknown, and never disagree with the size of data built to that description, even for very large dimensions.",
  ["inputs"], "all format descriptions and all texts; all image and audio attribute combinations",
  "Tests cover a list of descriptions; the grammar has a combinatorial number of attributes and numeric ranges.",
  ["vrs/RecordFormat.cpp", "vrs/RecordFormat.h"],
  [("format string parsing and printing", "vrs/RecordFormat.cpp"), ("size arithmetic", "vrs/RecordFormat.cpp")],
  ["RecordFormat/ContentBlock API against an independent parser and size model"])

P("C13", "Each content block is delivered with its exact bytes and correct description",
  "When a file with record formats is played, each block of each record is offered once, in order, with exactly the bytes that were recorded for it and with the image, audio or custom attributes given by its format description or by the metadata that precedes it (in the same record or in the last configuration record of that stream). "
  "Skipping or only partially reading a block, damaged records, or records of other streams and format versions in between never change what later records deliver.",
  ["inputs", "histories"], "all record formats, all values of the conventional metadata fields, all orders of records and of consumer behaviors",
  "Tests use a few formats read in full and in order; state kept between records and streams only matters in mixed histories.",
  ["vrs/ContentBlockReader.cpp", "vrs/RecordFormatStreamPlayer.cpp", "vrs/DataLayoutConventions.cpp", "vrs/RecordFormat.cpp"],
  [("block reader chain per record format", "vrs/ContentBlockReader.cpp"), ("configuration lookup by previous record", "vrs/RecordFormatStreamPlayer.cpp")],
  ["RecordFormatStreamPlayer callbacks against what was recorded"])

P("C14", "Reading several files together equals merging them by time",
  "Opening a set of related files together shows every record of every file exactly once, in timestamp order, with every stream kept separate under a unique identifier that maps to its file and original stream, and with tags, record lookups, navigation and content identical to those of the individual files. "
  "Files that are not related or cannot be opened are refused, leaving the reader ready for another attempt.",
  ["inputs", "histories"], "all sets of files (streams in common, equal timestamps, empty files) and all queries",
  "Tests merge two or three fixed files; identifier conflicts and timestamp ties are combinatorial.",
  ["vrs/MultiRecordFileReader.cpp", "vrs/MultiRecordFileReader.h"],
  [("k-way merge comparator and stream id mapping", "vrs/MultiRecordFileReader.cpp")],
  ["MultiRecordFileReader API against a brute force merge of RecordFileReader results"])

P("C15", "Copying or merging recordings preserves every selected record and tag",
  "Copying a recording, with any compression, chunking, thread and filter options, or merging several, produces a file whose records are exactly the selected records of the sources, with the same stream kind, flavor, type, format version, timestamp and payload bytes, in timestamp order, and with all the tags of the kept streams and of the file(s). "
  "The sources are never modified, and a copy onto a full or unreadable place or from a damaged source never reports success while data is missing.",
  ["inputs", "configurations", "fault_sequences"], "all source recordings, filters and copy options",
  "The tests that would do this need sample data that is not available, and use one file; compression changes, raw copies and stream id reassignments multiply.",
  ["vrs/utils/FilterCopy.cpp", "vrs/utils/FilterCopyHelpers.cpp", "vrs/utils/ThrottleHelpers.cpp", "tools/vrs/VrsCommand.cpp"],
  [("raw or recompressed record copy", "vrs/utils/FilterCopyHelpers.cpp"), ("stream duplication with tags", "vrs/utils/FilterCopyHelpers.cpp")],
  ["source and destination contents read back with RecordFileReader"])

P("C16", "Filters select exactly the records they describe",
  "Selecting records by stream, record type, absolute or relative time range, or decimation yields, in timestamp order, exactly the records of the file that satisfy every criterion, bounds included as documented, plus the latest configuration and state records needed to start playing a time range when these are requested; each record at most once. "
  "Stream and type selections given on the command line mean the same thing whatever the order or form used to name a stream.",
  ["inputs", "configurations"], "all recordings and all combinations of filters",
  "Tests use one file and a few filters; boundaries, ties and combinations of filters are not reached.",
  ["vrs/utils/FilteredFileReader.cpp", "vrs/utils/FilteredFileReader.h", "vrs/utils/cli/DefaultDecimator.cpp", "vrs/utils/cli/CliParsing.cpp"],
  [("time range search and pre-roll", "vrs/utils/FilteredFileReader.cpp"), ("decimation", "vrs/utils/cli/DefaultDecimator.cpp")],
  ["records visited by the filtered iteration against a brute force model"])

P("C17", "File comparison and checksums tell equal from different recordings",
  "Comparing a recording with a copy that has the same content, however it is compressed, chunked or indexed, says they are equal, and gives the same content checksums. "
  "Any single difference (a payload byte, a timestamp, a format version, a record missing, added or moved to another stream or type, or a tag changed) is detected by the comparison and changes the checksum.",
  ["inputs"], "all recordings, all equivalent rewritings and all single differences",
  "Tests check fixed checksums of a few files; they never look for undetected differences.",
  ["vrs/utils/Validation.cpp", "vrs/utils/Validation.h", "vrs/utils/xxhash/xxhash.cpp"],
  [("record by record comparison", "vrs/utils/Validation.cpp"), ("content hash", "vrs/utils/Validation.cpp")],
  ["verdicts of compare, compare verbatim and checksum on pairs of files"])

P("C18", "Buffered records follow their retention rules",
  "Records created before or during a recording, and dropped or kept while none is running, follow the documented rules: purging old records always keeps, per stream, the latest configuration and state records and everything newer than the limit, inactive streams drop data without touching what is already queued, and a record buffer is reused without any trace of its previous content. "
  "At each write, every record not newer than the limit, and no other, is taken for writing exactly once, oldest first.",
  ["histories", "inputs"], "all sequences of create, purge, collect, enable/disable and write operations with any timestamps",
  "Tests run a few linear scenarios; the rules interact over histories with ties and late records.",
  ["vrs/RecordManager.cpp", "vrs/Recordable.cpp", "vrs/Record.cpp", "vrs/RecordFileWriter.cpp"],
  [("sorted queue insertion and collection", "vrs/RecordManager.cpp"), ("record cache", "vrs/RecordManager.cpp")],
  ["records that end up in the file after each history, against a model"])

P("C19", "File specifications convert between forms without losing information",
  "A file specification (handler, name, uri, chunks, chunk sizes, extra parameters) written as JSON or as a URI and parsed back describes the same object, special characters included, and any text given as a path, URI or JSON is either rejected or parsed the same way every time without reading outside the text. "
  "Local paths are left untouched.",
  ["inputs"], "all specifications and all texts",
  "Tests check a list of examples; escaping, missing parts and unusual characters are unbounded.",
  ["vrs/FileSpec.cpp", "vrs/FileSpec.h", "vrs/FileHandlerFactory.cpp", "vrs/StreamId.cpp", "vrs/helpers/Strings.cpp"],
  [("URI encoding and parsing", "vrs/FileSpec.cpp"), ("JSON conversion", "vrs/FileSpec.cpp")],
  ["FileSpec API against an independent model"])

P("C20", "A cached index is equivalent to reading the file itself",
  "The streams, tags and record list saved in a cache and loaded back are identical to those saved, so that a file opened with help of a cache shows the same content as without it. "
  "A damaged, truncated or mismatched cache is refused or regenerated, and never crashes the reader or makes it show wrong data silently.",
  ["inputs", "crash_points"], "all file details and all damaged cache files",
  "Tests round trip one cache; corruption and size extremes are not tried.",
  ["vrs/FileDetailsCache.cpp", "vrs/FileCache.cpp", "vrs/RecordFileReader.cpp"],
  [("details cache format", "vrs/FileDetailsCache.cpp")],
  ["FileDetailsCache API, and RecordFileReader opening the same file with and without cache"])

P("C21", "Images are decoded and converted exactly",
  "Lossless image encodings give back the exact pixels that were encoded, and pixel format conversions and normalizations give, for every pixel, the value documented by the formats' definitions, whatever the width, height, line stride and padding, without touching memory outside the images. "
  "Truncated or inconsistent image data is refused.",
  ["inputs"], "all pixel formats, dimensions, strides and pixel values",
  "Tests decode a few sample images; odd widths, padding and value extremes need generated images and a reference.",
  ["vrs/utils/PixelFrame.cpp", "vrs/utils/PixelConversions.cpp", "vrs/utils/PixelFramePng.cpp", "vrs/utils/PixelFrameJpeg.cpp", "vrs/utils/converters/Raw10ToGrey10Converter.cpp", "vrs/utils/converters/Grey10PackedConverters.cpp"],
  [("conversion loops", "vrs/utils/PixelConversions.cpp"), ("PNG and JPEG codecs", "vrs/utils/PixelFramePng.cpp")],
  ["PixelFrame and converter API against scalar reference code, under AddressSanitizer"])

P("C22", "Audio is extracted and converted without losing or inventing samples",
  "Extracting a stream's audio produces valid sound files whose samples are exactly the recorded ones, in order, starting a new file whenever the format changes, for every sample format, channel count and block size. "
  "Compressed audio decodes to the number of samples and channels that were encoded, and inconsistent audio data is refused without reading outside it.",
  ["inputs"], "all audio formats, channel counts, block sizes and sequences of blocks",
  "No test extracts audio with generated formats; strides, padding and format changes combine.",
  ["vrs/utils/AudioBlock.cpp", "vrs/utils/AudioBlockOpus.cpp", "vrs/utils/AudioExtractor.cpp", "vrs/utils/AudioTrackExtractor.cpp"],
  [("WAV writing", "vrs/utils/AudioExtractor.cpp"), ("Opus decoding", "vrs/utils/AudioBlockOpus.cpp")],
  ["WAV files produced against the recorded samples"])

P("C23", "Job queues, event channels and semaphores never lose or invent a signal",
  "Every job sent to a queue and not cancelled is delivered to exactly one consumer, in the order sent; an event is received by one waiter in unicast mode and by all present waiters in broadcast mode, with its value and the right count of missed events; a semaphore admits exactly as many waiters as were released. "
  "No wait outlives its timeout or the end of the queue, no wake-up is lost, and destruction with waiters present is safe.",
  ["schedules", "histories"], "all interleavings of producers, consumers, cancellation, ending and destruction",
  "Tests run a few fixed schedules.",
  ["vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/os/Semaphore.cpp"],
  [("mutex and condition variable protocol", "vrs/os/Event.cpp, vrs/helpers/JobQueue.h")],
  ["operation histories recorded at the client boundary", "ThreadSanitizer reports"])

P("C24", "Independent readers and writers can be used from different threads",
  "Threads that each use their own readers, writers, players, copies and converters, on the same or different files, get the same results as when running alone, with no data race through shared state. "
  "Creating, using and destroying such objects in any thread order is safe.",
  ["schedules"], "all interleavings of threads using distinct objects of the library",
  "Tests are single threaded per process.",
  ["vrs/FileHandlerFactory.cpp", "vrs/DataLayout.cpp", "vrs/StreamId.cpp", "vrs/LegacyFormatsProvider.cpp", "vrs/utils/DecoderFactory.cpp", "vrs/TelemetryLogger.cpp", "vrs/helpers/Throttler.cpp", "vrs/Recordable.cpp"],
  [("mutexes and thread safe statics around process wide registries", "vrs/FileHandlerFactory.cpp")],
  ["ThreadSanitizer reports", "results compared with a single threaded run"])

P("C25", "Exported data and reports agree with the recording",
  "Extracting a recording to JSON and media files, and the reports describing it (overview, record and format listings, JSON summaries), account for every record and block of the selected streams exactly once, in order, with the timestamps, values, names, counts and sizes that the recording holds. "
  "Every JSON document produced is well formed, whatever text the recording contains.",
  ["inputs"], "all recordings (any tags, names, formats, values and record counts)",
  "Tests compare output for one sample file; text escaping and unusual streams are not covered.",
  ["vrs/utils/DataExtractor.cpp", "vrs/utils/RecordFileInfo.cpp", "vrs/utils/ImageExtractor.cpp", "vrs/utils/cli/ListRecords.cpp", "vrs/utils/cli/PrintRecordFormatRecords.cpp", "vrs/DataLayout.cpp"],
  [("JSON generation", "vrs/helpers/Rapidjson.hpp")],
  ["exported files and report text parsed back and compared with the recording"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out), "properties")
