"""The checks: per property, the driver runs (stages) that decide it."""
CHECKS = {}
NOT_APPLICABLE = {}
HOOK_COMMITS = []

def S(driver, quick, thorough, flavour="asan", mode="", **k):
    return dict(driver=driver, quick=quick, thorough=thorough, flavour=flavour, mode=mode, **k)

CHECKS["C01"] = dict(
    level="exploration", technique="random recordings under ASan/UBSan, read back and compared with the creation log kept by the client",
    note="Samples recordings and writer configurations (tens of thousands per run); the oracle is exact. Timestamps are finite.",
    stages=[S("drv_roundtrip", 24000, 2000000), S("drv_roundtrip", 2400, 200000, mode="chunks"), S("drv_roundtrip", 16, 800, mode="many"), S("drv_large", 600, 30000)],
    rule="Each case is a random recording (1-5 streams, tags, records of random type, version, size and timestamps) written with a random "
         "writer configuration and read back; non-trivial when at least one record was compared, distinct by configuration and first record.",
    must_observe=["records", "direct_writes", "preallocated", "async_engine", "multi_thread", "how:0", "how:1", "how:2", "how:3", "chunks", "late_streams", "second_recordings"],
)

CHECKS["C02"] = dict(
    level="exploration", technique="ThreadSanitizer over many-thread recordings with pauses injected at lock operations; file compared with what each thread created",
    note="Samples schedules (each case is one interleaving, told apart by the order of its lock operations); no enumeration.",
    stages=[S("drv_concurrent", 1200, 60000, flavour="tsan"), S("drv_concurrent", 2500, 100000)],
    rule="Each case records from several threads with random settings; distinct by the order in which threads took locks and the number of records stored.",
    must_observe=["records_checked", "toggles", "late_streams", "pauses", "auto_collect", "closed_while_producing", "purged_before", "compression_threads", "records_in_second"],
)

CHECKS["C03"] = dict(
    level="fault_enumeration", technique="write-call log of real recordings, crash states rebuilt from prefixes and reopened under ASan/UBSan",
    note="Crash points are sampled within each recording (operation boundaries, inside writes, at the end), with user space buffers partly lost per file. "
         "States are prefixes of the written operations of each file: reordering by the disk is not modelled.",
    stages=[S("drv_crash", 10000, 400000), S("drv_crash", 90, 6000, mode="big"), S("drv_large", 300, 15000)],
    rule="Each case records a random plan with every write call logged, then opens files rebuilt from prefixes of that log; non-trivial when at least one "
         "crash point after the description was examined, distinct by plan and crash points.",
    must_observe=["crash_points", "points_reindexed", "points_with_index", "points_in_the_middle", "cut_inside_a_write", "several_files", "split_index_batches",
                  "how:0", "how:1", "how:2", "how:3", "engine:aio", "engine:psync", "engine:sync"],
)

CHECKS["C04"] = dict(
    level="fault_enumeration", technique="interrupted and damaged files repaired in place under ASan/UBSan; contents and bytes compared before, after and after a second repair",
    note="Samples crash states and tail damage of random recordings. Whether the repair itself survives a crash is not claimed.",
    stages=[S("drv_repair", 5000, 300000), S("drv_large", 300, 15000)],
    rule="Each case records a random plan, derives interrupted or damaged files, and compares what can be read before and after the repair; "
         "non-trivial when at least one file could be opened, distinct by plan and damage.",
    must_observe=["repaired", "had_index", "repaired_split_head", "repaired_several_chunks", "damaged_headers", "second_repairs"],
)

CHECKS["C05"] = dict(
    level="fault_enumeration", technique="the n-th storage call of a recording fails (libc calls interposed), under ASan/UBSan; reported status against file contents",
    note="One failing call (or all from one on) per run; calls and positions are sampled. Failures while closing after another failure are covered by the 'all later ones' runs.",
    stages=[S("drv_fail", 10000, 300000)],
    rule="Each case records a random plan once, then again with chosen storage calls failing; non-trivial when at least one failing run was judged, distinct by plan, failures and outcome.",
    must_observe=["failures_injected", "reported_failure", "failed_after_records", "kind:open", "kind:write", "kind:seek", "kind:close", "kind:aio-submit", "kind:aio-complete", "kind:aio-short"],
)

CHECKS["C07"] = dict(
    level="exploration", technique="every lookup of the reader compared online with a linear search of the complete index; jumps compared with straight play; under ASan/UBSan",
    note="Samples files (up to ~100 records) and query sequences. Among equally near records any one is accepted; empty tag values and undefined types are not searched for.",
    stages=[S("drv_lookup", 12000, 800000)],
    rule="Each case takes one reader through 1-3 random files and asks 40-200 random questions about each; distinct by streams and records of the files.",
    must_observe=["found", "not_found", "nearest_among_several", "jumps", "first_configurations", "reindexed", "lookup:nearest", "lookup:getRecord(stream,type,n)", "lookup:getLastRecord",
                  "lookup:getRecordByTime(stream,type,t)", "value:getRecordSize", "stream:name", "stream:serial", "stream:tag", "stream:flavor"],
)

CHECKS["C08"] = dict(
    level="exploration", technique="flat byte array model compared online with DiskFile after every operation and with the chunk files at the end; recorded chunk limits checked on the files; under ASan/UBSan",
    note="Samples chunk layouts (up to 40 chunks, a few KB each) and operation sequences. A read after a write is preceded by a seek, as the C library requires; sizes reported while the last chunk grows are not judged before close.",
    stages=[S("drv_chunks", 40000, 1600000), S("drv_roundtrip", 800, 40000, mode="chunks"), S("drv_large", 2000, 100000, mode="chunks")],
    rule="Each case builds random chunk files and runs a random operation sequence over them (read only, updates, creation, one-shot helpers, discovery of chunks, a recording cut anywhere); distinct by content and outcome.",
    must_observe=["reads_across_chunks", "short_reads", "seeks", "skips", "refused_seeks", "chunks_forgotten", "overwrites", "overwrites_extending", "truncates", "chunks_added", "missing_chunks",
                  "chunk_sets_found", "recordings_cut", "atomic_files", "zstd_files"],
)

CHECKS["C09"] = dict(
    level="exploration", technique="flat byte array model compared online with AsyncDiskFile and with the stored file, with aio_write executed by delayed, reordered and failing stand-ins; ASan/UBSan and ThreadSanitizer",
    note="Samples parameters, operation sequences, completion orders and single failing requests. After an error was reported the content is not judged, only that everything still terminates and the object can be used again.",
    stages=[S("drv_async", 14000, 600000), S("drv_async", 3000, 100000, flavour="tsaio", mode="tsan"), S("drv_large", 400, 20000, mode="async")],
    rule="Each case creates one or two files with random engine parameters, a random operation sequence and at most one kind of failure; distinct by parameters, failure and outcome.",
    must_observe=["engine:aio", "engine:aio:direct", "engine:psync:direct", "engine:sync", "overtakings", "reads", "truncates", "seeks", "chunks_added", "faults:submit", "faults:complete", "faults:short",
                  "faults:write", "faults_reported", "files_compared", "bad_setups", "chunked_updates"],
)

CHECKS["C10"] = dict(
    level="exploration", technique="online monitor inside StreamPlayer callbacks: bytes, amounts read and remaining after every piece compared with the record's full read; exact-size heap buffers under ASan/UBSan",
    note="Samples records up to 4 MB and series of up to 13 pieces; compressed data of damaged records may read as anything, as long as the following records are right.",
    stages=[S("drv_pieces", 20000, 800000), S("drv_pieces", 8000, 300000, mode="frames")],
    rule="Each case opens up to 3 readers on up to 2 recordings (some cut in chunk files anywhere, some damaged) and reads records at random in random pieces, also from within callbacks of another reader; distinct by sizes and amounts.",
    must_observe=["pieces", "over_asks", "asked_too_much", "declined", "records_left", "nested_reads", "cut_files", "damaged_refused", "type:lz4", "type:zstd", "type:none", "frames", "frames_over_limit", "frames_cut"],
)

CHECKS["C11"] = dict(
    level="exploration", technique="model of every field's definition and value compared with DataLayout objects rebuilt from text, clones, stored bytes, mapped definitions and record files, under ASan/UBSan",
    note="Samples definitions of up to 14 fields (all 30 element types, every kind of field). Numbers in the text form are compared to a relative 1e-6, stored values bit by bit.",
    stages=[S("drv_layout", 6000, 400000), S("drv_layout", 1500, 80000, mode="file")],
    rule="Each case makes a random definition, gives it random values, and reads them with evolved definitions; distinct by definition.",
    must_observe=["kind:value", "kind:array", "kind:vector", "kind:string", "kind:map", "texts", "mappings", "values_read", "values_missing", "copies_of_mapped", "clones_edited", "edits", "damaged", "blocks_read"],
)

CHECKS["C13"] = dict(
    level="exploration", technique="online monitor inside RecordFormatStreamPlayer callbacks, against the generator's own description of every block, under ASan/UBSan",
    note="Samples record formats (up to 8 blocks) and play orders; payloads of compressed image formats are random bytes (decoding is C21).",
    stages=[S("drv_content", 20000, 1500000)],
    rule="Each case records random streams with random record formats and plays them straight, by jumps and partially; distinct by amounts delivered.",
    must_observe=["blocks:image", "blocks:audio", "blocks:custom", "blocks:data_layout", "jumps", "records_cut", "configurations_stopped_after_metadata", "malformed_records", "streams_with_two_configuration_versions"],
)

CHECKS["C14"] = dict(
    level="exploration", technique="everything the multiple file reader tells and delivers compared online with what single file readers tell and deliver, and with linear searches of the merged list; under ASan/UBSan",
    note="Samples sets of 1-9 files. Files that don't all tell the tags that relate them may be opened or refused; among equally near records any one is accepted; relative stream names are not judged.",
    stages=[S("drv_multi", 5000, 250000), S("drv_multi", 2000, 100000, mode="rich")],
    rule="Each case records 1-9 files and opens subsets of them 1-4 times with one reader, with files to be refused in between; distinct by streams, records and outcomes.",
    must_observe=["opened_one", "opened_two", "opened_several", "opened_again", "refused_bad", "refused_unrelated", "renamed_streams", "streams_without_records", "ties_between_files", "same_file_twice",
                  "nearest_found", "nearest_none", "reads_with_a_player", "lines_compared", "formats"],
)

CHECKS["C15"] = dict(
    level="fault_enumeration", technique="copies and merges compared record by record and tag by tag with the selection worked out by brute force from their sources, also with failing storage calls and damaged sources; under ASan/UBSan",
    note="Samples recordings, options, failing calls and damages. When several merged files have records of the same stream, type and time, those of any one of the files are accepted.",
    stages=[S("drv_copy", 4000, 200000), S("drv_copy", 3000, 150000, mode="faults"), S("drv_copy", 4000, 150000, mode="rich")],
    rule="Each case makes 1-3 recordings and copies or merges them 1-4 times; distinct by amounts copied and outcome.",
    must_observe=["copies", "merges", "copies_of_several", "merged_streams", "tag_overrides", "by_the_tool", "outputs_in_chunks", "complete_copies", "decimated_copies", "times_in_several_sources", "onto_a_source",
                  "runs_with_failures", "failures_reported", "failing:source-read", "failing:write", "damaged_with_unreadable_records", "zero_filters", "identity_filters", "blocks_zeroed"],
)

CHECKS["C16"] = dict(
    level="exploration", technique="brute force selection by the documented meaning of the options compared with the records, index and playback given by the filtered reader, under ASan/UBSan",
    note="Samples recordings (up to 60 records) and options, given as arguments of the tool or by API. Limits relative to data records that don't exist, and the order in which bucket decimation delivers, are not judged.",
    stages=[S("drv_filter", 16000, 800000)],
    rule="Each case makes a recording and applies 4-8 random selections to it; distinct by amounts selected.",
    must_observe=["as_arguments", "stream_choices", "type_choices", "minimum_absolute", "minimum_from_first", "minimum_from_last", "maximum_absolute", "maximum_from_first", "maximum_from_last", "around",
                  "first_records", "interval_decimations", "bucket_decimations", "bucket_records", "preroll_records", "predicates", "stops", "played", "indexes", "empty_ranges"],
)

CHECKS["C17"] = dict(
    level="exploration", technique="pairs of recordings, written differently from the same content or with a single difference, compared and checksummed in both orders, by API and tool; under ASan/UBSan",
    note="Samples recordings (up to 50 records), ways to write them, single differences and filters. When a filtered part differs only by the configuration and state records that come before it, the answer is not judged.",
    stages=[S("drv_compare", 8000, 400000)],
    rule="Each case writes a random recording, then 3 times the same content or a single difference with other settings; distinct by content and differences.",
    must_observe=["compared_equal", "compared_equal_part", "compared_different", "checksums_equal", "checksums_different", "verbatim_equal", "verbatim_different", "damaged", "by_the_tool", "reindexed",
                  "difference:payload byte", "difference:payload longer", "difference:payload limits", "difference:payloads swapped", "difference:timestamp", "difference:format version", "difference:record missing", "difference:record added", "difference:stream added",
                  "difference:record moved to another stream", "difference:record moved to another type", "difference:file tag value", "difference:stream tag value", "difference:vrs tag", "difference:stream missing"],
)


CHECKS["C06"] = dict(
    level="exploration", technique="field-aware mutation of real recordings, read by the whole API and the tool's commands under ASan/UBSan with allocation, memory and time limits",
    note="Mutations are guided by the file format, not by coverage. Image formats that this build can't decode (JXL, video, custom codecs) are not decoded. Allocations above 1.2 GB count as violations.",
    stages=[S("drv_hostile", 12000, 400000, asan="max_allocation_size_mb=1200:hard_rss_limit_mb=3500")],
    rule="Each case makes one recording and up to 6 damaged variants of it; distinct by kind of recording, damages and outcome.",
    must_observe=["refused", "opened_with_index", "opened_without_index", "blocks", "frames", "sounds", "commands", "multi", "mutation:index", "mutation:file header", "mutation:record header", "mutation:description"],
)

CHECKS["C23"] = dict(
    level="exploration", technique="worker threads led step by step against a reference model (held while waking up), and free running histories checked offline, under TSan and ASan",
    note="Step mode decides exactly but samples histories; race mode samples schedules (told apart by the order of lock operations). What endQueue(false) leaves is not judged for waiting receivers.",
    stages=[S("drv_sync", 6000, 300000), S("drv_sync", 3000, 200000, mode="race"), S("drv_sync", 2500, 150000, flavour="tsan", mode="race"), S("drv_sync", 800, 40000, flavour="tsan")],
    rule="Each case is one history of operations on a job queue, event channel or semaphore; distinct by history (steps) or by the order of lock operations (race).",
    must_observe=["events_received", "lookback_received", "timeouts", "bursts", "held_wakeups", "destroyed_listeners", "destroyed_held", "destroyed_entering", "jobs_received",
                  "received_many", "partial_cancels", "ended_waits", "semaphore_passed", "semaphore_timeouts", "race_jobs", "race_cancelled", "race_events", "conservation_checks",
                  "shared_events", "semaphore_races", "own_thread", "pauses"],
)

CHECKS["C18"] = dict(
    level="exploration", technique="random histories of create, purge, write, toggle and record operations under ASan/UBSan, files compared with a model of every stream's queue",
    note="Samples histories of up to 300 operations on up to 4 streams; timestamps below the maximum the library documents. Automatic purging is judged once a purge is complete.",
    stages=[S("drv_buffer", 12000, 800000)],
    rule="Each case is one history with one or more files written; distinct by history.",
    must_observe=["late_records", "purged", "kept_old", "inactive_collects", "purges_recording", "purges", "toggles", "writes", "written_at_once", "auto_purges",
                  "suspended_purges", "direct_written", "records_verified"],
)

CHECKS["C24"] = dict(
    level="exploration", technique="the same random tasks run by several threads and then alone, results compared, under TSan and ASan with pauses at lock operations",
    note="Samples schedules and sets of tasks (recording, reading, playing, copying, merging, checksums, comparisons, reports, layouts, images, audio, specs, handlers, errors, extraction) with objects handed from thread to thread. Set-up calls (registering decoders, enabling the file cache) are not run while others use them.",
    stages=[S("drv_threads", 900, 40000, flavour="tsan"), S("drv_threads", 700, 40000)],
    rule="Each case is one set of tasks run by 2 to 7 threads; distinct by tasks and the order of lock operations.",
    must_observe=["tasks", "results_compared", "streams", "handed_over", "pauses", "task_record", "task_record_handed_over", "task_copy", "task_extract_images", "task_images", "task_handlers", "task_legacy"],
)

CHECKS["C20"] = dict(
    level="exploration", technique="details saved, damaged in many ways and loaded back; files opened through a remote-like handler with and without caches after damage, read errors and cancellations; logged writes of a cache cut at every kind of point; ASan/UBSan and TSan",
    note="Samples details of up to 130000 records, damages, histories of opens, crash points and faults. A cache for another file of the same name, size and creation id is out of scope.",
    stages=[S("drv_cache", 4000, 200000, mode="api"), S("drv_cache", 9000, 400000, mode="reader"), S("drv_cache", 2500, 100000, mode="interrupted"), S("drv_cache", 2500, 100000, flavour="tsan", mode="reader")],
    rule="Each case is one set of details with its damaged variants, one recording with a history of opens, or one cache with its crash points; distinct by damage and outcome, or by recording.",
    must_observe=["round_trips", "damage_refused", "opened_cold", "opened_with_cache", "opened_with_read_errors", "opens_cancelled", "caches_damaged", "opens_saved_by_cache", "crash_states", "writes_failed", "found_new", "found_none"],
)

CHECKS["C19"] = dict(
    level="exploration", technique="generated specifications and texts parsed from exactly sized buffers under ASan/UBSan and compared with an independent parser; round trips through every form; files with unusual names opened by path, JSON and URI",
    note="Samples texts up to a few thousand characters (JSON nesting up to 200000 levels). Extra parameters named as the JSON fields of a specification are excluded; the uri of a hand made specification is only a trace and not compared.",
    stages=[S("drv_spec", 60000, 2000000), S("drv_spec", 36000, 1500000, mode="text"), S("drv_spec", 6000, 100000, mode="files")],
    rule="Each case is one specification, a dozen of texts, or one file name; distinct by specification, texts or name.",
    must_observe=["specs", "path_roundtrips", "paths", "uris", "paths_with_parameters", "json_parsed", "json_refused", "refused", "uris_from_parts", "stream_ids", "files_opened"],
)

CHECKS["C12"] = dict(
    level="exploration", technique="generated descriptions and texts, under ASan/UBSan, compared with an independent model of descriptions, of their text and of exact sizes (128 bit arithmetic), and with buffers really built to the description",
    note="Samples descriptions of up to 60 blocks and texts of a few thousand characters. Attributes the text form doesn't tell for an image format (strides or codecs of jpg, png, jxl or raw images, a width without height) and key frame times beyond nanoseconds are not compared.",
    stages=[S("drv_format", 240000, 6000000), S("drv_format", 90000, 3000000, mode="text"), S("drv_format", 40000, 1000000, mode="register")],
    rule="Each case is one record format, a dozen of texts, or one register of formats; distinct by text.",
    must_observe=["formats", "blocks", "blocks_image", "blocks_audio", "blocks_custom", "sizes_known", "sizes_unknown", "sizes_huge", "images_built", "audio_built", "texts", "text_blocks", "registers", "tag_names", "layout_lookups"],
)
CHECKS["C22"] = dict(
    level="exploration", technique="generated recordings with audio, extracted under ASan/UBSan: sound files are read by an independent strict WAV reader and compared sample by sample with what was recorded; Opus packets against libopus called directly",
    note="Samples streams of up to 40 audio blocks. Sample values are compared after the conversions that WAV files require (8 bit samples are unsigned, others signed little endian).",
    stages=[S("drv_audio", 6000, 150000), S("drv_audio", 6000, 150000, mode="track"), S("drv_audio", 3000, 60000, mode="opus")],
    rule="Each case is one recording that is extracted (or one sequence of packets); distinct by the formats and sizes of the sounds.",
    must_observe=["pcm_blocks", "opus_blocks", "sound_files", "format_changes", "samples", "packets_decoded", "packets_refused", "odd_packets", "odd_blocks", "unwritable", "two_block_records", "tracks_complete", "tracks_interrupted", "several_tracks", "energy_judged", "wrong_sizes"],
)

CHECKS["C21"] = dict(
    level="exploration", technique="generated frames, buffers and encoded images under ASan/UBSan, compared pixel by pixel with scalar reference code and with PNG and JPEG files made independently; truncated and damaged files",
    note="Samples images of up to 400 pixels a side; strides are multiples of the size of the components. Normalizations of floating point images are compared within one level. Ocean and JPEG-XL code isn't part of this build.",
    stages=[S("drv_image", 240000, 4000000), S("drv_image", 300000, 6000000, mode="convert"), S("drv_image", 100000, 2000000, mode="codec")],
    rule="Each case is one image, or one conversion; distinct by format, dimensions, strides and alignments.",
    must_observe=["normalized", "frames_tight", "frames_padded", "lacking", "rgba_to_rgb", "psnr", "swapped", "converted", "conversions_refused", "png_decoded", "png_refused", "png_truncated", "png_interlaced", "png_files", "png_disk_full", "jpg_decoded", "jpg_refused", "jpg_compared", "raw_read", "raw_refused", "custom_decoded", "custom_refused", "colors"],
)

CHECKS["C25"] = dict(
    level="exploration", technique="generated recordings with hostile texts, exported and described under ASan/UBSan: JSON is parsed back by a strict validating parser, media files by independent readers, and every record, block, value, count and size is compared with what was recorded",
    note="Samples recordings of up to 3 streams and 25 records. Texts that aren't valid UTF-8 may be escaped in any way; non printable tag values as well. NaN and infinities are accepted in JSON, as documented. Sound is compared by C22, pixels by C21.",
    stages=[S("drv_report", 6000, 150000), S("drv_report", 6000, 150000, mode="report"), S("drv_report", 4000, 100000, mode="images")],
    rule="Each case is one recording, with one selection of streams, types and times, that is exported or described; distinct by numbers of streams, records and blocks.",
    must_observe=["exports", "records", "overviews", "text_overviews", "chunked_files", "blocks_metadata", "blocks_custom", "blocks_image", "blocks_audio", "blocks_unsupported", "png_files", "encoded_files", "sound_files", "listed", "printed", "summaries", "formats", "layouts", "checks_judged", "decodes_judged", "image_files"],
)
