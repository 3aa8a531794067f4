"""What check.py builds and runs for each property."""
SEGY_A = ["the reference codec in harness/segy_ref.hpp, written from the SEG-Y layout, is right",
          "little-endian IEEE-754 host, local file system"]

SEGD_A = ["the reference layout in harness/segd_ref.hpp, written from the SEG-D layout, is right",
          "well-formed files: decimal digits in BCD fields, sample count in a header extension (or, revision 3, the channel set), last fraction bit of 8015 zero, ascending block numbers, revision 3 descale multiplier zero (see known finding)",
          "little-endian IEEE-754 host, local file system"]


def P(src, lib, rule, **kw):
    d = dict(src=src, lib=lib, rule=rule, level="exploration")
    d.update(kw)
    return d


PROPS = {
    "C01": P(["c01.cpp"], "segy", "every 8/16-bit sample pattern, strided or (thorough) complete 24-bit patterns, all 4096 leading-bit combinations of 32/64-bit patterns, and random well-formed files; a case is non-trivial when it holds at least one sample, distinct by file content", assumptions=SEGY_A,
             must_observe=["samples:fmt*:LE", "samples:fmt*:BE", "files:variable"]),
    "C02": P(["c02.cpp"], "segy", "random writer revision, format, byte order, fixed/variable/derived length and representable sample values incl. every binary exponent; distinct by the written values", assumptions=SEGY_A),
    "C03": P(["c03.cpp"], "segy", "random valid mappings (13 field types, any offsets, 1-4 headers) over random header bytes, read and written; non-trivial with at least one trace, distinct by file content", assumptions=SEGY_A),
    "C04": P(["c04.cpp"], "segy", "random values in all 44 binary header fields, each field alone, writers of all revisions; distinct by header bytes", assumptions=SEGY_A),
    "C05": P(["c05.cpp"], "segy", "files with counted/terminated extended headers and trailers, and writer runs; non-trivial with more than one text block or a trailer; distinct by file content", assumptions=SEGY_A),
    "C06": P(["c06.cpp"], "segy", "random files read with random interleavings of has_trace/read_header/read_trace, with and without header override; distinct by file content and history", must_observe=["histories_with:*", "reads_behind_the_end"], assumptions=SEGY_A),
    "C07": P(["c07.cpp"], "segy", "canonical random files copied through reader and writer and compared byte for byte; distinct by file content", assumptions=SEGY_A),
    "C08": P(["c08.cpp"], "segy", "random files with colliding keys of every field type read sorted, with random lookups in between; non-trivial with more than one trace, distinct by file content", must_observe=["nan_keys", "signed_zero_keys", "lookups", "absent_lookups", "reads_behind_the_end"], assumptions=SEGY_A),
    "C09": P(["c09.cpp"], "segy", "well-formed random files damaged by 1-4 mutations (truncation, garbage, odd values in every layout-steering field, noise), read plain, overridden and sorted, plus file prefixes; distinct by damaged content", assumptions=SEGY_A, variants=["rel", "hard"], must_observe=["opened", "refused_at_open", "traces_read"]),
    "C10": P(["c10.cpp"], "segy", "random histories of fitting and misfitting traces per writer, and bad constructor arguments; distinct by configuration and history", assumptions=SEGY_A, variants=["rel", "hard"]),
    "C11": P(["c11.cpp"], "all", "random mappings (SEG-Y headers, SEG-D header extensions) with one injected defect or none against readers and writers; distinct by mapping and target", must_observe=["valid_accepted", "invalid_refused", "segd_valid_accepted", "segd_invalid_refused", "defect:overlap", "segd_defect:overlap"], assumptions=SEGY_A, variants=["rel", "hard"]),
    "C12": P(["c12.cpp"], "base", "every value of 1-4 digits at both alignments, all 256 neighbouring contents, boundary/random values of up to 12 digits, packed field sequences, 8 integer widths, in exactly sized heap buffers; distinct by value, width and alignment", assumptions=["values that do not fit the requested digits are outside the property", "a field that ends in the high half of a byte may zero the low half, which belongs to the field after it"], san_harness=True, must_observe=["encodings", "decodings", "exhausted_digits:*", "packed_digits"]),
    "C13": P(["c13.cpp"], "segy", "all 256 codes in both directions, the printable ASCII set against code page 037/1047, random strings of 0-3202 bytes; distinct by code or string", assumptions=["^ [ ] may take their 037 or their 1047 code"], must_observe=["codes", "standard_characters", "bytes"]),
    "C21": P(["c21.cpp"], "base", "random histories of 22 operations over 4 traces and 3 headers, and of exception copies/moves/throws, every live object compared with its model after every step; distinct by history", assumptions=["moved-from objects are only assigned to or destroyed"], must_observe=["self_assignments", "self_moves", "moves", "exception_steps"]),
    "C14": P(["c14.cpp"], "segd", "random SEG-D files of revisions 0-3 (every block kind alone and mixed, escape codes, more blocks than the nibble counts), every field of every record compared with the stored bytes; non-trivial with a general header 2, distinct by header bytes", assumptions=SEGD_A, must_observe=["records_compared:rev0", "records_compared:rev1", "records_compared:rev2", "records_compared:rev3", "kind:*"]),
    "C15": P(["c15.cpp"], "segd", "random channel set layouts incl. up to 99 scan types, 300 channel sets, 140000 channels, 400 extended/external blocks, skew blocks; distinct by header bytes", assumptions=SEGD_A, must_observe=["many_channel_sets", "many_scan_types", "many_header_blocks", "many_channels", "with_skew_blocks"]),
    "C16": P(["c16.cpp"], "segd", "all bit patterns of the 8/16-bit formats and all exponent x fraction pairs of 8015, strided or (thorough) complete 24-bit patterns, all leading 12-bit combinations of wider formats, random multi-record files with per-set descale; distinct by file content", assumptions=SEGD_A, must_observe=["exhausted:*", "descale:integer", "descale:fraction", "samples:fmt9080"]),
    "C17": P(["c17.cpp"], "segd", "random files of 1-9 records (mixed revisions, trailers, shuffled channel sets) read with no, random, Sercel and damaged extension mappings; non-trivial with more than one trace or record, distinct by file content", assumptions=SEGD_A, must_observe=["records_with_trailer", "files_with_mapping", "files_with_several_records", "records_without_traces", "more_blocks_than_maps", "bad_mappings_refused", "reads_behind_the_end"]),
    "C18": P(["c18.cpp"], "segd", "canonical revision 2.1 records (11 formats, mappings, escapes, integer and fractional descale) written from headers verified against the reference layout and from reference traces, compared byte for byte and read back; interleaved misfitting traces and bad constructor arguments; distinct by file content (and refusals)", assumptions=SEGD_A + ["consistent arguments: block counts of the general headers match the blocks given, SAMP_NUM is the number of samples, every trace has a header extension"], must_observe=["files_compared", "format:*", "files_with_mapping", "files_with_general_header_n", "refused:*", "refused_arguments:*", "descaled_samples"]),
    "C19": P(["c19.cpp"], "segd", "well-formed random files of revisions 0-3 damaged by 1-4 mutations (truncation, garbage, odd values in every layout-steering field, shifted pieces, noise), iterated both ways with the same or another extension mapping, plus file prefixes; distinct by damaged content", assumptions=["little-endian IEEE-754 host, local file system"], variants=["rel", "hard"], must_observe=["opened", "refused_at_open", "traces_read", "finished", "prefixes"]),
    "C23": P(["c23.cpp"], "all", "every enumerator of the 30 Name enumerations (found by the compiler, not listed), every field of the default SEG-Y and Sercel mappings, every description; complete, so nothing is sampled; distinct by name and text", assumptions=["the published layouts as transcribed in harness/c23.cpp are right", "a description fits its name when no exchange of descriptions between names shares more words with the names"], variants=["rel", "hard"], must_observe=["class:*", "descriptions", "published_fields", "assignments_checked", "text_lines"]),
    "C24": P(["c24.cpp"], "all", "random histories of accepted and refused traces per SEG-Y and SEG-D writer over new and older files, the file on disk inspected after every call and compared with the accepted traces and with the inspection before; well-formed and damaged files read in every mode, content, inode, mode and modification time compared; distinct by content and history", assumptions=SEGY_A + ["what a crash leaves behind is what the file system shows between two calls"], must_observe=["inspections", "files_inspected_while_growing", "accepted", "refused", "abandoned_records", "older_files_replaced", "files_read", "readings_with_errors"]),
    "C22": P(["c22.cpp"], "all", "sessions of every reader and writer over random small files, rerun once per open/read/write/seek call they make and per way that call can go wrong (error, early end, partial write, short, interrupted), the transcript compared with the undisturbed one; full devices, size limits, every (thorough) or evenly spread (quick) cut positions; distinct by session and fault", assumptions=["the C++ library does its file I/O through read, write, writev, lseek64 and fopen64", "a failure while a writer is being destroyed has nobody to be reported to"], variants=["rel", "asan"], ldflags=["-rdynamic"], must_observe=["faults:segy-reader:*", "faults:segy-sorted:*", "faults:segd-reader:*", "faults:segy-writer:*", "faults:segd-writer:*", "reported", "full_reported", "cuts_reported", "traces_in_cut_files"]),
    "C20": P(["c20.cpp"], "all", "sessions of every reader and writer (valid and damaged files, two readers of one file) run alone in a fresh process, again after others over memory with other old contents, interleaved call by call with up to five others in one thread, and on up to eight threads at once under ThreadSanitizer; distinct by the order in which the calls were actually made", assumptions=["one object per thread; objects are not shared between threads", "ThreadSanitizer sees the library and the monitor, not libstdc++'s precompiled part"], variants=["rel", "tsan"], must_observe=["compared:history:*", "compared:interleaved:*", "compared:threads:*", "switches", "thread_switches", "calls_on_threads", "concurrent_sessions"]),
    "C25": P(["c25.cpp"], "all", "lives of every reader and writer and of traces and exceptions (complete, abandoned, refused at construction, damaged files), repeated, with the blocks and bytes of operator new and the open descriptors counted before and after; memory in use after every trace while hundreds of traces are read, looked up or written; distinct by kind and content", assumptions=["memory obtained other than through operator new is not counted (the library obtains none)", "an allocation kept from the first uses on is not a leak"], variants=["rel", "asan"], must_observe=["lives:segy-read", "lives:segy-read-damaged", "lives:segy-sorted", "lives:segy-open-refused", "lives:segy-write-rev*", "lives:segd-read", "lives:segd-read-damaged", "lives:segd-write", "lives:values", "lives_ended_by_exception:*", "growth_watched:segy-read", "growth_watched:segy-sorted", "growth_watched:segy-copy-rev*", "growth_watched:segd-read", "growth_watched:segd-copy", "growth_watched:trace-lookup", "growth_watched:segy-read-on", "growth_watched:segd-read-on", "growth_watched:segy-refused-rev*", "growth_traces_refused", "absent_values_looked_up"]),
    "C26": P(["c26.cpp"], "segd", "canonical revision 3 records (all block kinds, extended counts, mapped and standard extensions) read by the library and stored again through a writer derived from OSEGD; bytes compared with the original and read back against the reference; distinct by content", assumptions=SEGD_A + ["the derived writer composes the record in the order of the standard, as OSEGDRev2_1 does"], variants=["rel", "asan"], must_observe=["rev3_records_copied:*", "extended_trace_number"] + ["block_kind:%02x" % t for t in (0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f, 0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x55, 0x56, 0x60, 0x61)]),
    "C27": P(["c27.cpp"], "all", "random SEG-Y and SEG-D files cut at, around and between the bounds of their parts, and what is on disk after every call of a writer; distinct by content of the whole file", assumptions=["SEG-Y files with trailer stanzas are outside the property: the reader finds the end of the traces by counting stanzas from the end of the file"], variants=["rel", "hard"], must_observe=["segy_complete_traces_read", "segy_incomplete_traces_reported", "segy_sorted", "segd_complete_traces_read", "segd_reported:trace", "segd_cut_behind_last_trace", "segd_cut_between_records", "segy_unfinished_files_with_traces", "segd_unfinished_files_with_traces"]),
}

# properties listed but not claimed, with the reason (id -> text)
NOT_CLAIMED = {}
