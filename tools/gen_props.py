#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "SEG-Y sample values are decoded exactly for every format and byte order",
 "Reading a trace from a SEG-Y file yields, for every supported sample format (IBM float, IEEE single/double, signed and unsigned 8/16/24/32/64-bit integers) and for big- and little-endian files, exactly the number the stored bytes denote, rounded to double only where a 64-bit integer does not fit. The number of samples equals the file's samples-per-trace (extended count when present, 16-bit count taken as unsigned, per-trace count for variable-length files).",
 ["inputs", "configurations"], "all bit patterns of every sample format, both byte orders (explicit and implied), fixed and variable trace length",
 "Five sample files with one waveform each are read; 8 of 13 formats, little-endian data, negative 24-bit values, denormals/NaN/extreme exponents are never read.",
 ["src/ISEGY.cpp"], [("assign_raw_readers / assign_sample_reader / dbl_from_ibm_float", "src/ISEGY.cpp"), ("read_trc_smpls_fix / read_trc_smpls_var", "src/ISEGY.cpp"), ("swap/read", "include/util.hpp")],
 ["ISEGY::read_trace().samples()"])
prop("C02", "SEG-Y samples written come back as the same values, in the standard encoding",
 "For every SEG-Y writer revision, sample format and byte order, each sample value representable in the format is stored in the format's standard byte encoding and is read back as the same value; for IBM float, values not exactly representable are stored with an error below one unit in the last place. The stored trace has exactly as many samples as the trace that was written.",
 ["inputs", "configurations"], "all representable sample values x 13 formats x 2 byte orders x writer revisions 0/1/2 x fixed/variable trace length",
 "The write tests copy five fixed files (one waveform each, big-endian, revision 0 writer only).",
 ["src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp"], [("assign_raw_writers / assign_sample_writer / write_ibm_float", "src/OSEGY.cpp"), ("write_trace_samples_fix / write_trace_samples_var", "src/OSEGY.cpp")],
 ["bytes of the written file", "ISEGY::read_trace() on it"])
prop("C03", "SEG-Y trace header fields follow the mapping exactly, on read and on write",
 "For any valid trace header mapping (any field types at any non-overlapping offsets, main plus additional trace headers), reading yields for every mapped name exactly the value stored at that offset in that type and the file's byte order (a name mapped in several headers takes the value of the last one) and no other names; unmapped additional headers are skipped. Writing stores every mapped value at its offset in that type, integers and floating values converting where needed, names absent from the trace as zero, and all unmapped bytes as zero.",
 ["inputs", "configurations"], "all valid mappings x all field types x all stored values x both byte orders x 0..n additional trace headers",
 "Tests print headers of one file through the default mapping; custom maps, 24-bit, IBM/IEEE fields and additional trace headers are never exercised.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/CommonSEGY.cpp", "src/Trace.cpp"], [("read_trc_header", "src/ISEGY.cpp"), ("write_trace_header / write_additional_trace_headers", "src/OSEGY.cpp"), ("default_trace_header", "src/CommonSEGY.cpp")],
 ["ISEGY::read_header()/read_trace().header()", "bytes of written trace headers"])
prop("C04", "SEG-Y binary file header fields sit at their standard offsets, read and written",
 "Every binary file header field is read from and written to its standard SEG-Y rev 2 byte position, width, signedness and byte order; revision-2-only fields of files of revision 0 and 1 read as zero; reading back a written header returns every field the caller supplied except those the writer derives from what it writes (counts of extended text headers and trailer stanzas, the first-trace offset, a defaulted format and revision, and, for an all-zero header, the sample count and interval of the first trace). The byte-order constant stored in a file always describes the byte order of that file's data.",
 ["inputs", "configurations"], "all field values x both byte orders x writer revisions",
 "One file's header is checked on 17 fields that mostly hold zero or small positive values, big-endian only.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp"], [("fill_bin_header", "src/ISEGY.cpp"), ("write_bin_header", "src/OSEGY.cpp")],
 ["ISEGY::binary_header()", "ISEGY::read_binary_header()", "bytes 3200..3599 of written files"])
prop("C05", "SEG-Y text headers and trailer stanzas are preserved and counted truthfully",
 "Text header, extended text headers and data trailer stanzas are returned byte for byte, all of them and in order, whether the file gives their number or uses the end-of-text stanza, and are never mistaken for trace data. Files produced by the writers contain exactly the text blocks they were given (or the standard's default text header: 40 lines of 80 characters beginning C 1..C40, EBCDIC for revision 0) and state their number and the SEG-Y revision in the binary header so that a reader finds them again.",
 ["inputs", "configurations", "histories"], "all block contents and counts (0..n, terminated or counted), before/after any number of traces, for each writer revision",
 "Tests only print the first text header of a file without extended headers or trailers.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp", "src/CommonSEGY.cpp"], [("read_ext_text_headers / read_trailer_stanzas", "src/ISEGY.cpp"), ("write_ext_text_headers / write_trailer_stanzas / ~OSEGYRev2", "src/OSEGY.cpp, src/OSEGYRev2.cpp"), ("default_text_header", "src/CommonSEGY.cpp")],
 ["ISEGY::text_headers()/trailer_stanzas()", "bytes of written files"])
prop("C06", "SEG-Y reading visits every trace exactly once, in file order",
 "Iterating a well-formed SEG-Y file with any interleaving of header-only and full-trace reads visits every trace exactly once and in file order, each with its own header and samples, and 'has trace' is true exactly while traces remain (reading on when none remain raises an exception); this holds for fixed and variable trace lengths, additional trace headers, an explicit first-trace offset, extended text headers and trailer stanzas. Supplying the file's own binary header as an override changes nothing, and overriding fields makes the reader interpret the trace data with the overridden values.",
 ["histories", "inputs", "configurations"], "all read_header/read_trace/has_trace call sequences over all file layouts",
 "One 160-trace fixed-length file is iterated with read_trace only.",
 ["src/ISEGY.cpp"], [("has_trace / curr_pos / end_of_data", "src/ISEGY.cpp"), ("read_header / file_skip_bytes", "src/ISEGY.cpp"), ("initialization (override)", "src/ISEGY.cpp")],
 ["sequence of traces returned"], [{"name": "curr_pos, end_of_data, first_trace_pos", "meaning": "iteration position and bounds", "where": "src/ISEGY.cpp"}])
prop("C07", "Copying a SEG-Y file through the library is byte-exact",
 "Reading a SEG-Y file with a mapping that covers its header bytes and writing headers and traces with the writer of the same revision reproduces the file byte for byte, for every format and byte order, as long as its contents are canonical (unassigned bytes zero, normalised IBM floats, integers exactly representable in double, no signalling NaNs).",
 ["inputs", "configurations"], "all canonical files of revisions 0, 1, 2: formats x byte orders x trace lengths x additional headers x text blocks",
 "Five sample files are copied with the revision 0 writer; revisions 1 and 2 are never written.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp"], [("reader and writer as inverse codecs", "src/ISEGY.cpp, src/OSEGY.cpp")],
 ["bytes of the copy versus the original"])
prop("C08", "Sorted SEG-Y reading is a stable sort and groups by key completely",
 "Reading a file sorted by a trace header visits every trace exactly once, in non-decreasing key order (NaN after every number) and in file order among equal keys; the key list is the ascending set of distinct keys; asking for headers or traces by key returns exactly that key's traces in file order, at most the requested number, and nothing for absent keys. Lookups never disturb the sorted iteration, reading on when no trace remains raises an exception, and a file without traces gives an empty sequence.",
 ["inputs", "histories", "configurations"], "all key distributions and types, all interleavings of sorted iteration and key lookups",
 "No test uses the sorted reader.",
 ["src/ISEGYSorted1D.cpp", "src/ISEGY.cpp"], [("trc_map of stream positions", "src/ISEGYSorted1D.cpp")],
 ["ISEGYSorted1D::{has_trace,read_header,read_trace,get_keys,get_headers,get_traces}"])
prop("C09", "Reading arbitrary or damaged SEG-Y bytes is safe and terminates",
 "For any file contents, opening and iterating a SEG-Y file (plain or sorted, any valid mapping, with or without a header override) never reads or writes out of bounds, never executes undefined behaviour and never loops without consuming the file: it either returns data or reports the problem with an exception derived from std::exception.",
 ["inputs", "fault_sequences"], "all byte sequences as files; all truncations and mutations of valid files",
 "Tests read five well-formed files and one missing file.",
 ["src/ISEGY.cpp", "src/ISEGYSorted1D.cpp", "src/CommonSEGY.cpp"], [("stream exceptions, length checks", "src/ISEGY.cpp"), ("buffer sizing samp_buf", "src/ISEGY.cpp")],
 ["sanitizer reports", "exceptions leaving the API", "number of traces versus file size"])
prop("C10", "SEG-Y writers reject traces that do not fit instead of corrupting the file",
 "Handing a SEG-Y writer a trace that does not fit the file (sample count different from the declared fixed length or from the trace's own sample count header, missing or unusable sample count/interval when these must be derived, unsupported format or byte order, text blocks of the wrong size) raises an exception, never corrupts memory, and leaves a file that still reads back as exactly the traces accepted before. Writers accept further valid traces after a rejected one.",
 ["histories", "inputs", "configurations"], "all sequences of valid and misfitting traces for each writer revision and mode",
 "Tests only write traces just read from a consistent file.",
 ["src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp"], [("write_trace length checks", "src/OSEGY.cpp"), ("text header size checks", "src/OSEGYRev*.cpp")],
 ["exceptions", "sanitizer reports", "ISEGY read-back of the file"])
prop("C11", "Trace header mappings are accepted exactly when they are valid",
 "A SEG-Y reader or writer accepts a trace header mapping if and only if there is at least one header map (for writers), every header map name has 8 characters, no two fields of a header overlap, every field lies inside the 240 bytes of its header, and, when a supplied revision-2 binary header announces additional trace headers, exactly that many additional maps are given; a SEG-D reader or writer accepts a trace header extension mapping if and only if the fields of each extension lie inside its 32 bytes and do not overlap. Otherwise construction raises an exception.",
 ["inputs", "configurations"], "all mappings: any offsets up to 2^32-1, all types, any number of maps",
 "Tests only use the built-in default mapping.",
 ["src/CommonSEGY.cpp", "src/CommonSEGD.cpp"], [("constructor checks", "src/CommonSEGY.cpp, src/CommonSEGD.cpp")],
 ["construction succeeds or throws"])
prop("C12", "BCD conversion is an exact inverse pair that touches only its own digits",
 "Encoding any non-negative number that fits the requested digit count writes exactly its decimal digits, most significant first, starting at the requested half byte, leaves all bytes the field does not occupy unchanged (the low half of a final half-used byte may become zero) and advances the cursor consistently; decoding any digit sequence at any alignment yields the number it spells, and decode(encode(x)) = x.",
 ["inputs"], "all values and digit counts 1..12, both alignments, all integer widths used, all neighbouring byte contents",
 "The BCD test converts a handful of constants at fixed widths.",
 ["include/util.hpp"], [("from_bcd / to_bcd", "include/util.hpp")], ["buffer contents, cursor and returned value"])
prop("C13", "EBCDIC and ASCII conversion are mutually inverse and standard-conforming",
 "Converting any byte string from EBCDIC to ASCII and back, or the other way round, restores it exactly at unchanged length, and all letters, digits, space and the punctuation used in SEG-Y text headers map to their standard (code page 037/1047 style) EBCDIC codes.",
 ["inputs"], "all byte strings; all 256 byte values",
 "One test converts a sample text.",
 ["src/CommonSEGY.cpp"], [("e2a / a2e tables", "src/CommonSEGY.cpp")], ["converted strings"])
prop("C14", "SEG-D general headers of revisions 1-3 are decoded field by field as stored",
 "Opening a SEG-D revision 1, 2 or 3 file returns, for general headers 1, 2, 3 and N and for every revision 3 additional block (source, position, orientation, channel, electrode, time drift, measurement and so on), exactly the values stored at the SEG-D standard positions, including escape codes that redirect to the extended fields; every stored general header N is reported under its block number, for every revision 3 block kind the last stored block of that kind is reported, kinds that are not stored are not reported, and blocks of one kind never appear as another.",
 ["inputs", "configurations"], "all field values x all block kinds, counts and orders x revisions 1, 2 and 3",
 "SEG-D tests are not run at all (no sample file); they would only print.",
 ["src/ISEGD.cpp", "src/CommonSEGD.cpp", "include/CommonSEGD.hpp"], [("read_general_header* and the block dispatch table", "src/ISEGD.cpp")],
 ["ISEGD::general_header(), general_header2(), general_headerN(), general_header3() and the additional block getters"])
prop("C15", "SEG-D channel sets, extended and external headers are decoded as stored",
 "For every scan type and channel set of a SEG-D file the reader reports the stored number, type, channel count, timing, filters, descale multiplier and revision-specific fields exactly, in scan-type and channel-set order, for any number of scan types and channel sets including counts that need the extended fields; extended and external header blocks are returned byte for byte, all of them and in order.",
 ["inputs", "configurations"], "all field values, 1..n scan types, 1..n channel sets, 0..n extended/external blocks, revisions 1-3",
 "No SEG-D file is read by the tests that run.",
 ["src/ISEGD.cpp", "src/CommonSEGD.cpp"], [("read_channel_sets / read_ch_set_hdr*", "src/ISEGD.cpp"), ("read_extended / read_external", "src/ISEGD.cpp")],
 ["ISEGD::channel_set_headers(), extended_headers(), external_headers()"])
prop("C16", "SEG-D sample values are decoded exactly for every supported format code",
 "For every supported SEG-D format code (demultiplexed 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080 and the little-endian 9xxx forms) reading a trace yields exactly the number the stored bits denote under the SEG-D definition of that format, for every sample of the trace and independently of the traces read before.",
 ["inputs", "configurations", "histories"], "all bit patterns of every supported format, any number of samples, any preceding traces",
 "No SEG-D file is read by the tests that run.",
 ["src/ISEGD.cpp"], [("assign_sample_reader and per-format decoders", "src/ISEGD.cpp")], ["ISEGD::read_trace().samples()"])
prop("C17", "SEG-D reading visits every trace of every record once, with its own headers",
 "Iterating a well-formed SEG-D file visits every trace of every record exactly once and in file order, each with the header and header-extension values stored for it under the configured extension mapping and with its own sample count; 'has trace' is true exactly while the current record has traces left and 'has record' exactly while the file has records left; reading on behind the last trace raises an exception. General headers, channel sets and additional blocks reported for a record are those of that record only, and record trailer blocks are not mistaken for data.",
 ["histories", "inputs", "configurations"], "all record/trace/extension layouts, any number of records, traces and trailers",
 "No SEG-D file is read by the tests that run.",
 ["src/ISEGD.cpp", "src/CommonSEGD.cpp"], [("has_record / has_trace / read_trace / read_headers", "src/ISEGD.cpp"), ("trace header extension maps", "src/CommonSEGD.cpp")],
 ["sequence of traces and per-record headers"])
prop("C18", "SEG-D 2.1 files written by the library are standard and read back the same",
 "Writing headers, channel sets, extended/external headers and traces with the SEG-D 2.1 writer produces a file laid out per the standard, whose headers, channel sets, header blocks, trace headers, header extensions and samples all read back with the values that were written (samples exactly where representable in the format; values an integer or packed format does not have become the nearest one it has), and copying a canonical revision 2 file through reader and writer reproduces it byte for byte. Headers absent from a trace are stored as zero (scan type and channel set as one). Traces that do not fit the file are refused with an exception and nothing of them is stored; header arguments whose counts differ from what is given or cannot be stored are refused with an exception.",
 ["inputs", "configurations", "histories"], "all header values, channel set layouts, extension maps, sample formats and trace sequences",
 "The SEG-D write test has no sample file and is not run.",
 ["src/OSEGD.cpp", "src/OSEGDRev2_1.cpp", "src/ISEGD.cpp"], [("write_general_header*/write_ch_set_hdrs/write_trace_header", "src/OSEGD.cpp"), ("per-format sample writers", "src/OSEGD.cpp")],
 ["bytes of the written file", "ISEGD read-back"])
prop("C19", "Reading arbitrary or damaged SEG-D bytes is safe and terminates",
 "For any file contents, opening and iterating a SEG-D file (any valid extension mapping) never reads or writes out of bounds, never executes undefined behaviour and never loops without consuming the file: it either returns data or reports the problem with an exception derived from std::exception, and records without traces do not stop the iteration.",
 ["inputs", "fault_sequences"], "all byte sequences as files; all truncations and mutations of valid revision 1-3 files",
 "No SEG-D file, valid or damaged, is read by the tests that run.",
 ["src/ISEGD.cpp", "src/CommonSEGD.cpp"], [("stream exceptions, bounds checks on block counts and indices", "src/ISEGD.cpp")],
 ["sanitizer reports", "exceptions leaving the API", "number of traces versus file size"])
prop("C20", "Readers and writers are independent of each other and usable from threads",
 "What a reader returns or a writer stores depends only on its own file, arguments and call history: using any number of other readers and writers at the same time, interleaved in one thread or concurrently from several threads (one object per thread), changes nothing and involves no data race; repeating the same calls gives the same result.",
 ["schedules", "histories"], "all interleavings of operations on distinct objects, in one or several threads",
 "Every test process uses one reader and at most one writer, single-threaded.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/ISEGD.cpp", "src/OSEGD.cpp", "src/CommonSEGY.cpp", "src/CommonSEGD.cpp"], [("per-object pimpl state; shared tables are only read", "src/*.cpp")],
 ["results of concurrent runs versus solo runs", "ThreadSanitizer reports"])
prop("C21", "Traces, trace headers and exceptions have value semantics",
 "Copying or assigning a trace or trace header gives an independent equal value; moving transfers the value and leaves the source assignable and destructible; self-assignment changes nothing; setting a header field changes that field only and get/keys reflect exactly the fields set; a copied or moved exception carries the same message, which contains the file, line and text it was created with.",
 ["histories", "inputs"], "all sequences of construct/copy/move/assign/set/get operations over several objects",
 "No test copies, moves or assigns traces, headers or exceptions on purpose.",
 ["src/Trace.cpp", "include/Trace.hpp", "src/Exception.cpp"], [("pimpl copy/move members", "src/Trace.cpp, src/Exception.cpp")], ["public accessors of all live objects after every step"])
prop("C22", "I/O failures are reported and contained, whenever they happen",
 "If any operating-system read, write, seek or open fails or a file ends early at any point, the operation in progress reports it with an exception derived from std::exception (a writer at the latest when the failing data is flushed by a later call); destroying readers and writers afterwards never terminates the process, corrupts memory or leaks, a short or interrupted read or write changes nothing, and a truncated file never yields a trace whose bytes were not in the file and is never taken for a complete one (an exception is thrown, or a SEG-D reader at the end of the file still has traces of the record outstanding).",
 ["fault_sequences", "crash_points"], "a failure at every individual I/O call of every workload; truncation of every workload file at every byte",
 "Only opening a missing file is tested.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/OSEGYRev2.cpp", "src/ISEGD.cpp", "src/OSEGD.cpp", "src/CommonSEGY.cpp", "src/CommonSEGD.cpp"], [("fstream exception masks", "src/CommonSEGY.cpp, src/CommonSEGD.cpp"), ("destructors", "src/OSEGYRev2.cpp")],
 ["exceptions, process termination, sanitizer reports, traces returned"])
prop("C23", "Descriptive names and default tables are total, distinct and truthful",
 "Every enumerated header field name has its own non-empty description text reachable without out-of-bounds access, the built-in trace header mappings (SEG-Y and the Sercel SEG-D extensions) are valid and follow the published layouts, and every SEG-Y trace header name in the default mapping has a description.",
 ["inputs"], "all enumerators of all header field enumerations; all entries of the built-in maps",
 "Tests print a few names of one file and never compare them.",
 ["src/CommonSEGY.cpp", "src/CommonSEGD.cpp", "include/CommonSEGD.hpp"], [("name_as_string tables", "src/CommonSEGY.cpp, src/CommonSEGD.cpp"), ("default_trace_header / sercel_* maps", "src/CommonSEGY.cpp, src/CommonSEGD.cpp")], ["returned strings and maps"])
prop("C24", "Reading never changes files and writing never rewrites finished traces",
 "Readers leave the file they read byte-for-byte unchanged whatever is called and however it ends; a writer replaces the file it is given, and once a trace has been accepted its bytes and everything stored before it (other than the binary file header) never change again, so the traces of a file are always exactly the accepted traces in acceptance order, even when it is inspected or abandoned part-way.",
 ["histories", "crash_points"], "all call sequences; inspection after every accepted trace",
 "Tests only look at a file after the writer has finished, and never at the input afterwards.",
 ["src/ISEGY.cpp", "src/OSEGY.cpp", "src/OSEGYRev2.cpp", "src/ISEGD.cpp", "src/OSEGD.cpp"], [("open modes", "src/CommonSEGY.cpp, src/CommonSEGD.cpp"), ("append-only write_trace", "src/OSEGY*.cpp")], ["file bytes before/after, at every step"])
prop("C25", "Using the library leaks nothing and iterating needs bounded memory",
 "Once a reader, writer, trace or exception is gone, whatever was done with it and however it ended (complete, abandoned part-way, refused at construction, broken by a damaged file), all memory and file descriptors it obtained are released; and while traces are read, looked up or written one by one the memory in use does not grow with the number of traces handled, apart from the sorted reader's index built when it is opened.",
 ["inputs", "histories"], "all lives of all objects; files of any number of traces",
 "Tests run each object once on one small file and never look at memory or descriptors.",
 ["src/ISEGY.cpp", "src/ISEGYSorted.cpp", "src/OSEGY.cpp", "src/ISEGD.cpp", "src/OSEGD.cpp", "src/Trace.cpp"], [("pimpl ownership", "src/*.cpp"), ("read_trace/write_trace buffers", "src/ISEGY.cpp, src/OSEGY*.cpp, src/ISEGD.cpp, src/OSEGD.cpp")], ["live blocks and bytes of operator new", "open descriptors"])
prop("C26", "SEG-D revision 3 records composed with the writer base class are standard and read back the same",
 "A writer derived from OSEGD that stores a revision 3 record with the building blocks of the base class (general headers 1, 2 and 3, additional general header blocks of every kind, channel set headers, trace headers with standard or mapped extensions, samples) stores every supplied value at its SEG-D revision 3 position and zero in every unassigned byte, each block once and in the order of block types, escape codes included, so that all of it reads back with the values given and copying a canonical revision 3 record reproduces it byte for byte.",
 ["inputs"], "all field values, block kinds and counts of revision 3 records",
 "No test writes anything of revision 3.",
 ["src/OSEGD.cpp", "src/CommonSEGD.cpp"], [("write_general_header2_and_3, write_rev3_add_gen_hdrs, write_ch_set_hdr, write_ext_trace_headers", "src/OSEGD.cpp")], ["bytes of the written file", "values read back"])
prop("C27", "Files that end early and unfinished writings yield their complete traces, then an error",
 "If a well-formed SEG-Y file without trailer stanzas or a SEG-D file is cut at any byte, iterating what is left returns exactly the traces that are completely present, in order and with the headers and samples stored, and then, unless the cut lies between two traces (SEG-Y) or two records (SEG-D), 'has trace' is true and reading on (header only or whole trace, and opening a SEG-Y file sorted) raises an exception: no data are invented and no complete trace is lost. At any moment of a writing the file on disk is a beginning of the finished file and hence readable in this way, so a crash of the writing program costs no trace that had reached the disk.",
 ["inputs", "crash points"], "all well-formed files, all cuts; all moments between two calls of a writer",
 "No test reads an incomplete file or looks at the file before the writer is closed.",
 ["src/ISEGY.cpp", "src/ISEGYSorted1D.cpp", "src/ISEGD.cpp", "src/OSEGY.cpp", "src/OSEGD.cpp"], [("fill_buf_from_file, file_skip_bytes, has_trace", "src/ISEGY.cpp"), ("read_trace, read_trace_samples, file_skip_bytes", "src/ISEGD.cpp")], ["traces and exceptions for every cut", "bytes of the file after every call of a writer"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
