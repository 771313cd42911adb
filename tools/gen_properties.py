#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PR = "src/mlio/parallel_data_reader.cc"
IR = "src/mlio/instance_readers/"
RR = "src/mlio/record_readers/"
ST = "src/mlio/streams/"
DS = "src/mlio/data_stores/"

prop("C01", "Examples arrive exactly once and in dataset order under any schedule",
     "Without shuffling and sampling, reading a data reader until it returns no example yields every instance of the dataset exactly once, in the order of the data stores and of the instances within each store, packed into examples of the batch size. This holds for every number of prefetched examples and parallel reads and for every relative timing of the source, the decoders and the consumer. Further reads keep returning no example until the reader is reset.",
     ["schedules", "configurations", "inputs"],
     "all thread timings; all batch sizes, prefetch depths, parallel read counts and datasets, for every data reader type",
     "The existing tests read a few small files with default prefetching; they never perturb the decoders, so a lost, duplicated or reordered batch needs luck to show.",
     [PR, "src/mlio/instance_batch_reader.cc", IR + "core_instance_reader.cc"],
     [("flow graph with a sequencer node", PR), ("fill/read queue swap", PR)],
     ["Data_reader::read_example"],
     [("read_queue_/fill_queue_", "prefetched examples", PR)],
     "delay points inside the pipeline (MLIO_VERIF)")
prop("C02", "Peek, read, schema and reset agree with a sequential model",
     "For every sequence of read_example, peek_example, read_schema and reset calls, the observable results equal those of a sequential reader over the same list of examples: a peek returns the next example without consuming it, read_schema neither consumes data nor changes between calls, and a reset at any moment starts the same sequence again from the first example. When shuffling is on with a fixed seed and reshuffle_each_epoch is off, every epoch is equal; when it is on, every epoch is a permutation of the same instances.",
     ["histories", "configurations", "schedules"],
     "all interleavings of the four calls, resets in the middle of an epoch included",
     "Tests call reset at most once after a full epoch; the space of call histories against in-flight prefetching is unbounded.",
     ["src/mlio/data_reader_base.cc", PR, IR + "instance_reader_base.cc", "src/mlio/csv_reader.cc"],
     [("peeked example slot", "src/mlio/data_reader_base.cc"), ("stop() and re-arm on reset", PR), ("peeked instance", IR + "instance_reader_base.cc")],
     ["Data_reader public methods"])
prop("C03", "No input bytes cause memory errors or undefined behavior",
     "For every byte sequence in a data store and every reader, record reader, stream and decoder configuration, reading either yields examples or raises an exception; it never reads or writes out of bounds, uses freed memory, divides by zero, overflows a signed integer, or aborts the process. The tensors that come out never claim more elements than their data arrays hold, and every COO index lies inside the shape.",
     ["inputs", "configurations"],
     "all byte sequences and parameter combinations; corrupt, truncated, adversarial and empty data",
     "Tests use a handful of well-formed files and are not run under sanitizers.",
     ["src/mlio/record_readers/detail/text_line.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/coo_tensor_builder.cc", "src/mlio/csv_record_tokenizer.cc", "src/mlio/tensor.cc", "src/mlio/streams/utf8_input_stream.cc"],
     [("bounds checks while splitting records", RR), ("shape validation", "src/mlio/recordio_protobuf_reader.cc")],
     ["sanitizer reports", "returned tensors"], None, "small buffer sizes (MLIO_VERIF)")
prop("C04", "Readers are free of data races",
     "Reading, peeking, resetting, querying num_bytes_read and destroying data readers while their background pipeline runs involves no data race between the caller, the background thread and the decoding tasks. The same holds for several readers that share data stores, for concurrent use of shared objects (reference counts, lazily computed values, the logger), and for a num_bytes_read call from another thread.",
     ["schedules"],
     "all interleavings of the consumer thread, the pipeline thread and the task pool",
     "No test runs under a race detector and races seldom change a result.",
     [PR, "src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", DS + "in_memory_store.cc", DS + "sagemaker_pipe.cc", "src/mlio/logger.cc"],
     [("mutex, condition variables and atomic run state", PR), ("atomic reference counter", "include/mlio/intrusive_ref_counter.h")],
     ["ThreadSanitizer reports"], None, "delay points and parallel cut-off (MLIO_VERIF)")
prop("C05", "Reads, resets and destruction always terminate",
     "A read, peek, reset or destruction of a data reader returns no matter at which point of the pipeline it happens: before the first read, with full or empty queues, while a decoder or the data store is slow or has failed, after an error, or repeatedly in a row. No schedule leaves the caller or the background thread waiting forever.",
     ["schedules", "histories", "fault_sequences"],
     "all moments of the stop relative to the progress of the pipeline; all call histories",
     "A lost wake-up needs a particular interleaving; the tests stop a reader only when it is idle.",
     [PR, IR + "core_instance_reader.cc", "src/mlio/instance.cc"],
     [("cancellation and notification in stop()", PR), ("wait predicates of the two condition variables", PR)],
     ["return of the calls, logical progress of the pipeline"], None, "pipeline points (MLIO_VERIF)")
prop("C06", "A read failure is never mistaken for the end of the data",
     "If opening or reading a data store fails, or its content is corrupt or truncated in a way its format can detect, the consumer gets an exception; it never sees a normal end of data with instances missing. The examples delivered before the exception are a prefix of the fault-free sequence with unchanged content. The error names the data store that failed, and is reported again by later reads until the reader is reset; after a reset with the fault gone the complete dataset is read.",
     ["fault_sequences", "inputs"],
     "all positions and kinds of I/O failures, for every reader",
     "Tests never inject an I/O error, and truncation at each offset is too large a space.",
     [PR, IR + "core_instance_reader.cc", "src/mlio/instance.cc", RR + "stream_record_reader.cc", ST + "gzip_inflate_stream.cc", RR + "recordio_record_reader.cc"],
     [("exception propagation out of the flow graph", PR), ("error wrapping", IR + "core_instance_reader.cc")],
     ["Data_reader::read_example"])
prop("C07", "CSV text splits into exactly the rows and fields of the grammar",
     "For every text, the rows and field values read with all columns as strings equal those of the documented grammar: rows end at LF, CR or CR LF, fields are separated by the delimiter, a field that starts with the quote character may contain delimiters, doubled quotes and, if allow_quoted_new_lines is set, line breaks. Comment lines and, if skip_blank_lines is set, blank lines are left out; other blank lines are rows. Writing any table with standard quoting and reading it back returns the same table.",
     ["inputs", "configurations"],
     "all texts over delimiters, quotes, line breaks and ordinary characters; all delimiter, quote, comment and quoting options",
     "Tests cover a dozen fixed files; the automaton and its chunk handling have many more input-dependent paths.",
     ["src/mlio/csv_record_tokenizer.cc", RR + "csv_record_reader.cc", RR + "detail/text_line.cc", RR + "text_record_reader.cc"],
     [("tokenizer automaton", "src/mlio/csv_record_tokenizer.cc"), ("row splitting automaton", RR + "csv_record_reader.cc")],
     ["string tensors of Csv_reader"], None, "chunk sizes (MLIO_VERIF)")
prop("C08", "Results do not depend on how the bytes are delivered",
     "The examples read from a dataset depend only on its bytes and the parameters, not on how the bytes arrive: memory mapped, read from a file, from memory, from a non-seekable stream, gzip compressed, in short reads of any size, or in chunks of any size yield equal examples, or fail alike.",
     ["inputs", "configurations", "schedules"],
     "all splits of the content into reads and chunks and all store kinds",
     "Tests always read whole small files in a single chunk, so record boundaries never meet chunk boundaries.",
     [RR + "detail/default_chunk_reader.cc", RR + "detail/in_memory_chunk_reader.cc", RR + "stream_record_reader.cc", RR + "csv_record_reader.cc", ST + "gzip_inflate_stream.cc", ST + "utf8_input_stream.cc", "src/mlio/instance.cc"],
     [("leftover handling between chunks", RR + "detail/default_chunk_reader.cc"), ("partial record retry", RR + "stream_record_reader.cc")],
     ["examples of all readers"], None, "chunk and buffer sizes (MLIO_VERIF)")
prop("C09", "Skip, limit, shards and sampling select exactly the specified instances",
     "num_instances_to_skip and num_instances_to_read select precisely the specified contiguous range of instances, clipped to the dataset. Applied to that range, the shards of a num_shards-way split are pairwise disjoint, together cover every instance, keep the order, and differ in size by at most one. Sampling keeps a subset in order whose size is the ratio of the size of the selection (within one instance, however low the ratio is), the same subset in each epoch; combinations select from what the previous stage lets through, and invalid settings raise an exception.",
     ["inputs", "configurations"],
     "all combinations of skip, read, shard and ratio settings, dataset sizes and splits into stores",
     "Tests check one setting at a time on one file.",
     [IR + "ranged_instance_reader.cc", IR + "sharded_instance_reader.cc", IR + "sampled_instance_reader.cc", IR + "instance_reader.cc"],
     [("reader chain", IR + "instance_reader.cc")],
     ["instance payloads in examples"])
prop("C10", "Shuffling is a seeded permutation bounded by its window",
     "With shuffling on, an epoch is a permutation of the selected instances: none is lost or repeated. With a window w > 1 the order is bounded: the k-th delivered instance is among the first k + w - 1 instances of the dataset, counting from one; a window of one keeps the order and a window of zero shuffles over the whole dataset. The same seed gives the same order; without reshuffle_each_epoch the order repeats after each reset, with it the order changes.",
     ["inputs", "configurations", "histories"],
     "all window sizes, seeds, dataset sizes and epochs",
     "The tests compare one shuffled order; a lost instance or a window violation depends on the draw.",
     [IR + "shuffled_instance_reader.cc"],
     [("shuffle buffer", IR + "shuffled_instance_reader.cc")],
     ["instance payloads in examples"])
prop("C11", "Batches have the requested size and the last one is handled as asked",
     "Every example but the last has exactly batch_size instances and no padding. A smaller last batch is delivered short, dropped, or padded to batch_size as last_example_handling says, with the padding field equal to the number of added rows, those rows zero or empty, and the shape of every tensor equal to the schema with the actual batch dimension. The warn variants behave like the plain ones and log a warning; a batch_size of zero raises an exception.",
     ["inputs", "configurations"],
     "all dataset sizes, batch sizes and handling modes, for every reader and tensor kind",
     "Tests cover one size per mode and only some readers.",
     ["src/mlio/instance_batch_reader.cc", "src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc", "src/mlio/text_line_reader.cc"],
     [("batch assembly", "src/mlio/instance_batch_reader.cc")],
     ["Example::padding, tensors, log messages"])
prop("C12", "Bad instances are handled exactly as requested",
     "The first instance of a dataset defines the schema and must be good; for any pattern of later bad instances, bad_example_handling alone decides the result: error raises an exception, skip leaves out precisely the examples that contain a bad instance, pad keeps the good instances of each example in order, stacked without gaps, followed by zero or empty rows that the padding field counts. The warn variants deliver the same data and log a warning. A good instance is never altered by a bad one, and serial and parallel decoding agree.",
     ["inputs", "configurations"],
     "all positions and kinds of bad instances (unparsable or missing fields, wrong shapes or types, corrupt messages or images), all modes and readers",
     "Tests have one bad row per mode; leftovers of a bad instance depend on where it fails.",
     ["src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc", "src/mlio/coo_tensor_builder.cc"],
     [("decode loops", "src/mlio/csv_reader.cc"), ("decode loops", "src/mlio/recordio_protobuf_reader.cc")],
     ["examples, padding, log messages"], None, "parallel cut-off (MLIO_VERIF)")
prop("C13", "CSV headers, names, column selection and type overrides are honored",
     "The schema of a CSV dataset and the columns of its examples follow the parameters: names come from column_names, from the header row at header_row_index (with name_prefix), or from the one-based positions; header rows, and the rows before them, never appear as data, in every store or only in the first one if has_single_header is set. Duplicate names become X, X_1, X_2 if dedupe_column_names is set and are an error otherwise; use_columns and use_columns_by_index drop all other columns without shifting values; column_types and column_types_by_index override data types and raise an exception for unknown columns.",
     ["inputs", "configurations", "histories"],
     "all combinations of the naming, header, selection and type parameters over any number of stores and epochs",
     "Tests exercise one parameter at a time, mostly with one store.",
     ["src/mlio/csv_reader.cc"],
     [("header handling", "src/mlio/csv_reader.cc"), ("schema construction", "src/mlio/csv_reader.cc")],
     ["Data_reader::read_schema", "examples"])
prop("C14", "Fields are parsed to the exact value of their data type",
     "A field of a numeric column is stored as the value its text denotes in the data type of the column: integers exactly and only if in range, floating-point numbers rounded to nearest, surrounding white space ignored, nan_values and nan stored as NaN, number_base honored. Everything else, out-of-range numbers included, makes the instance bad; it is never wrapped, truncated or stored as zero. Column types inferred from the first row are int64 for integers (uint64 beyond its range), float64 for other numbers and string otherwise, and max_field_length limits fields as max_field_length_handling says.",
     ["inputs", "configurations"],
     "all field texts and data types, in particular around the limits of each type",
     "Tests parse a few ordinary numbers.",
     ["src/mlio/parser.cc", "src/mlio/util/number.cc", "src/mlio/data_type.cc", "src/mlio/csv_reader.cc"],
     [("parsers per data type", "src/mlio/parser.cc"), ("number conversion", "src/mlio/util/number.cc")],
     ["make_parser, try_parse_int, try_parse_float, infer_data_type, Csv_reader tensors"])
prop("C15", "RecordIO-protobuf tensors carry exactly the encoded values",
     "For every dataset of valid records, each feature and (with the prefix label_) each label appears in the schema with its data type, shape and sparseness, and each instance's values appear in its row of the tensor: dense values in order, sparse values at the row-major coordinates that their keys denote, in both serial and parallel decoding. An instance whose features differ from the schema in name, number, type, sparseness or shape, or whose keys are out of range or do not match the values in number, is a bad instance and never changes another one.",
     ["inputs", "configurations"],
     "all feature sets, types, shapes, key sets and batch sizes",
     "Tests read four sample files with a single feature layout each.",
     ["src/mlio/recordio_protobuf_reader.cc", "src/mlio/coo_tensor_builder.cc"],
     [("dense copy and COO builder", "src/mlio/recordio_protobuf_reader.cc")],
     ["schema and tensors of Recordio_protobuf_reader"], None, "parallel cut-off (MLIO_VERIF)")
prop("C16", "RecordIO framing returns each payload and detects corruption",
     "For every sequence of payloads written in the RecordIO format, whole or split into begin, middle and end parts (even across data stores), each payload is returned once, byte for byte, in order. A wrong magic number, an unknown kind, a stream that ends inside a header, payload or split record, or parts out of order raise an exception instead of returning altered payloads.",
     ["inputs"],
     "all payload lengths, splits and single-fault corruptions",
     "Tests read a few intact files.",
     [RR + "recordio_record_reader.cc", RR + "detail/recordio_header.cc", RR + "stream_record_reader.cc", IR + "core_instance_reader.cc"],
     [("header decoding", RR + "detail/recordio_header.cc"), ("split record assembly", IR + "core_instance_reader.cc")],
     ["record readers and instances"])
prop("C17", "Text in any supported encoding is converted to UTF-8 without loss",
     "For every text, the content read equals its UTF-8 form whether the data is stored as UTF-8, UTF-16, UTF-32 (either byte order) or a named legacy encoding, with or without byte order mark, if the encoding is given or the mark is present. The mark itself never appears in the content, and only one at the very beginning is removed. Invalid or incomplete sequences in a converted encoding raise an exception, and neither the position of read boundaries nor the size of buffers matters.",
     ["inputs", "configurations"],
     "all texts, encodings, marks and splits into reads",
     "Tests have two fixed files.",
     [ST + "utf8_input_stream.cc", ST + "detail/iconv.cc", "src/mlio/text_encoding.cc", RR + "text_record_reader.cc"],
     [("iconv conversion loop", ST + "utf8_input_stream.cc"), ("preamble detection", ST + "utf8_input_stream.cc")],
     ["Utf8_input_stream, text and CSV readers"], None, "UTF-8 buffer size (MLIO_VERIF)")
prop("C18", "Gzip content is inflated completely and corruption is detected",
     "Reading a gzip compressed store yields exactly the original bytes for every compression level and strategy, any number of concatenated members (empty ones included) and any read sizes. Truncated data, wrong checksums or lengths and other invalid streams raise an exception and are never reported as a normal end. Compression is inferred from the file name suffix alone when it is to be inferred.",
     ["inputs", "configurations"],
     "all contents, member counts, compression settings, read sizes and truncation points",
     "Tests inflate one small file.",
     [ST + "gzip_inflate_stream.cc", ST + "detail/zlib.cc", DS + "detail/util.cc"],
     [("inflate loop with member restart", ST + "gzip_inflate_stream.cc")],
     ["streams of compressed stores"], None, "read-ahead size (MLIO_VERIF)")
prop("C19", "Text lines are delivered verbatim, one instance each",
     "The text line reader yields one string per line of the text, without its terminator (LF, CR or CR LF) and otherwise unchanged, for every text: empty lines, a last line without a terminator, very long lines and any split into stores included. The number of instances equals the number of lines.",
     ["inputs", "configurations"],
     "all texts, line terminators and splits into stores and chunks",
     "Tests read a handful of lines.",
     ["src/mlio/text_line_reader.cc", RR + "text_line_record_reader.cc", RR + "detail/text_line.cc", RR + "text_record_reader.cc"],
     [("line splitting", RR + "detail/text_line.cc")],
     ["string tensor of Text_line_reader"], None, "chunk sizes (MLIO_VERIF)")
prop("C20", "Images are decoded, resized and cropped as specified",
     "For every decodable image the uint8 row of its example equals the reference result: decoded to 1, 3 or 4 channels, its shorter edge resized to the resize value if given, its center cropped to the height and width of image_dimensions, channels in BGR order or, with to_rgb, RGB order with alpha kept, for plain image stores and for RecordIO framed images. Images that cannot be decoded, are too small or do not have the required format are bad instances.",
     ["inputs", "configurations"],
     "all image sizes, channel counts, encodings, resize values, crops and framings",
     "Tests use two fixed pictures.",
     ["src/mlio/image_reader.cc"],
     [("decode, resize, convert, crop", "src/mlio/image_reader.cc")],
     ["tensor of Image_reader"])
prop("C21", "Resources are released and delivered data outlives its reader",
     "Examples and tensors stay valid and unchanged after further reads, a reset or the destruction of their reader and stores. Once the last reference is gone, all memory, file descriptors, mappings, temporary files and threads are released, after normal use as well as after errors, early destruction and resets; while a reader is in use, what it holds does not grow with the data it has delivered. Child processes inherit none of the descriptors. A DLPack export shares the data with its tensor, keeps it alive until its deleter runs, and releases it exactly once.",
     ["histories", "fault_sequences", "configurations"],
     "all orders of dropping readers, examples, tensors, stores and exports, including after failures",
     "Leaks and dangling references are invisible to functional tests.",
     ["include/mlio/intrusive_ptr.h", "include/mlio/intrusive_ref_counter.h", "src/mlio/integ/dlpack.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/memory/file_backed_memory_block.cc", PR],
     [("intrusive reference counting", "include/mlio/intrusive_ptr.h"), ("DLPack manager context", "src/mlio/integ/dlpack.cc")],
     ["/proc/self/fd, /proc/self/maps, threads, leak sanitizer, tensors"])
prop("C22", "File listing is complete, filtered and naturally ordered",
     "list_files returns one store for each regular file given by a path or found recursively below it, and no other, whose name matches the pattern and passes the predicate. The given paths and the entries of each directory are listed in natural order (numbers compare by value), independent of the order of the directory entries, and memory mapping and compression options apply to all of them. A missing path raises an exception.",
     ["inputs", "configurations"],
     "all directory trees, name sets, patterns and options",
     "Tests list one flat directory.",
     [DS + "file_list.cc", "third-party/natsort/strnatcmp.c", "src/mlio/detail/path.cc"],
     [("fts traversal and natural sort", DS + "file_list.cc")],
     ["list_files"])
prop("C23", "Memory blocks, slices and allocators behave like byte arrays",
     "For every sequence of allocate, resize, slice, copy and write operations, memory blocks and slices hold exactly the bytes a plain byte array would: a resize keeps the common prefix, file-backed, heap, external and mapped blocks behave alike, slices share the bytes of their block and keep it alive, spans and their parts cover exactly the elements asked for, and out-of-range requests raise an exception.",
     ["histories", "inputs"],
     "all operation sequences and sizes, across the heap/file threshold",
     "Tests do not touch file-backed blocks or failing ranges.",
     ["src/mlio/memory/file_backed_memory_block.cc", "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/util.cc", "include/mlio/memory/memory_slice.h", "src/mlio/memory/file_backed_memory_allocator.cc"],
     [("resize", "src/mlio/memory/util.cc")],
     ["memory block and slice API"])
prop("C24", "All input streams obey one read, seek and close contract",
     "Every input stream returns the bytes of its source in order: a read returns between one and the requested number of bytes until the end and zero only there, position equals the number of bytes consumed, and seek to any position up to the size continues from there, while a seek behind the end of a file or a block of memory goes to the end. Zero-copy reads return the same bytes as copying reads and stay valid after the stream is closed, which gives up its source. A source that cannot be opened, operations on a closed stream and unsupported operations raise an exception instead of returning data.",
     ["histories", "inputs"],
     "all operation sequences over all stream types",
     "Tests check a few reads of file and memory streams.",
     [ST + "file_input_stream.cc", ST + "memory_input_stream.cc", ST + "gzip_inflate_stream.cc", ST + "utf8_input_stream.cc", ST + "input_stream_base.cc"],
     [("closed checks and position bookkeeping", ST)],
     ["Input_stream API"])
prop("C25", "SageMaker pipe channels deliver every epoch once, without loss",
     "A SageMaker pipe store reads the bytes of its FIFOs completely and in order whatever the writer's chunking and pauses, each opening takes the next FIFO number and a released channel can be opened again, while opening a channel that is in use raises an exception. A writer that stalls or does not show up for longer than the timeout raises an exception and never looks like the end of the data.",
     ["schedules", "histories", "fault_sequences"],
     "all writer timings, chunkings, epochs and concurrent openings",
     "There is no test for pipes at all.",
     [ST + "sagemaker_pipe_input_stream.cc", DS + "sagemaker_pipe.cc"],
     [("poll with timeout", ST + "sagemaker_pipe_input_stream.cc"), ("channel table", ST + "sagemaker_pipe_input_stream.cc")],
     ["streams opened from Sagemaker_pipe"])
prop("C26", "Dataset insights equal the statistics of the data",
     "For every string dataset, the column statistics of analyze_dataset equal those computed directly from the column: exact for the counts, lengths, minimum, maximum, example value and captured value frequencies, within rounding for the averages, and within the estimator's error for cardinalities. They do not depend on the batch size, and missing values, columns without numbers and non-ASCII text are included.",
     ["inputs", "configurations"],
     "all column contents and batch sizes",
     "The insights package has no tests.",
     ["src/mlio-py/mlio/contrib/insights/column_analyzer.cc", "src/mlio-py/mlio/contrib/insights/module.cc", "src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc", "src/mlio-py/mlio/contrib/insights/column_statistics.h"],
     [("per-batch accumulation", "src/mlio-py/mlio/contrib/insights/column_analyzer.cc")],
     ["analyze_dataset"])
prop("C27", "The Python layer mirrors the C++ data faithfully and safely",
     "Through the Python API, readers, schemas, examples and tensors show the same values, shapes, strides, data types and order as the dataset, tensors convert to NumPy, pandas, SciPy and DLPack and back, and to what TensorFlow, PyTorch and MXNet are given, without changing a value for every data type and memory layout, views share memory and keep their owner alive, and Python objects (buffers, stores, streams, log handlers) can be used where C++ ones can. Errors arrive as Python exceptions of the documented types; no Python-level misuse of objects, each used by one thread at a time, crashes or hangs the interpreter.",
     ["inputs", "configurations", "histories"],
     "all dtypes, shapes, layouts, lifetimes and call sequences through the bindings",
     "Tests convert a few float arrays.",
     ["src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_device_array.cc", "src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/stream.cc", "src/mlio-py/mlio/core/memory.cc", "src/mlio-py/mlio/integ/numpy.py", "src/mlio-py/mlio/integ/scipy.py", "src/mlio-py/mlio/integ/pandas.py"],
     [("buffer protocol bindings", "src/mlio-py/mlio/core"), ("GIL handling", "src/mlio-py/mlio/core/data_reader.cc")],
     ["mlio Python package"])
prop("C28", "Read-ahead is bounded by the prefetch parameters",
     "The number of instances taken from the dataset ahead of the consumer never exceeds twice num_prefetched_examples plus num_parallel_reads plus a small constant, in batches, for every timing, however slow the consumer is. The number of batches decoded at the same time never exceeds num_parallel_reads (or num_prefetched_examples, if smaller or the former is zero). Reading ahead does take place: with a paused consumer the reader fills its prefetch buffer.",
     ["schedules", "configurations"],
     "all consumer and producer timings and prefetch settings",
     "No test observes the background progress.",
     [PR],
     [("limiter node and bounded queue", PR)],
     ["reads of an instrumented data store against examples consumed, decode concurrency"], None, "pipeline points (MLIO_VERIF)")
prop("C29", "num_bytes_read counts the payload of the instances that were read",
     "After a dataset has been read to its end, num_bytes_read equals the sum of the sizes of all instances that were delivered in examples (those that padding replaced included), for every reader, prefetch setting and schedule. During the epoch it never decreases and never is less than the size of what has been delivered, and a reset sets it to zero.",
     ["schedules", "inputs", "histories"],
     "all datasets, timings and epochs",
     "Tests look at the value once for one file.",
     [PR, "include/mlio/instance_batch.h", "src/mlio/instance_batch.cc"],
     [("atomic byte counter", PR)],
     ["Data_reader::num_bytes_read"])
prop("C30", "Value types compare, hash and validate consistently",
     "Equality of schemas, attributes, devices and data stores is an equivalence that reflects their observable fields, equal values have equal hashes, and lookups by name return the right index. A tensor, schema or example can only be constructed if its parts fit together (strides, data size, coordinates, index pointers, attribute and feature counts, unique names); otherwise an exception is raised, and valid combinations, empty and scalar ones included, are accepted with default strides in row-major order. A visitor passed to a tensor reaches exactly the handler of its kind and constness, falls back to the general handler, and is refused if there is neither.",
     ["inputs"],
     "all shapes, strides, sizes, names and field combinations",
     "Tests construct a couple of valid tensors.",
     ["src/mlio/schema.cc", "src/mlio/tensor.cc", "src/mlio/example.cc", "src/mlio/device.cc", "include/mlio/util/hash.h"],
     [("constructor validation", "src/mlio/tensor.cc")],
     ["constructors, operator==, std::hash, Tensor::accept"])
prop("C31", "Parquet files are passed on as complete, intact blobs",
     "The Parquet record reader returns each Parquet file of a stream of one or more concatenated files as one record with exactly its bytes. Data that does not start or end with the format's magic numbers, or ends early, raises an exception rather than yielding a shortened record.",
     ["inputs"],
     "all contents, concatenations, chunkings and truncations",
     "There are no tests for it in C++.",
     [RR + "parquet_record_reader.cc", RR + "stream_record_reader.cc"],
     [("magic number and footer checks", RR + "parquet_record_reader.cc")],
     ["Parquet_record_reader::read_record"], None, "chunk sizes (MLIO_VERIF)")
prop("C32", "S3 objects are listed and read like local files",
     "list_s3_objects returns one store for each object whose key starts with the prefix of a given URI, whose URI matches the pattern and passes the predicate, in natural order, however many pages "
     "the service delivers. Reading an object (of the given version, inflated if it is compressed) yields exactly its bytes whatever the sizes of the reads and the ranged requests, and seeks work. "
     "A request that the service rejects raises an exception in the operation that made it and never looks like an empty listing or the end of the data. "
     "Any number of clients can be made; they use the given credentials or the default ones, and the given region, profile and scheme.",
     ["inputs", "fault_sequences"],
     "all buckets, keys, page sizes, prefixes, object sizes, reads and service failures",
     "S3 is not part of the build here and no test reads from it; pages, ranged reads and service errors can combine in any way.",
     ["src/mlio/s3_client.cc", ST + "s3_input_stream.cc", DS + "s3_object.cc"],
     [("pages, ranges and errors", "src/mlio/s3_client.cc"), ("ranged reads", ST + "s3_input_stream.cc"), ("listing", DS + "s3_object.cc")],
     ["S3_object, list_s3_objects", "S3_client, make_s3_client"])
prop("C33", "Data opened as Arrow files reads like its bytes",
     "A seekable stream that is opened as an Apache Arrow file reads like the bytes of the stream: both forms of Read return the next bytes, Seek, Tell and GetSize agree with them, and buffers stay intact after the file is gone. "
     "Operations of a closed file fail with status Invalid. A failure of the stream becomes an error status of the operation that met it (out of memory, invalid, I/O error, not implemented or unknown, after the type of the exception); it neither escapes as an exception nor looks like a result. "
     "A stream that cannot seek is rejected.",
     ["inputs", "fault_sequences"],
     "all contents, streams, operation sequences and failures of the stream",
     "The Arrow integration is not built here and has no C++ tests; sequences of operations and failures at any moment are not sampled.",
     ["src/mlio-py/mlio/integ/arrow/arrow_file.cc", "src/mlio-py/mlio/integ/arrow/arrow_buffer.cc", "src/mlio-py/mlio/integ/arrow/arrow_util.h"],
     [("file operations", "src/mlio-py/mlio/integ/arrow/arrow_file.cc"), ("failures become statuses", "src/mlio-py/mlio/integ/arrow/arrow_util.h")],
     ["as_arrow_file"])

prop("C34", "Log messages reach the registered handler once and name their subject",
     "A message whose level is enabled is handed exactly once, complete and verbatim whatever names it contains, to the handler that is registered when it is logged, on whatever thread; a message whose level is not enabled, or one without a handler, goes nowhere. "
     "Setting a handler returns the former one, takes effect for everything that is logged afterwards, releases the former one once it is no longer in use, and is safe while other threads log. "
     "A handler that throws, is slow, replaces itself or uses the library disturbs no reader. "
     "With warn_bad_instances each bad instance that is met is named by one warning with its data store and its number in that store (from 0); the warnings about skipped and padded examples name the number of the example (and of the bad instances), "
     "the one about the incomplete last example names its size and the batch size. The exception about a bad instance names its data store and number, too. Of a CSV row they tell the column and the value that cannot be parsed or is too long (cut off at 64 characters), or the number of columns it has and the expected one.",
     ["inputs", "schedules"],
     "all sequences of handlers and levels, all interleavings of logging threads and replacements, all positions of bad instances, all names of data stores",
     "Tests set no handlers while other threads log, and look at no messages.",
     ["src/mlio/logger.cc", "src/mlio/logger.h", "include/mlio/logging.h", "src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc", "src/mlio/instance_batch_reader.cc"],
     [("dispatch of the messages", "src/mlio/logger.cc"), ("warnings about bad instances", "src/mlio/csv_reader.cc")],
     ["set_log_message_handler", "set_log_level", "Data_reader::read_example"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
