import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if hook: a["hook_needed"]=hook
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="orc/reader.go";W="orc/writer.go";S="orc/stripe.go"
p("C01","Rows written to a file are the rows read back",
 "Every row accepted by a writer, for any supported schema of (nested) structs of primitive columns, any supported column encoding and any writer options, is returned by a reader of the closed file exactly once, in the order written and with every value equal to the one written. Nothing is lost, repeated, moved to another row or column, or altered, whatever the number of rows, stripes, strides or compression chunks.",
 ["inputs","configurations"],"all schemas of supported types x encodings x batches of values x compression, chunk size, stripe size, index and stride options",
 "The existing tests write one or two columns of a few hand-made values with one set of options; value patterns decide which run encoding, chunk and stripe boundary is taken, and the combinations are unbounded.",
 [W,R,S,"orc/column/int.go","orc/column/string.go","orc/column/time.go","orc/column/decimal.go","orc/column/float.go","orc/column/binary.go","orc/column/bool.go","orc/column/byte.go","orc/column/struct.go","orc/encoding/int.go","orc/stream/writer.go","orc/stream/reader.go"],
 [("rows buffered by column and flushed by stripe",S+" stripeWriter.write/flushOut"),("streams encoded and compressed by chunk","orc/stream/writer.go Write/Flush"),("columns decoded into vectors","orc/column/*.go NextBatch")],
 ["Writer.Write/Close","BatchReader.Next"])
p("C02","Reading in batches of any size delivers every row once and ends at the end",
 "Reading a file with batch vectors of any capacity delivers at least one and at most the capacity of rows by each call until all are delivered, the rows of all the calls together are those of the file in order, and their number is the number of rows the reader reports. The end indication is given with the last row and at no row before, and every later call delivers no rows and indicates the end again.",
 ["inputs","configurations","histories"],"all files (rows, stripes, any stripe without rows) x all batch capacities, the same or changing from call to call, the vector reused or new",
 "Tests read one file with one batch size; the interplay of capacity, stripe boundaries and the last row is a product no sample covers.",
 [R,S,"orc/api/vector.go"],[("cursor over stripes",R+" batchReader.Next"),("rows of a call limited by capacity and stripe",S+" prepareVector")],["BatchReader.Next"])
p("C03","Nulls stay where they were written",
 "A column value is read as null exactly if it, or a struct it is in, was written as null, at any nesting depth and for every column type; the values around nulls stay with their rows. A null does not leak into a later row, batch, stripe or reuse of the same vector, and a column declared nullable that has no nulls reads as without any.",
 ["inputs","configurations","histories"],"all null patterns (none, all, runs around multiples of 8, random, per stripe) x nested nullable structs x types x vector reuse",
 "Tests have one nullable column or one nullable struct of fixed pattern; presence bits pack by 8 and by parent, so errors show only at some lengths, alignments and parent patterns.",
 ["orc/column/struct.go","orc/column/writer.go",S,"orc/encoding/bool.go","orc/stream/bool.go"],[("presence stream has a bit per row whose parent is not null","orc/column/writer.go writePresent"),("nulls cleared in a reused vector",S+" clearNulls"),("nulls of parents given to children","orc/column/struct.go fillNulls")],["BatchReader.Next"])
p("C04","Integer run-length encoding is lossless",
 "Any sequence of 64 bit signed or unsigned integers encoded as ORC run-length version 2, in any division by flushes, decodes to the same sequence, by this library and by an independent decoder of the format. All of the widths, run kinds (repeat, direct, patched base, delta) and run lengths are covered by it, the extreme values included.",
 ["inputs"],"all integer sequences: lengths over several runs of 512, constants, monotonic, fixed delta, outliers with gaps, all bit widths, extremes of 64 bits, and flush points",
 "Tests sample a few sequences per run kind, and none at most widths, gaps or extremes where headers and widths change.",
 ["orc/encoding/int.go","orc/encoding/package.go"],[("choice and writing of runs","orc/encoding/int.go intRunLengthV2"),("reading of runs","orc/encoding/int.go DecodeInt/DecodeUInt")],["encoding.NewIntRLV2, Encode, Flush, NewIntRLV2Decoder"])
p("C05","Byte, boolean, float, string and varint encodings are lossless",
 "Any sequence of bytes, booleans, 32 and 64 bit floats, byte strings or 64 bit varints, in any division by flushes, decodes to the same sequence, by this library and by an independent decoder of the format. Floats keep their bits, NaN, infinities and negative zero included, and no value is taken from bits left by a flush before.",
 ["inputs"],"all sequences of values around run limits (3, 127, 128, 130), lengths not multiple of 8, special floats, empty and long strings, and flush points",
 "Tests sample single short sequences; run limits and padding only show at some lengths.",
 ["orc/encoding/byte.go","orc/encoding/bool.go","orc/encoding/float.go","orc/encoding/string.go","orc/encoding/package.go","orc/stream/byte.go","orc/stream/bool.go"],[("byte runs","orc/encoding/byte.go"),("bits in byte runs","orc/encoding/bool.go"),("varints","orc/encoding/package.go")],["encoding encoders and decoders"])
p("C06","Compressed data is framed in chunks that restore exactly",
 "Any data compressed with any chunk size becomes a sequence of chunks with correct 3 byte headers, each of at most the chunk size stored and restored, kept as original when compression would make it longer, and its decompression (by this library and by an independent inflater) is exactly the data. This holds in one go and for data compressed piecewise while it is produced, and an incomplete chunk is an error, not shorter data.",
 ["inputs","configurations"],"all byte strings x chunk sizes from 1 byte to the 23 bit limit x division of data in pieces x truncations",
 "One test compresses one string of one chunk.",
 ["orc/common/misc.go","orc/stream/writer.go","orc/stream/reader.go"],[("chunking","orc/common/misc.go zlibCompressingToChunks/zlibCompressingLeft"),("chunk headers","orc/common/misc.go encChunkHeader/DecChunkHeader")],["common.CompressingChunks/CompressingAllInChunks/DecompressChunks"])
p("C07","Written files are read the same by an independent ORC reader",
 "Every file closed without error is an ORC file by the format specification: an independent decoder that follows only the specification, and trusts only the file's own metadata, finds the schema, rows and values which were written. It does so for all types, encodings, compressions and options the writer accepts, and finds no stream with missing or left over data.",
 ["inputs","configurations"],"all schemas, batches and options as of C01",
 "Tests read back with the same library, so an error made alike by writer and reader is never seen.",
 [W,S,"orc/column/string.go","orc/column/time.go","orc/column/decimal.go","orc/encoding/int.go","orc/stream/writer.go","orc/common/misc.go"],[("stripe footer with streams and encodings",S+" writeFooter"),("file tail",W+" writeFileTail"),("streams of a column","orc/column GetStreamInfos/WriteOut")],["bytes of the file"])
p("C08","Files of other writers are read as the specification says",
 "A file that follows the ORC specification, made by an independent writer, is read with exactly its rows and values for all supported types, lists and maps included, whichever legal choices its writer made. Those are the kinds and widths of runs, omitted or present optional streams, index and bloom filter streams, dictionaries, differing encodings by stripe, original or compressed chunks, and large footers.",
 ["inputs","configurations"],"all schemas (nested lists, maps and structs too) x rows x legal encoder choices of an independent writer, and the sample files of the Java implementation",
 "Tests read fixed sample files and mostly compare a few values of their first rows; writers have free choices the samples do not make.",
 [R,S,"orc/column/list.go","orc/column/map.go","orc/column/string.go","orc/encoding/int.go","orc/stream/reader.go"],[("streams located by stripe footer",S+" stripeReader.init"),("tail reading",R+" extractFileTail"),("elements of lists and maps","orc/column/reader.go readElements")],["Reader, BatchReader.Next"])
p("C09","File structure is consistent: offsets, lengths and counts agree",
 "In every closed file stripes follow each other from the header on, each one's index, data and footer lengths tile it exactly, the streams of its footer add up to its index and data lengths, and footer and postscript lengths tile the rest of file. Rows of stripes add up to the file's number of rows and the rows written, content length is the sum of stripes, and every column has its encoding, type and statistics in place.",
 ["inputs","configurations"],"all schemas, batches and options as of C01, from no rows to many stripes",
 "Tests check no byte layout; readers of the same library tolerate wrong totals.",
 [W,S],[("stripe lengths and offsets",S+" flushOut/forward"),("footer totals",W+" writeFileTail")],["bytes of the file"])
p("C10","Column statistics tell the truth about the rows",
 "For every column the statistics in the file footer, and with index those of each stride's entry, are those of the non-null values of its rows: the count of values, minimum, maximum, sum or count of true, and has-null is never false where a null exists. Bounds hold for every value, so a reader may skip by them; a statistic which cannot be told exactly, like an overflown sum, is absent rather than wrong.",
 ["inputs","configurations"],"all value sequences (all negative, extremes, overflowing sums, NaN, long strings, decimals of mixed scale, dates and times before 1970) x null patterns x stripes and strides",
 "Tests assert no statistics besides one count; the first value, negative-only, overflow and per-stride cases need many inputs.",
 ["orc/column/stats.go","orc/column/writer.go","orc/column/int.go","orc/column/string.go","orc/column/time.go","orc/column/float.go","orc/column/decimal.go","orc/column/bool.go","orc/column/byte.go","orc/column/binary.go"],[("statistics updated by each value","orc/column Write methods"),("statistics of a stride","orc/column/writer.go newStats/endStride")],["Reader.GetStatistics","bytes of the file"])
p("C11","After any history of seeks and reads the next rows are the right ones",
 "After a seek to row n the following reads deliver exactly the rows from n on, whatever was sought or read before, with index or without, within and over stripes and strides, and for every type. A refused seek, and other batch readers used on the same file in between, do not change what is delivered.",
 ["histories","inputs","configurations"],"all interleavings of seeks and reads, of one or more batch readers, on files with all layouts (stripes, strides, compression, present streams or none)",
 "Tests seek once or twice in fixed files; errors depend on the position in runs, chunks and strides and on what was read before.",
 [R,S,"orc/column/reader.go","orc/column/int.go","orc/column/string.go","orc/column/time.go","orc/column/list.go","orc/column/map.go","orc/stream/int.go","orc/stream/bool.go","orc/stream/byte.go","orc/stream/reader.go"],[("row located by stripe and stride",R+" seek, "+S+" Seek"),("positions of stride","orc/column SeekStride"),("values skipped","orc/column Skip")],["BatchReader.Seek/Next"])
p("C12","Reading some of the columns gives the same values as reading all",
 "For every set of included columns which is a tree from the root, reading delivers for each included column the same values and nulls as reading all the columns does, in vectors of just those columns, and seeks work alike. Sets that are not such a tree, or name columns that do not exist, are refused with an error.",
 ["inputs","configurations"],"all subsets of columns of nested schemas (structs, lists, maps) x files x batch sizes and seeks",
 "Tests include all columns or one fixed subset.",
 [R,S,"orc/api/type.go","orc/column/struct.go"],[("readers created for included columns",S+" init"),("vectors of included columns","orc/api/type.go CreateVector"),("validation of includes",R+" checkIncludes")],["Reader.CreateBatchReader, BatchReader.Next"])
p("C13","Damaged files give errors, never a crash, hang or memory exhaustion",
 "Opening, reading and seeking in a file which was truncated, had any bytes changed, or has any contents in its metadata or data, terminates with rows or with an error. It never panics, never runs forever and never allocates memory out of proportion to the file and the rows asked for (a chunk of data over the chunk size is an error).",
 ["inputs","fault_sequences"],"all truncations, byte changes, and changes of fields of postscript, footer, stripe footer, index and data (re-framed so that they are reached) of files with all types and options",
 "Tests read well-formed files only.",
 [R,S,"orc/column/reader.go","orc/stream/reader.go","orc/encoding/int.go","orc/common/misc.go"],[("validation of tail, types and stripes",R+" extractFileTail/checkTypes/checkStripes"),("validation of streams",S+" init"),("bounds in decoding","orc/encoding, orc/stream")],["Reader, BatchReader"],"reader on an in-memory file")
p("C14","Input and output failures are reported and never become wrong data",
 "If any operation on the underlying file fails while writing, some call of the writer, at the latest closing it, returns an error, and never does closing succeed on a file that is not complete. If any operation fails while opening, seeking or reading, that call returns an error, or has all the same done what was asked of it, and no call delivers wrong rows afterwards; what is delivered then is an error or the right rows, and when operations succeed again, so do seeking, reading after it and creating another batch reader.",
 ["fault_sequences","inputs","configurations"],"every single call on the file as the failing one (write, short write, read, seek, clone, size, close; failing once or from then on) x files and options",
 "Tests use working files and an in-memory mock; no error is ever injected.",
 [W,R,S,"orc/stream/reader.go","orc/column/reader.go","orc/io/file.go"],[("errors returned by every layer",W+" Write/Close, "+R+" Next/Seek"),("reading refused after an error until sought",R+" batchReader.err")],["Writer.Write/Close, NewOSFileReader, BatchReader.Next/Seek"],"reader and writer opened on a failing file")
p("C15","Independent readers and writers can be used at the same time",
 "Any number of goroutines that each use a writer, or a reader with its batch readers, of their own, without sharing them, work without data races, and each one's files and rows are the same as if it had run alone. Batch readers of one reader, once they are made, can be used by a goroutine each in the same way, as the others may seek and end as they like. Schemas, options and vectors which are not shared are not affected by those of other goroutines.",
 ["schedules","inputs"],"schedules of concurrent writers and readers with different schemas, options and files, under the race detector",
 "Tests are sequential and package level state is only visible when uses overlap.",
 [W,R,"orc/api/type.go","orc/encoding/int.go","orc/common/misc.go","orc/column/package.go"],[("no shared mutable package state","orc/api/type.go Flat/SetId"),("files cloned by stream","orc/column/reader.go openStream")],["Writer, Reader, race detector reports"])
p("C16","Dates, timestamps and decimals convert exactly",
 "Conversions of dates to and from days, of times to and from timestamps in any location, of timestamps to milliseconds, of nanoseconds to and from their packed form, and of decimals to text and float agree with exact calendar and decimal arithmetic, over the whole range of each. Conversions there and back give the same value, before 1970 and across daylight saving changes and leap years too.",
 ["inputs"],"all days of 32 bits, all nanoseconds, instants from year 1 to 9999 in all locations, all 64 bit decimals of all scales",
 "Tests convert a handful of recent dates in UTC.",
 ["orc/api/vector.go"],[("days by floor","orc/api/vector.go ToDays/FromDays"),("base of 2015 in location","orc/api/vector.go GetTimestamp/Time"),("packed nanoseconds","orc/api/vector.go EncodingTimestampNanos/DecodingTimestampNanos")],["api functions"])
p("C17","Files opened are closed",
 "After a reader and its batch readers, or a writer, are closed, and after opening or creating any of them has failed, no file descriptor or other file handle opened by them remains open, and none was closed twice or used after it was closed.",
 ["histories","fault_sequences","inputs"],"all lifecycles: complete, partial reads, seeks, several batch readers, failures at each file operation, damaged files",
 "Tests do not count open files and never fail in opening.",
 [R,W,S,"orc/column/reader.go","orc/stream/reader.go","orc/io/file.go"],[("streams own a cloned file and close it","orc/column/reader.go openStream, orc/stream/reader.go Close"),("closing on failed opening",R+" CreateBatchReader, "+S+" newStripeReader")],["/proc/self/fd","File.Clone/Close"],"reader and writer on a counting file")
p("C18","The schema of a file is the one written",
 "The schema read from a file has the same tree as the one it was written with: the kinds, the names and order of fields at every level, and ids numbered in pre-order; a column declared without nulls is so when read. Files whose schema is not a proper tree are refused.",
 ["inputs"],"all trees of supported types, with any field names (empty, long, non ASCII, repeated)",
 "Tests round trip two fixed schemas.",
 ["orc/api/type.go",R,W],[("types in footer","orc/api/type.go SchemasToTypes"),("schema from types",R+" unmarshallSchema/checkTypes")],["Reader.GetSchema","bytes of the file"])
p("C19","A file depends only on its rows, schema and options",
 "Writing the same rows with the same schema and options gives the same bytes, however the rows are divided into batches, whichever vectors (new or reused) carry them, how many times it is repeated, and which process does it, in which local time zone, environment and level of logs. Different compression, chunk, stripe, stride and string encoding options change the layout but neither the rows nor the footer's counts, minimums, maximums and sums.",
 ["inputs","configurations","histories"],"all rows x divisions into batches (empty batches, single rows, all at once) x pairs of options",
 "Tests write in one or two batches and compare no bytes.",
 [W,S,"orc/column/writer.go","orc/column/string.go"],[("stripe decided by row, not by batch",S+" write"),("state kept in column writers","orc/column/writer.go")],["bytes of the file"])
p("C20","Decoders survive any bytes",
 "Decoding any bytes as any of the run-length, varint, string or float encodings or as compressed chunks ends with values or an error. It never panics, never loops without consuming input, and never returns more values than the bytes can hold by the format.",
 ["inputs"],"all byte strings up to some hundreds of bytes, random, mutated from valid runs, and all short ones exhaustively",
 "Tests decode valid runs only.",
 ["orc/encoding/int.go","orc/encoding/byte.go","orc/encoding/bool.go","orc/encoding/package.go","orc/encoding/string.go","orc/common/misc.go"],[("header and bounds checks","orc/encoding/int.go"),("chunk checks","orc/common/misc.go DecompressChunks")],["encoding decoders, common.DecompressChunks"])
p("C21","Row index positions lead to the first row of their stride",
 "In a file written with row index, every column has one entry for each stride of rows of each stripe, and the positions of an entry, followed as the specification says in that column's streams, lead exactly to the values of the first row of the stride. Without the option no index is written, and either way the rows are the same.",
 ["inputs","configurations"],"all schemas, values, null patterns and options with index, strides from one row to more than the stripe",
 "Tests check one index of an int column by the internal structure; positions depend on how runs, bits and chunks straddle the stride.",
 ["orc/column/writer.go","orc/stream/writer.go","orc/encoding/int.go","orc/encoding/byte.go","orc/encoding/bool.go",S],[("positions marked before first row of a stride","orc/column/writer.go startRow"),("positions of stream and encoder","orc/stream/writer.go GetPosition"),("index streams",S+" flushOut")],["bytes of the file"])
p("C22","Values and vectors belong to the caller",
 "Values delivered by a read stay the same after further reads, seeks and closing if the caller kept copies of the value records, and changing the bytes of one value changes no other; a batch given to the writer can be changed or reused by the caller as soon as the call returns without effect on the file, and the writer does not change it. Schemas and options given are not changed by use.",
 ["histories","inputs"],"all types (strings and byte arrays above all) x retained values across batches, stripes, seeks; batches overwritten right after each write",
 "Tests compare values right after reading them and never reuse a batch.",
 ["orc/column/string.go","orc/column/binary.go","orc/encoding/string.go","orc/encoding/int.go",R,W],[("values copied from stream buffers","orc/stream/string.go, orc/encoding/string.go"),("values encoded at write or copied","orc/column Write methods")],["Writer.Write, BatchReader.Next"])
p("C23","What cannot be stored is refused as a whole",
 "A batch that does not fit the schema (missing or extra columns, wrong kinds or value types, columns of different length, nulls in a column without nulls), values the format cannot hold (a date over 32 bits of days, nanoseconds of a second or more), and a schema or options the format cannot hold, are refused with an error and no panic. A refused batch leaves no trace: batches written before and after it are in the file as if it had never been given.",
 ["inputs","histories","configurations"],"all single deviations of a batch (at any column and row) x position of it in a sequence of valid batches, and invalid schemas and options",
 "Tests give valid batches only.",
 [W,"orc/config/opts.go","orc/api/type.go"],[("batch checked before any of it is written",W+" CheckBatch"),("schema and options checked on creation",W+" newWriter, orc/config/opts.go CheckWriterOptions")],["Writer.Write, NewOSFileWriter"])
p("C24","Stripes are cut at the configured size",
 "Rows are collected in memory until the encoded data of the stripe reaches the configured stripe size, then written out; so the data of no stripe of a file is longer than that size by more than a row and what encoders and chunks still held, and every stripe but the last has, uncompressed and with its chunk headers, reached it. Nothing is written to the file for a stripe before it is complete, and a file of fewer bytes than the stripe size has at most one stripe.",
 ["inputs","configurations"],"all schemas, values and stripe sizes from one byte to more than the data, both compressions",
 "Tests use the default size, which no test data reaches, or one small one.",
 [S,"orc/stream/writer.go","orc/column/string.go"],[("size of the columns' streams compared by row",S+" write/size"),("stream sizes","orc/stream/writer.go Size")],["bytes of the file","Writer.Write"],"writer on a recording file")
p("C25","Wrong calls are refused without harm, and unusual right ones work",
 "A call of Next with no vector, a vector of other columns or kinds, with missing or additional children, or without room for rows, a row size which is not positive, writing after closing and seeking over the last row are refused with an error, never a panic or rows, and closing again does no harm. After refused calls reading with a right vector continues with the row which was next, to all rows, and a closed file stays as it is. Vectors the caller made itself and options changed after a reader was created from them make no difference to what is read.",
 ["histories","inputs","configurations"],"all single deviations of a vector x positions in a history of reads and seeks; vectors of any lengths and capacities; calls after closing; options changed or used again for other batch readers",
 "Tests only make right calls, with vectors of CreateVector, once.",
 [R,"orc/api/type.go","orc/api/vector.go",S,W],[("vector checked before it is read into",R+" Next/checkBatch"),("options copied",R+" CreateBatchReader"),("vectors made","orc/api/type.go CreateVector")],["BatchReader.Next/Seek/Close","TypeDescription.CreateVector","Reader.CreateBatchReader","Writer.Write/Close"])
p("C26","Only what is needed is read of a file",
 "Opening a file reads only its end. A batch reader reads, besides footers and row indexes, no streams but those of the columns it includes, each byte of them at most once in reading from the first row to the last, and as rows are asked for: nothing of a later stripe, and in a stripe with a row index not much over the chunks of the rows' strides (runs and a chunk ahead). After a seek in a stripe with a row index, nothing before the stride of the row is read, but for dictionaries and the elements of lists and maps.",
 ["histories","inputs","configurations"],"random files with and without row index and compression, column sets and histories of reads and seeks",
 "Results are the same when all columns, all stripes or all rows before are read too, so tests of results can't tell; what a column format and its index are for is lost all the same.",
 [R,S,"orc/stream/reader.go","orc/column/reader.go"],[("tail read",R+" extractFileTail"),("streams of included columns",S+" stripeReader init"),("positions used","orc/column getStridePositions, SeekStride"),("chunks read as needed","orc/stream/reader.go readAChunk/seek")],["NewOSFileReader","Reader.CreateBatchReader","BatchReader.Next/Seek"])
p("C27","Memory does not grow with the file",
 "The memory in use while a file is written is in proportion to a stripe and a batch, and while it is read to the chunks, dictionaries and batch in use, however many rows the file or a stripe has. Seeking any number of times, and making, using and closing any number of batch readers, leaves no memory or goroutines behind.",
 ["histories","inputs","configurations"],"files of many stripes and of one long stripe, hundreds of seeks and batch readers",
 "Tests write and read little, where everything fits in memory and nothing accumulates.",
 [W,S,R,"orc/stream/reader.go","orc/stream/writer.go"],[("stripe forgotten when written",S+" stripeWriter forward, column writers' Reset"),("chunks taken from buffer","orc/stream/reader.go")],["Writer.Write","BatchReader.Next/Seek","Reader.CreateBatchReader"])
p("C28","Ids and vectors made of a schema fit it",
 "For every schema tree, NormalizeSchema numbers its types in pre-order whatever ids they had, and Flat lists them in this order or refuses a tree not numbered. CreateVector makes, for any set of included columns which is a tree, the tree of vectors of just these in the order of the schema, each with id and kind of its column and with empty values of its own for RowSize rows (none with NotCreateVector, or for a struct without nulls), and changes neither schema nor options. For unions, for lists or maps without their elements, and for a RowSize which is not positive it gives an error.",
 ["inputs","configurations"],"all schema trees with lists and maps, of any depth and of hundreds of columns, x sets of included columns x options",
 "Tests make vectors of some flat schemas.",
 ["orc/api/type.go","orc/api/vector.go"],[("pre-order numbering","orc/api/type.go SetId/traverse"),("vectors by kind","orc/api/type.go createVector and create*Vector")],["NormalizeSchema","TypeDescription.Flat","SchemasToTypes","TypeDescription.CreateVector"])
p("C29","Only its own file is written, and what was opened is read",
 "A writer at a path leaves there just the bytes it would write to an empty file, whatever was there before, which only grow to them while it writes and are not opened as a file until it is closed, and it changes nothing else in the directory; if schema, options or path are refused, all is left as it was. Reading opens files for reading only and changes nothing. A reader goes on with the file it has opened when another one, or none, comes to its path, and needs a few descriptors however many columns and stripes there are.",
 ["inputs","histories","configurations"],"what was at the path before (nothing, longer and shorter files, links) x names x files written; refused schemas, options and paths; files replaced, removed or moved between calls; files of up to 60 columns and hundreds of stripes",
 "Tests write to new files and read files which nobody touches.",
 [W,R,"orc/io/file.go"],[("checks before the file is made",W+" NewOSFileWriter"),("a descriptor shared by streams","orc/io/file.go Clone")],["NewOSFileWriter","NewOSFileReader","the directory, /proc/self/fd"])
p("C30","Work is in proportion to rows",
 "The time to write rows, in batches of any size and with any options, is in proportion to their number, also if all strings of a dictionary are different, and so is the time to read them by batches of any size, however many stripes there are. A seek in a file with index takes time of strides and chunks, not of the file. So n times the rows, or seeks, take about n times the time, never n times n.",
 ["inputs","histories","configurations"],"schemas of some columns with lists and maps, options and stripes from a few KB to all, batches of a row to all rows; files of goorc and of another writer, and of the same rows 16 times",
 "Tests write and read little and do not look at time; work which grows by the square of the rows is seen only with many of them.",
 [W,S,R,"orc/column","orc/encoding/int.go","orc/stream/reader.go"],[("dictionary of a stripe","orc/column/string.go stringDictionaryV2Writer"),("only stripes which were read are sought again",R+" batchReader seek"),("buffers of chunks","orc/stream/reader.go, orc/stream/writer.go")],["Writer.Write/Close","BatchReader.Next/Seek"])
p("C31","What cannot be read is refused, never misread",
 "A file that needs what the reader does not have (other compressions, encodings of older writers or none of the type, types without reader), or lacks what it needs (whole streams but those of nulls, or values or bytes at the end of streams), or has values its types do not have (integers and dates out of range, nanoseconds of a second, decimals over 64 bits, lengths and dictionary entries which are not there), is an error when opened or when the rows concerned are read or sought, and all rows delivered until then are the right ones. So all rows without an error are exactly those of the file. Columns which are not concerned are read as ever if only they are included.",
 ["inputs","configurations","fault_sequences"],"all schemas x rows x choices of an independent writer x what is odd in some columns of some stripes x reading in batches and seeking",
 "Tests read files which have nothing the reader lacks.",
 ["orc/column/package.go","orc/common/misc.go",R,S,"orc/stream","orc/encoding"],[("encodings and types known","orc/column/package.go NewReader"),("compressions known","orc/common/misc.go DecompressChunks, "+R+" ReadChunks"),("end of streams","orc/stream/reader.go"),("values in range","orc/column/int.go, orc/column/time.go, orc/encoding/time.go")],["BatchReader.Next/Seek","Reader.CreateBatchReader"])
p("C32","Platforms of 32 bits do the same",
 "Built for a platform of 32 bits (386) goorc does the same as for one of 64: from the same rows and options it writes the same bytes, and of any file, whole or damaged, it reads the same rows. Numbers of 64 bits, dates, ids, rows and lengths are not cut to the size of an int: what does not fit there is an error, never a panic, an endless loop or another value.",
 ["configurations","inputs"],"workloads of the properties of writing, reading, seeking, encodings, conversions, statistics, damage, refusals and vectors, by a program for 386; files written by both platforms",
 "Tests run on the platform of the developer; with an int of 32 bits other conversions lose bits and other constants do not compile.",
 ["orc/api","orc/column","orc/encoding","orc/stream",S,R,W,"orc/config/opts.go"],[("rows to skip","orc/column Skip, orc/stream Seek"),("lengths and elements","orc/stream/string.go NextBytes, orc/column/reader.go addElements"),("days to a date","orc/api/vector.go FromDays"),("options","orc/config/opts.go")],["public API in a program for GOARCH=386"])
p("C33","Sizes over 32 bits are no limit",
 "A file may have more bytes, a stream more bytes and a stripe more rows than 32 bits can count: offsets, positions in indexes, strides and numbers of rows over 2^31 and 2^32 are kept as they are when such a file is written, read or sought in. What a file only tells to have is an error where it ends, and no row is made up for it.",
 ["inputs","configurations","histories"],"files whose stripes, streams, chunks, metadata and rows lie around and over 2^31, 2^32 and 2^40, most of their bytes made up when read, x readings and seeks; files written after billions of bytes; numbers of rows, strides and entries which only the metadata tells",
 "No test can afford a file of 4 GB, so a number cut to 32 bits anywhere on the way is never seen.",
 ["orc/reader.go","orc/writer.go","orc/stripe.go","orc/stream/reader.go","orc/column/reader.go","orc/io/file.go"],[("stream offsets summed up over a stripe","orc/stripe.go newStripeReader"),("positions from index entries","orc/column SeekStride"),("rows to strides and stripes","orc/reader.go Seek, orc/stripe.go Seek"),("offset of the next stripe","orc/writer.go Write/Close")],["BatchReader.Next/Seek","Writer.Close"])
p("C34","The process around is left as it is, whatever is logged",
 "Whatever is written, read, refused or found damaged, goorc prints nothing to standard output, reads no standard input, never ends the process, and leaves environment, working directory, time zone, other loggers, settings of the runtime and number of goroutines as they were. What it logs goes to standard error, nothing of it below the level which SetLogLevel of its packages set, and at any level, or while it is changed, everything else is done the same.",
 ["inputs","configurations","histories"],"cases of writing, reading, seeking, refusals, damage and failures of files x levels of logs, set before, set twice or changing meanwhile, in processes of their own",
 "Tests look at results within the process they share, at one level of logs; a message which changes what it tells of shows at its level only.",
 ["orc/package.go","orc/column/package.go","orc/common/misc.go","orc/encoding/package.go","orc/io/file.go","orc/stream/reader.go","orc/stream/writer.go",R,W,S],[("loggers of packages and their levels","SetLogLevel of each package of orc/")],["standard files, exit and settings of a process","results of cases"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
for x in P: assert x['statement'].count('. ')<=2,(x['id'],)
print(len(P))
