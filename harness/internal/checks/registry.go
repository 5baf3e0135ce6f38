package checks

import "verif/harness/internal/rt"

const ruleFile = "a case is a file of random schema and rows, by the writer under test or an independent one, with a random history of calls, by index and seed; nontrivial if it has rows, distinct by schema, options and all values"

const ruleWrite = "a case is a random schema, rows, null patterns, batches and writer options, by index and seed; nontrivial if it has rows, distinct by schema, options and all values"

// Properties is what is checked
func Properties() []rt.Property {
	return []rt.Property{
		{ID: "C01", Rule: ruleWrite, Expect: []string{"rows", "rows read", "files copied"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c01Mixed},
			{Name: "column", Quick: 6000, Thorough: 120000, Run: c01Column},
			{Name: "root", Quick: 600, Thorough: 10000, Run: c01Root},
			{Name: "big", Quick: 60, Thorough: 900, Run: c01Big},
			{Name: "os", Quick: 300, Thorough: 4000, Run: c01OS},
			{Name: "copy", Quick: 2500, Thorough: 60000, Run: c01Copy},
		}},
		{ID: "C02", Rule: ruleFile, Expect: []string{"reads", "rows read", "reads after end"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 10000, Thorough: 200000, Run: c02Mixed},
			{Name: "small", Quick: 10000, Thorough: 200000, Run: c02Small},
			{Name: "large", Quick: 200, Thorough: 1500, Run: c02Large},
		}},
		{ID: "C03", Rule: ruleWrite + "; schemas are nested nullable structs", Expect: []string{"nulls", "rows read"}, Suites: []rt.Suite{
			{Name: "nulls", Quick: 6000, Thorough: 120000, Run: c03Nulls},
			{Name: "patterns", Quick: 14 * 729, Thorough: 14 * 729 * 5, Run: c03All},
			{Name: "other-writer", Quick: 4000, Thorough: 80000, Run: c03Ref},
			{Name: "large", Quick: 120, Thorough: 1000, Run: c03Large},
		}},
		{ID: "C04", Rule: "a case is a sequence of integers with flush points, by index and seed (short: all sequences of up to 5 edge values); nontrivial if not empty, distinct by values and sign", Expect: []string{"short repeat runs", "direct runs", "patched base runs", "delta runs", "short sequences"}, Suites: []rt.Suite{
			{Name: "random", Quick: 150000, Thorough: 2000000, Run: c04Random},
			{Name: "widths", Quick: 60000, Thorough: 800000, Run: c04Widths},
			{Name: "short", Quick: 1641, Thorough: 1641, Run: c04Short, Fixed: true},
			{Name: "other-encoder", Quick: 50000, Thorough: 800000, Run: c04Other},
			{Name: "any-run", Quick: 50000, Thorough: 800000, Run: c04AnyRun},
		}},
		{ID: "C05", Rule: "a case is a sequence of values with flush points, by index and seed (short: all sequences of up to 8 of 3 byte values and up to 12 bools with a flush at each place); nontrivial if not empty, distinct by values", Expect: []string{"byte runs", "bools", "floats", "strings", "varints"}, Suites: []rt.Suite{
			{Name: "random", Quick: 150000, Thorough: 2000000, Run: c05Random},
			{Name: "runs", Quick: 20000, Thorough: 100000, Run: c05Runs},
			{Name: "short", Quick: 8190, Thorough: 32766, Run: c05Short, Fixed: true},
		}},
		{ID: "C06", Rule: "a case is data of mixed compressibility with a chunk size and pieces, by index and seed; nontrivial if not empty, distinct by size and data", Expect: []string{"original chunks", "deflated chunks", "piecewise compressions", "truncations", "headers", "data near its deflated length"}, Suites: []rt.Suite{
			{Name: "chunks", Quick: 10000, Thorough: 200000, Run: c06Chunks},
			{Name: "near", Quick: 2000, Thorough: 80000, Run: c06Near},
			{Name: "large", Quick: 48, Thorough: 1000, Run: c06Large},
			{Name: "headers", Quick: 4096, Thorough: 4096, Run: c06Headers, Fixed: true},
		}},
		{ID: "C20", Rule: "a case is bytes decoded by all decoders: all of one and two bytes with some continued, random ones, and legal encodings which are changed and cut; distinct by bytes", Expect: []string{"values", "errors", "chunk sequences restored"}, Suites: []rt.Suite{
			{Name: "short", Quick: 256, Thorough: 256, Run: c20Short, Fixed: true},
			{Name: "random", Quick: 100000, Thorough: 2000000, Run: c20Random},
			{Name: "chunks", Quick: 8000, Thorough: 200000, Run: c20Chunks},
		}},
		{ID: "C07", Rule: ruleWrite, Expect: []string{"rows", "streams", "chunks", "int runs"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c07Mixed},
			{Name: "column", Quick: 6000, Thorough: 120000, Run: c07Column},
			{Name: "big", Quick: 120, Thorough: 900, Run: c07Big},
		}},
		{ID: "C08", Rule: "a case is a random schema, rows and legal choices of an independent writer, by index and seed; nontrivial if it has rows, distinct by schema, choices and all values", Expect: []string{"rows read", "files of independent writer"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c08Mixed},
			{Name: "column", Quick: 6000, Thorough: 120000, Run: c08Column},
			{Name: "footer", Quick: 120, Thorough: 2000, Run: c08Footer},
			{Name: "samples", Quick: 60, Thorough: 60, Run: c08Samples},
		}},
		{ID: "C09", Rule: ruleWrite, Expect: []string{"stripes", "streams"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c09Mixed},
			{Name: "stripes", Quick: 3000, Thorough: 120000, Run: c09Stripes},
			{Name: "large", Quick: 160, Thorough: 1200, Run: c09Large},
		}},
		{ID: "C10", Rule: ruleWrite, Expect: []string{"file statistics", "stride statistics", "locations"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c10Mixed},
			{Name: "column", Quick: 6000, Thorough: 120000, Run: c10Column},
			{Name: "edges", Quick: 14000, Thorough: 300000, Run: c10Edges},
			{Name: "zones", Quick: 2000, Thorough: 40000, Run: c10Zones},
			{Name: "large", Quick: 100, Thorough: 1200, Run: c10Large},
		}},
		{ID: "C11", Rule: ruleFile, Expect: []string{"seeks", "seeks refused", "batch readers", "rows read"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 8000, Thorough: 150000, Run: c11Mixed},
			{Name: "column", Quick: 8000, Thorough: 150000, Run: c11Column},
			{Name: "every", Quick: 4000, Thorough: 60000, Run: c11Every},
			{Name: "large", Quick: 300, Thorough: 2000, Run: c11Large},
		}},
		{ID: "C12", Rule: ruleFile + "; the sets of columns are random trees, random sets and all sets of small schemas", Expect: []string{"sets read", "sets refused", "rows read"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 6000, Thorough: 120000, Run: c12Mixed},
			{Name: "all", Quick: 1200, Thorough: 20000, Run: c12All},
			{Name: "wide", Quick: 400, Thorough: 5000, Run: c12Wide},
		}},
		{ID: "C13", Rule: "a case is a small file of either writer with damage: random bytes changed, added, removed; all cuts and changes of single bytes; contents of metadata, indexes and data changed in a right frame; chunks which are decompressed to much more than the chunk size; distinct by bytes of the file", Expect: []string{"damaged files opened", "errors", "rows read of damaged files", "reframed files with rows", "inflated chunks refused", "chunks over the size refused"}, Suites: []rt.Suite{
			{Name: "bytes", Quick: 5000, Thorough: 150000, Run: c13Bytes},
			{Name: "every", Quick: 160, Thorough: 6000, Run: c13Every},
			{Name: "meta", Quick: 8000, Thorough: 200000, Run: c13Meta},
			{Name: "inflated", Quick: 120, Thorough: 1000, Run: c13Inflated},
			{Name: "over", Quick: 3000, Thorough: 60000, Run: c13Over},
		}},
		{ID: "C14", Level: "fault_enumeration", Rule: "a case is a small file written, or read and sought by a random script, once for each operation on the underlying file (of more than 40 the first and last ones and a random choice) in each way it can fail: once or from then on, as a whole or in part; distinct by file and failure", Expect: []string{"writes with a failure", "reads with a failure", "failed write of writers", "failed close of writers", "failed read of readers", "failed seek of readers", "failed clone of readers", "failed size of readers", "recovered by seek", "partial reads", "full devices"}, Suites: []rt.Suite{
			{Name: "write", Quick: 900, Thorough: 30000, Run: c14Write},
			{Name: "read", Quick: 2000, Thorough: 60000, Run: c14Read},
			{Name: "partial", Quick: 3000, Thorough: 80000, Run: c14Partial},
			{Name: "os", Quick: 400, Thorough: 8000, Run: c14OS},
		}},
		{ID: "C15", Race: true, Rule: "a case is 2 to 8 goroutines with writers and readers of their own and delays at file operations, run with the race detector and compared with running alone, or 2 to 6 goroutines with batch readers of one reader; distinct by jobs and order of the goroutines at file operations, trivial if they did not take turns", Expect: []string{"batch readers of a shared reader", "turns between goroutines of a shared reader", "jobs", "files", "rows read", "turns between goroutines at file operations"}, Suites: []rt.Suite{
			{Name: "same", Quick: 250, Thorough: 8000, Run: c15Same},
			{Name: "shared", Quick: 400, Thorough: 12000, Run: c15Shared},
			{Name: "mixed", Quick: 250, Thorough: 8000, Run: c15Mixed},
			{Name: "logs", Quick: 24, Thorough: 800, Run: c15Logs},
		}},
		{ID: "C16", Rule: "a case is a block of successive days or nanoseconds, or a number of random dates, times in locations, or decimals; nontrivial always, distinct by block or values", Expect: []string{"days", "dates encoded", "times", "timestamps", "nanoseconds", "decimals", "times of files"}, Suites: []rt.Suite{
			{Name: "days", Quick: (lastDay-firstDay)/dayBlock + 1, Thorough: (lastDay-firstDay)/dayBlock + 1, Run: c16Days, Fixed: true},
			{Name: "dates", Quick: 2000, Thorough: 60000, Run: c16Dates},
			{Name: "times", Quick: 4000, Thorough: 150000, Run: c16Times},
			{Name: "nanos", Quick: 800, Thorough: 10000, Run: c16Nanos},
			{Name: "decimals", Quick: 2000, Thorough: 80000, Run: c16Decimals},
			{Name: "file", Quick: 1000, Thorough: 30000, Run: c16File},
		}},
		{ID: "C17", Rule: "a case is a file read by several batch readers closed in any order, with failing operations, or damaged; handles and descriptors are counted; distinct by file and failure", Expect: []string{"handles", "descriptor tables", "refused batch readers", "failed reads", "reads with a failure"}, Suites: []rt.Suite{
			{Name: "read", Quick: 6000, Thorough: 120000, Run: c17Read},
			{Name: "faults", Quick: 2500, Thorough: 50000, Run: c17Faults},
			{Name: "damaged", Quick: 5000, Thorough: 100000, Run: c17Damaged},
			{Name: "os", Quick: 400, Thorough: 8000, Run: c17OS},
		}},
		{ID: "C18", Rule: "a case is a random tree of types with odd names, or the types of a file changed so that they are no tree in pre-order, by index and seed", Expect: []string{"columns", "schemas refused"}, Suites: []rt.Suite{
			{Name: "written", Quick: 6000, Thorough: 100000, Run: c18Schema},
			{Name: "other", Quick: 4000, Thorough: 80000, Run: c18Other},
			{Name: "not-tree", Quick: 3000, Thorough: 60000, Run: c18Tree},
			{Name: "wide", Quick: 100, Thorough: 2500, Run: c18Wide},
		}},
		{ID: "C19", Rule: ruleWrite + "; each is written again by other batches and vectors, and with other options, and by other processes in other time zones", Expect: []string{"files compared", "layouts compared", "files of other processes compared"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 2500, Thorough: 60000, Run: c19Mixed},
			{Name: "column", Quick: 2500, Thorough: 60000, Run: c19Column},
			{Name: "large", Quick: 32, Thorough: 800, Run: c19Large},
			{Name: "process", Quick: 40, Thorough: 2000, Run: c19Process},
		}},
		{ID: "C21", Rule: ruleWrite + "; all with index and again without", Expect: []string{"positions followed", "strides", "seeks"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 3000, Thorough: 60000, Run: c21Mixed},
			{Name: "column", Quick: 4000, Thorough: 80000, Run: c21Column},
			{Name: "large", Quick: 120, Thorough: 1200, Run: c21Large},
		}},
		{ID: "C22", Rule: ruleFile + "; batches are changed after their write, records read are kept until after closing, or their bytes changed", Expect: []string{"batches changed after write", "batches kept", "values kept", "batches changed after read", "values changed"}, Suites: []rt.Suite{
			{Name: "write", Quick: 4000, Thorough: 100000, Run: c22Write},
			{Name: "column", Quick: 4000, Thorough: 100000, Run: c22Column},
			{Name: "read", Quick: 5000, Thorough: 120000, Run: c22Read},
			{Name: "binary", Quick: 1500, Thorough: 30000, Run: c22Binary},
		}},
		{ID: "C23", Rule: "a case is a file with batches in between which do not fit in one place, or a schema or options with one deviation; distinct by file and deviation", Expect: []string{"batches refused", "schemas", "options", "refused at creating the writer", "accepted and right"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 5000, Thorough: 120000, Run: c23Mixed},
			{Name: "column", Quick: 5000, Thorough: 120000, Run: c23Column},
			{Name: "schema", Quick: 5000, Thorough: 100000, Run: c23Schema},
			{Name: "options", Quick: 2500, Thorough: 40000, Run: c23Options},
		}},
		{ID: "C24", Rule: ruleWrite + "; stripe sizes from a row to all of the file", Expect: []string{"whole stripes", "growth steps", "exact stripes"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 8000, Thorough: 150000, Run: c24Mixed},
			{Name: "exact", Quick: 6000, Thorough: 60000, Run: c24Exact},
			{Name: "large", Quick: 120, Thorough: 1200, Run: c24Large},
		}},
		{ID: "C25", Rule: ruleFile + "; some of the calls cannot be right, or come after closing; vectors and options are made and changed by the caller", Expect: []string{"vectors refused", "own vectors", "calls after close", "options tried"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 5000, Thorough: 120000, Run: c25Mixed},
			{Name: "column", Quick: 4000, Thorough: 100000, Run: c25Column},
			{Name: "own", Quick: 4000, Thorough: 100000, Run: c25Own},
			{Name: "closed", Quick: 1500, Thorough: 20000, Run: c25Closed},
			{Name: "options", Quick: 3000, Thorough: 40000, Run: c25Options},
		}},
		{ID: "C26", Rule: ruleFile, Expect: []string{"streams read", "streams not read", "strides skipped", "strides not yet read", "long files opened"}, Suites: []rt.Suite{
			{Name: "mixed", Quick: 4000, Thorough: 80000, Run: c26Mixed},
			{Name: "large", Quick: 100, Thorough: 1500, Run: c26Large},
		}},
		{ID: "C27", Rule: "a case is a file of random columns, options and batches, written or read as a whole or sought in many times, by index and seed; distinct by schema, options and length", Expect: []string{"memory samples", "bytes written", "bytes read", "seeks"}, Suites: []rt.Suite{
			{Name: "writer", Quick: 60, Thorough: 1200, Run: c27Writer},
			{Name: "reader", Quick: 60, Thorough: 1200, Run: c27Reader},
			{Name: "seeks", Quick: 60, Thorough: 1200, Run: c27Seeks},
		}},
		{ID: "C28", Rule: "a case is a random schema, by index and seed, with sets of columns, row sizes and with or without room; distinct by schema and options", Expect: []string{"types numbered", "vectors", "vectors refused", "schemas refused"}, Suites: []rt.Suite{
			{Name: "tree", Quick: 6000, Thorough: 150000, Run: c28Tree},
			{Name: "wide", Quick: 300, Thorough: 6000, Run: c28Wide},
		}},
		{ID: "C29", Rule: "a case is a file, and a directory with other files and something or nothing at its path, by index and seed; distinct by file and what is done", Expect: []string{"files looked at in writing", "files opened in writing", "writers refused", "paths refused", "descriptors", "files read as they were", "batches read of a replaced file", "stripes", "readers of a file put back"}, Suites: []rt.Suite{
			{Name: "write", Quick: 1500, Thorough: 30000, Run: c29Write},
			{Name: "refused", Quick: 1000, Thorough: 20000, Run: c29Refused},
			{Name: "read", Quick: 1000, Thorough: 20000, Run: c29Read},
			{Name: "replaced", Quick: 2000, Thorough: 40000, Run: c29Replaced},
			{Name: "descriptors", Quick: 400, Thorough: 8000, Run: c29Descriptors},
		}},
		{ID: "C30", Rule: "a case is a random schema with rows and options, written, read and sought in, once and 8 times as much, by index and seed; distinct by schema and options", Expect: []string{"measured: writing", "measured: reading", "measured: seeking", "measured: writing stripes", "measured: opening stripes", "measured: reading stripes", "files of independent writer"}, Suites: []rt.Suite{
			{Name: "write", Quick: 120, Thorough: 3000, Run: c30Write},
			{Name: "read", Quick: 120, Thorough: 3000, Run: c30Read},
			{Name: "seek", Quick: 60, Thorough: 1500, Run: c30Seek},
			{Name: "stripes", Quick: 40, Thorough: 1500, Run: c30Stripes},
		}},
		{ID: "C31", Rule: "a case is a file of an independent writer with something odd in some columns, by index and seed; nontrivial if something is odd, distinct by schema, rows and what is odd", Expect: []string{"refused: old encodings", "refused: wrong encodings", "refused: other compression", "refused: types without reader", "refused: fewer values", "refused: fewer bytes", "refused: missing streams", "refused: values out of range", "other columns read", "rows read before an error", "refused after seek", "read after seek"}, Suites: []rt.Suite{
			{Name: "encodings", Quick: 4000, Thorough: 100000, Run: c31Encodings},
			{Name: "codecs", Quick: 2000, Thorough: 50000, Run: c31Codecs},
			{Name: "types", Quick: 2000, Thorough: 50000, Run: c31Types},
			{Name: "short", Quick: 8000, Thorough: 200000, Run: c31Short},
			{Name: "missing", Quick: 3000, Thorough: 80000, Run: c31Missing},
			{Name: "range", Quick: 5000, Thorough: 120000, Run: c31Range},
		}},
		{ID: "C32", Rule: "a case is one of the other properties, by index and seed, in a program for 386; distinct as there", Expect: []string{"files of both platforms compared", "rows read", "values", "days", "vectors refused", "batches refused", "seeks", "seeks refused", "streams read", "file statistics", "files over 4 GB", "seeks over 2^32", "values over 4 GB in a stream"}, Suites: []rt.Suite{
			{Name: "build", Quick: 1, Thorough: 1, Run: c32Build, Fixed: true},
			{Name: "bytes", Quick: 40, Thorough: 2000, Run: c32Bytes},
			{Name: "write", Quick: 1000, Thorough: 40000, Run: c01Mixed},
			{Name: "write-column", Quick: 600, Thorough: 20000, Run: c01Column},
			{Name: "write-large", Quick: 12, Thorough: 300, Run: c01Big},
			{Name: "read", Quick: 1000, Thorough: 40000, Run: c02Mixed},
			{Name: "nulls", Quick: 500, Thorough: 20000, Run: c03Nulls},
			{Name: "ints", Quick: 20000, Thorough: 500000, Run: c04Random},
			{Name: "int-widths", Quick: 10000, Thorough: 200000, Run: c04Widths},
			{Name: "any-int-run", Quick: 8000, Thorough: 200000, Run: c04AnyRun},
			{Name: "values", Quick: 15000, Thorough: 400000, Run: c05Random},
			{Name: "chunks", Quick: 1000, Thorough: 40000, Run: c06Chunks},
			{Name: "other-writer", Quick: 1000, Thorough: 40000, Run: c08Mixed},
			{Name: "other-writer-column", Quick: 600, Thorough: 20000, Run: c08Column},
			{Name: "stripes", Quick: 500, Thorough: 20000, Run: c09Stripes},
			{Name: "statistics", Quick: 600, Thorough: 20000, Run: c10Mixed},
			{Name: "statistics-edges", Quick: 1500, Thorough: 60000, Run: c10Edges},
			{Name: "seeks", Quick: 1200, Thorough: 40000, Run: c11Mixed},
			{Name: "seeks-column", Quick: 800, Thorough: 30000, Run: c11Column},
			{Name: "columns", Quick: 500, Thorough: 20000, Run: c12Mixed},
			{Name: "damaged", Quick: 600, Thorough: 30000, Run: c13Bytes},
			{Name: "damaged-metadata", Quick: 1500, Thorough: 60000, Run: c13Meta},
			{Name: "days", Quick: (lastDay-firstDay)/dayBlock + 1, Thorough: (lastDay-firstDay)/dayBlock + 1, Run: c16Days, Fixed: true},
			{Name: "dates", Quick: 500, Thorough: 20000, Run: c16Dates},
			{Name: "times", Quick: 1000, Thorough: 40000, Run: c16Times},
			{Name: "decimals", Quick: 500, Thorough: 20000, Run: c16Decimals},
			{Name: "any-bytes", Quick: 5000, Thorough: 200000, Run: c20Random},
			{Name: "index", Quick: 400, Thorough: 20000, Run: c21Mixed},
			{Name: "batches-refused", Quick: 800, Thorough: 30000, Run: c23Mixed},
			{Name: "schemas-refused", Quick: 800, Thorough: 30000, Run: c23Schema},
			{Name: "options-refused", Quick: 500, Thorough: 15000, Run: c23Options},
			{Name: "stripe-size", Quick: 800, Thorough: 30000, Run: c24Mixed},
			{Name: "calls-refused", Quick: 800, Thorough: 30000, Run: c25Mixed},
			{Name: "needed", Quick: 400, Thorough: 20000, Run: c26Mixed},
			{Name: "vectors", Quick: 600, Thorough: 30000, Run: c28Tree},
			{Name: "short", Quick: 800, Thorough: 40000, Run: c31Short},
			{Name: "range", Quick: 800, Thorough: 40000, Run: c31Range},
			{Name: "gaps", Quick: 500, Thorough: 20000, Run: c33Gaps},
			{Name: "many-rows", Quick: 16, Thorough: 200, Run: c33Rows},
			{Name: "told-rows", Quick: 1000, Thorough: 30000, Run: c33Told},
			{Name: "long-stream", Quick: 16, Thorough: 300, Run: c33Stream},
		}},
		{ID: "C33", Rule: "a case is a file of more bytes or rows than 32 bits can count, which is kept in memory but for its zeros, by index and seed; distinct by its sizes", Expect: []string{"reads over 4 GB", "files over 4 GB", "seeks over 2^32", "values over 4 GB in a stream", "MB written", "seeks refused", "values over the end refused"}, Suites: []rt.Suite{
			{Name: "gaps", Quick: 3000, Thorough: 100000, Run: c33Gaps},
			{Name: "rows", Quick: 48, Thorough: 400, Run: c33Rows},
			{Name: "stream", Quick: 60, Thorough: 1000, Run: c33Stream},
			{Name: "write", Quick: 8, Thorough: 200, Run: c33Write},
			{Name: "told", Quick: 4000, Thorough: 100000, Run: c33Told},
		}},
		{ID: "C34", Rule: "a case is a process which runs cases of other properties at a level of logs, and two more of other levels, by index and seed; distinct by what each of the cases observed", Expect: []string{"cases compared", "processes of level trace", "processes of level panic", "processes of level changing", "lines of logs"}, Suites: []rt.Suite{
			{Name: "process", Quick: 120, Thorough: 3000, Run: c34Process},
		}},
	}
}
