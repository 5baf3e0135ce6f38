#!/usr/bin/env python3
# Writes /verif/MANIFEST.json
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gen="exploration of %s; holds for the executions made, whose number and contents are in the evidence file, and for no others. Trusts %s, the Go toolchain, and compress/flate of the standard library."
spec="the independent decoder/encoder in harness/internal/refdec, refenc and wire, written from the ORC specification"
model="the row model in harness/internal/model"
C=[
("C01","round trip of random tables through the real writer and reader, differential against a model of rows","seeded random schemas, rows and options",model,None),
("C02","online monitor of batches delivered against a model of the rows","random files and batch capacities",model,None),
("C03","round trip of null patterns, exhaustive for small ones, against a model of rows","random and all small null patterns",model,None),
("C04","round trip monitor and independent decoder/encoder of run-length encoding","random and all short integer sequences",spec,None),
("C05","round trip monitor and independent decoders","random and all short sequences of bytes, bools, floats, strings and varints",spec,None),
("C06","chunk monitor with independent inflater","random data, chunk sizes and pieces, all header bytes",spec,None),
("C07","independent decoder of the format run on files of the real writer","random schemas, rows and options",spec,None),
("C08","real reader run on files of an independent encoder of the format, against the model of rows","random schemas, rows and legal choices of a writer",spec,None),
("C09","structural monitor of closed files by an independent decoder","random schemas, rows and options",spec,None),
("C10","statistics of files checked against those computed from the rows","random schemas, rows, locations and edge values",spec+", and math/big",None),
("C11","monitor of histories of reads and seeks against a model of the rows","random files and histories, and all pairs of rows of small files",model,None),
("C12","differential reading of random and all subsets of columns","random files, and all sets of columns of small schemas",model,None),
("C13","panic, hang (time limit) and memory (address space and allocation) monitors on damaged files","random damage, all cuts and many single byte changes, and structural mutation of metadata and data",model,None),
("C14","fault injection at operations of the underlying file, with oracle of told errors and right rows","the operations on files of small tables, each failing once or from then on, wholly or in part; of more than 40 operations a random choice",model,"fault_enumeration"),
("C15","Go race detector and differential against running alone","goroutines with files of their own in random schedules with injected delays","the Go race detector",None),
("C16","differential against exact calendar and decimal arithmetic","all days of years -4000 to 9999, edges, and random values and locations","the calendar and decimal arithmetic in harness/internal/checks/convert.go, and the time zone files",None),
("C17","monitor of handles and of the descriptor table","random files, orders of closing, failures and damage","/proc/self/fd",None),
("C18","differential of schemas written and read, refusal of schemas which are not trees","random schemas of both writers",spec,None),
("C19","differential of bytes of files over batches, vectors and repetitions","random schemas, rows and options",spec,None),
("C20","panic, progress and result size monitors on decoders fed with any bytes","all short inputs, random ones, and changed legal ones","the accounting of bytes in harness/internal/checks/enc.go",None),
("C21","index positions followed by an independent decoder","random schemas, rows and options",spec,None),
("C22","monitor of aliasing: changes of vectors during and after calls, with control files","random schemas, rows and histories",model,None),
("C23","batches, schemas and options with a single deviation, with control files","random schemas and all kinds of deviation",model,None),
("C24","monitor of bytes written to the file after each batch, with sizes by an independent decoder","random schemas, rows and stripe sizes",spec,None),
("C25","histories with wrong and unusual calls, against a model of the rows and with the file compared","random files, histories, vectors and options",model,None),
("C26","monitor of the bytes read by each call, against the extents of streams and positions of strides by an independent decoder","random files, column sets and histories",spec,None),
("C27","monitor of the heap in use after collections along long runs","random columns, options and long histories","the heap in use as the Go runtime tells it after collections",None),
("C28","assertions on what is made of each schema, against an independent model of trees","random schemas, column sets and options",model,None),
("C29","monitor of directories and descriptors before, between and after calls, with the file written in memory and a model of the rows","random files, paths, refusals and replacements","directory contents as the system tells them, and the model of rows",None),
("C30","monitor of CPU time of the process for some work and 16 times of it, measured again where it is long","random schemas, rows, options, batches and seeks","times as the system tells them, at most 6 times out of proportion where squares would be 16 times",None),
("C31","files of an independent writer with something odd, rows compared up to the first error","random schemas, rows, writer choices and oddities",spec,None),
("C32","the monitors of other properties in a program built for 386, and files written by both platforms compared","random workloads of writing, reading, seeking, encodings, conversions, damage and refusals","the oracles of the other properties, as they are for 386, and the program for amd64",None),
("C33","files of billions of bytes and rows, of which only what is not made up is kept, read and sought in and written, with a model of the rows and monitors of what is read","random sizes, gaps, chunks, strides, seeks and numbers which only metadata tells",spec,None),
("C34","monitor of a process from outside (standard files, exit) and inside (settings, goroutines) while it runs cases of other properties, whose outcomes are compared between levels of logs","random cases and levels","the process before, and the same cases at another level",None),
]
import sys
registry=open(os.path.join(here,"harness/internal/checks/registry.go")).read()
have=[c for c in C if '{ID: "%s"'%c[0] in registry]
m={"version":1,
 "setup_cmd":"bash setup.sh",
 "hooks":{"guard":"verif","enable":"go build -tags verif (check.sh builds harness, which replaces goorc by /repo, with it)","source_commits":["1b33c99"]},
 "checks":[{"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,"technique":t,"level":l or "exploration","level_note":(gen%(over,trust))[0].upper()+(gen%(over,trust))[1:]} for i,t,over,trust,l in have],
 "not_applicable":[{"property":c[0],"reason":"check not yet built"} for c in C if c not in have],
 "notes":"Runtime monitoring of the real code; see DESIGN.md. check.sh builds the harness from /repo's working tree into a scratch directory. Exit 2 or 3 mean no answer (nothing observed, build failure)."}
open(os.path.join(here,"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
