#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))
R="src/data_raster.hpp"; RC="src/data_raster.cpp"; FS="src/utils_filesystem.cpp"; DB="src/db_mongoc.cpp"
ARR="src/utils_array.h"; TM="src/utils_time.cpp"; ST="src/utils_string.cpp"; MA="src/utils_math.h"

prop("C01","Acknowledged raster file writes are complete and faithful under disk faults",
 "When writing a raster (ASCII grid or GeoTIFF, one or several layers, full extent or masked) reports success, every output file of that call exists, is complete, and reads back the same dimensions, georeference, no-data cells and cell values (ASCII to its printed precision, GeoTIFF exactly in the stored type). When the disk fails the write (full disk, I/O error, short write, refused open, failing close), the call reports failure instead of success. A file left over from an earlier write never leaks content into the new one.",
 ["inputs","fault_sequences","histories"],
 "every raster (dimension, layers, mask, value and output types), every earlier content of the target, every sequence of disk faults during the write",
 "Tests write on a healthy disk to fresh files and read them back a handful of times; no test makes a write, open or close fail, nor re-reads after a failed delete.",
 [R,RC,FS],
 [("ASCII writer","src/data_raster.hpp OutputAscFile / WriteSingleAsc, src/data_raster.cpp WriteAscHeaders"),
  ("GeoTIFF writer","src/data_raster.hpp OutputFileByGdal, src/data_raster.cpp WriteSingleGeotiff"),
  ("dispatch","src/data_raster.hpp OutputToFile, OutputFullsizeToFiles")],
 [("raster cells","values, mask positions and header of the raster object",R)],
 ["return value of the output call","bytes of the file afterwards, as re-read by an independent reader and by the library"])

prop("C02","Interrupting an overwrite never leaves a raster that mixes old and new",
 "If the process is killed at any instant while a raster file is being written or overwritten, what is on disk afterwards is either refused by the reader, or loads as exactly the previous raster, or loads as exactly the new raster. It never loads as a mixture or as a shortened or silently zero-filled version. The same holds for each layer file of a multi-layer output.",
 ["crash_points","inputs","histories"],
 "every crash point (each file-system mutation, including inside a single write) of every overwrite of every raster",
 "No test kills a writer; the on-disk states between two writes are never observed.",
 [R,RC,FS],
 [("ASCII writer","src/data_raster.hpp OutputAscFile, WriteSingleAsc"),("GeoTIFF writer","src/data_raster.cpp WriteSingleGeotiff"),("readers","src/data_raster.hpp ReadAscFile, ReadRasterFileByGdal")],
 [("file on disk","the bytes surviving the crash","simulated disk")],
 ["raster loaded from the surviving bytes in a fresh process state"])

prop("C03","Raster reads under I/O faults fail or are exact, and terminate",
 "Loading a raster file while the disk returns errors, short reads or refuses opens either fails visibly or yields exactly the stored dimensions, header and every cell value. A transient fault that does not fail the load changes nothing in the result. Every load terminates.",
 ["fault_sequences","inputs"],
 "every valid stored raster (ASCII or GeoTIFF, with or without mask), every sequence of read faults",
 "Tests only read intact files from a healthy disk.",
 [R,RC,ST],
 [("ASCII reader","src/data_raster.hpp ReadAscFile"),("GeoTIFF reader","src/data_raster.hpp ReadRasterFileByGdal"),("text loader","src/utils_string.cpp LoadPlainTextFile")],
 [("loaded raster","header, cells, positions",R)],
 ["initialisation status of the object","cells, header and statistics of the loaded raster"])

prop("C04","Damaged raster files are refused or read safely, never trusted or fatal",
 "Loading a truncated, torn, bit-flipped or line-damaged raster file never crashes, hangs, corrupts memory or throws; it is either refused or gives an object whose dimensions, cell storage and header agree with each other. An ASCII grid that holds fewer cell values than its header announces, or whose header is incomplete or impossible, is refused. Damage to the file never corrupts objects loaded from other files.",
 ["inputs","crash_points","fault_sequences"],
 "every stored raster and every truncation point, byte flip, dropped/duplicated/reordered line",
 "Tests read only well-formed files.",
 [R,RC,ST],
 [("ASCII reader","src/data_raster.hpp ReadAscFile"),("GeoTIFF reader","src/data_raster.hpp ReadRasterFileByGdal"),("construction","src/data_raster.hpp ReadFromFile, constructors")],
 [("loaded raster","header, cells",R)],
 ["whether construction returns, throws or crashes","object status, header, cell count"])

prop("C05","Multi-layer loads are all-or-nothing and keep layers aligned",
 "Loading a multi-layer raster from a list of files either succeeds with every layer holding exactly the cells of its own file, in list order and at the same positions, or fails visibly. If any layer file is missing, unreadable, damaged or fails mid-read, the load does not report success and the process survives.",
 ["fault_sequences","inputs","histories"],
 "every list of layer files (with or without mask), every subset of missing or damaged layers and every read fault, at any layer",
 "Tests load only complete sets of intact layers.",
 [R],
 [("layer loop","src/data_raster.hpp ReadFromFiles, constructors taking a vector of files, Init")],
 [("2-D cells","n_lyrs values for each valid position",R)],
 ["status of the object and every (cell, layer) value"])

prop("C06","Decompose, store and recombine conserves every cell",
 "Splitting a masked raster into subsets, storing each subset and recombining gives back every valid cell once with its exact value, all other cells no-data, with every cell belonging to exactly one subset and lying inside its subset's extent. A failed subset write is reported by the call, and subsets already written stay correct. The result is the same for every order in which subsets are processed or rebuilt.",
 ["inputs","fault_sequences","histories"],
 "every mask/zone layout, layer count, value assignment and order of subset operations, with disk faults on any subset",
 "Tests use two fixed zone maps and a healthy disk.",
 [R,RC],
 [("subset construction","src/data_raster.hpp BuildSubSet, ReadFromSubsets"),("subset output","src/data_raster.hpp OutputSubsetToFile, PrepareSubsetData, src/data_raster.cpp SubsetPositions")],
 [("subset maps","zone id to positions and data",RC)],
 ["status of each call, files per subset, recombined cells"])

prop("C07","Masked extraction and cell lookups match the reference under any schedule",
 "For every history of loading, masking, re-masking, copying and updating a raster, reading a cell by row/column, by coordinate or by position, and asking for the position of a cell, gives what a plain full grid with the same operations applied gives. Cells outside the mask or extent are no-data or reported as outside, never another cell's value. The answer does not depend on the number of worker threads or their interleaving.",
 ["schedules","histories","inputs"],
 "every grid, mask (nested, overlapping or exceeding extents) and operation history, every thread count and interleaving of the parallel loops",
 "Tests check a few cells of two maps under whatever one schedule the OS picks.",
 [R],
 [("mask","src/data_raster.hpp MaskAndCalculateValidPosition, ExtractByMask"),("lookup","src/data_raster.hpp GetPosition, GetValue, GetValueByIndex, SetValue"),("positions","src/data_raster.hpp CalculateValidPositionsFromGridData")],
 [("position index","(row, col) of each stored cell",R)],
 ["values and positions returned by the accessors"])

prop("C08","Parallel raster kernels give the sequential answer, race-free",
 "Array filling and copying, raster construction, masking, statistics, reclassification and output preparation give the same result for every number of worker threads and every interleaving of them, equal to the sequential reference (up to rounding for sums), and no two workers access the same memory location without synchronisation when one of them writes. Statistics ignore exactly the no-data cells.",
 ["schedules","configurations","inputs"],
 "every thread count, loop schedule and interleaving, every array/raster content",
 "Tests run the kernels with one OS schedule on tiny grids; a data race or a schedule-dependent reduction stays invisible.",
 [R,ARR,MA],
 [("array init","src/utils_array.h Initialize1DArray, Initialize2DArray"),("statistics","src/utils_math.h BasicStatistics, src/data_raster.hpp CalculateStatistics"),("kernels","omp parallel for loops in src/data_raster.hpp")],
 [("shared arrays","cells and positions being filled",R)],
 ["results of each kernel compared with a sequential model","happens-before order of memory accesses"])

prop("C09","Independent callers in different threads do not disturb each other",
 "When several threads each use their own rasters, arrays, strings, clocks and files, every thread gets the results it would get running alone, for every interleaving. No two threads touch the same memory unsynchronised. One thread's failure does not change another's result.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of two or more caller threads over disjoint objects and files",
 "Tests are single-threaded.",
 [R,FS,TM,ST,"src/basic.cpp"],
 [("time conversion","src/utils_time.cpp ConvertToString, ToLocalTime, ConvertToTime"),("paths","src/utils_filesystem.cpp GetAppPath, GetCoreFileName, FindFiles"),("readers and writers",R)],
 [("process-wide state","static buffers, locale and library singletons used underneath","libc, GDAL")],
 ["each thread's returned values; happens-before order of memory accesses"])

prop("C10","Acknowledged database raster writes read back exactly",
 "When storing a raster or raw data in the database reports success, reading the same name back returns exactly those bytes and the metadata describing them (dimensions, georeference, layer and cell counts, value type, options), whatever network faults happened during the write. When the data could not be completely stored the call reports failure. The round trip through the raster class gives an equal raster, with or without mask and extent expansion.",
 ["fault_sequences","inputs","histories"],
 "every raster and value type, every sequence of dropped, delayed, refused or failed requests at any point of the write and any server restart",
 "Database tests need a live server and never run here; even upstream they use a fault-free local server.",
 [DB,"src/db_mongoc.h",R,RC],
 [("stream writer","src/db_mongoc.cpp MongoGridFs::WriteStreamData"),("raster writer","src/data_raster.cpp WriteStreamDataAsGridfs, src/data_raster.hpp OutputToMongoDB"),("reader","src/data_raster.cpp ReadGridFsFile, src/data_raster.hpp ReadFromMongoDB")],
 [("files and chunks","stored documents","simulated database server")],
 ["return value; bytes and metadata read back over a healthy connection"])

prop("C11","Overwriting a database raster leaves exactly one current version",
 "After an acknowledged overwrite of a stored raster, the name resolves to the new version only: one version is listed and every read returns the new data. If the overwrite fails or the client dies at any point, a read under that name either fails or returns the complete old or the complete new version, never a mixture; a later fault-free overwrite restores the one-version state.",
 ["fault_sequences","crash_points","histories"],
 "every sequence of overwrites with faults or client death at any request",
 "No test overwrites under failures; no server is available to the tests.",
 [DB,RC,R],
 [("overwrite","src/data_raster.cpp WriteStreamDataAsGridfs"),("removal","src/db_mongoc.cpp MongoGridFs::RemoveFile")],
 [("stored versions","file documents with one name","simulated database server")],
 ["listing and reads after each overwrite"])

prop("C12","Database reads succeed only with complete data, and recover",
 "A read of a stored raster or stream reports success only with exactly the stored bytes and metadata; a missing file, missing or damaged chunk, dropped connection or server error makes it fail, leaving no partial result and no leak. Every read finishes within a bounded number of attempts and bounded waiting time. Once faults stop, reads succeed again.",
 ["fault_sequences","inputs","histories"],
 "every stored file, every sequence of network and server faults at any point of the read, any missing chunk",
 "No test reads from a failing server.",
 [DB,RC,R],
 [("retry loop","src/data_raster.cpp ReadGridFsFile"),("stream reader","src/db_mongoc.cpp MongoGridFs::GetStreamData, GetFile, GetFileMetadata")],
 [("result buffer","bytes handed to the caller",DB)],
 ["return value, buffer and length; simulated time and attempts used; bytes allocated"])

prop("C13","Removal from the database is honest and exact",
 "When removing a stored file (optionally selected by metadata) reports success, that file is gone: it is neither listed nor readable afterwards and its data chunks are deleted. Files with other names, or with other metadata when a selection is given, are untouched, and a removal that could not be carried out reports failure.",
 ["fault_sequences","histories","inputs"],
 "every history of writes and removals, names and metadata selections, with faults at any request",
 "No test removes under faults or checks neighbours.",
 [DB],
 [("removal","src/db_mongoc.cpp MongoGridFs::RemoveFile")],
 [("files and chunks","stored documents","simulated database server")],
 ["return value; server content afterwards"])

prop("C14","Decomposed database output conserves cells and reports honestly",
 "When storing a raster's subsets in the database (one file per subset or all combined) reports success, every requested subset file is stored and recombining them gives back every valid cell exactly once with its value. If any subset could not be prepared or stored, the call reports failure.",
 ["fault_sequences","inputs","histories"],
 "every zone layout and option, with faults at any request of any subset",
 "Database tests never run here; upstream ones are fault-free.",
 [R,RC,DB],
 [("subset output","src/data_raster.hpp OutputSubsetToMongoDB, PrepareSubsetData")],
 [("subset files","stored documents","simulated database server")],
 ["return value; server content and recombined raster"])

prop("C15","Database listings and lookups are complete or visibly failed",
 "Listing databases, collections or stored files and counting records returns exactly what the server holds when no fault hits the request, across any number of server batches. Looking up a stored file by name and metadata finds exactly the matching one. Under faults, a lookup or listing never returns items the server does not hold, never crashes or leaks, and works again once faults stop.",
 ["fault_sequences","inputs","histories"],
 "every server content, batch boundary and fault at any request of a listing",
 "No test lists from a server.",
 [DB],
 [("listings","src/db_mongoc.cpp MongoClient::GetDatabaseNames, GetCollectionNames, GetGridFsFileNames, QueryRecordsCount, MongoGridFs::GetFileNames")],
 [("server content","databases, collections and files","simulated database server")],
 ["returned lists and counts"])

prop("C16","Recursive directory deletion stays inside the directory and is honest",
 "Deleting a directory removes only entries inside it: symbolic links are removed as links, their targets and everything outside are untouched, whatever the names, nesting depth or path length. It reports success only if the directory is really gone (when sub-directories are to be kept: if its own files are gone and the sub-directories' contents are untouched), and failure when any entry could not be listed or removed. It always terminates.",
 ["inputs","fault_sequences"],
 "every directory tree (links, hidden names, long names, deep nesting, unknown entry types) and every failure of listing, inspecting or removing an entry",
 "Tests delete one small healthy tree.",
 [FS],
 [("recursive delete","src/utils_filesystem.cpp DeleteDirectory")],
 [("directory tree","entries on disk","simulated disk")],
 ["return value, surviving tree, every removal request issued"])

prop("C17","Creating, cleaning and deleting paths report what really happened",
 "When creating a directory path reports success the directory exists, also when another process creates the same path concurrently; when cleaning reports success the directory exists and none of its visible (non-hidden) files is left, its sub-directories' contents being untouched; when deleting a file reports success that file no longer exists. When the disk refuses the operation failure is reported, a healthy disk is never refused, and nothing outside the named path (links resolved) is created, changed or removed.",
 ["fault_sequences","schedules","inputs","histories"],
 "every path and earlier state, every file-system fault and every interleaving with another process creating or removing entries",
 "Tests exercise only fault-free single-process calls.",
 [FS],
 [("create","src/utils_filesystem.cpp MakeDirectory"),("clean","src/utils_filesystem.cpp CleanDirectory"),("delete file","src/utils_filesystem.cpp DeleteExistedFile")],
 [("directory tree","entries on disk","simulated disk")],
 ["return value and the tree afterwards"])

prop("C18","File search finds exactly the matching files",
 "Searching a directory by one or several extensions (or for all files) returns every visible (non-hidden) file whose name has one of the extensions, each once with its correct path, and nothing else (no directories), whatever order or entry types the file system reports and whatever the current directory holds. If the directory cannot be listed the search reports failure rather than an empty or partial result.",
 ["inputs","fault_sequences"],
 "every directory content and extension list, every listing order, unknown entry types and listing faults",
 "Tests search one fixed folder in the order the real disk gives.",
 [FS],
 [("search","src/utils_filesystem.cpp FindFiles")],
 [("directory entries","names and types","simulated disk")],
 ["return code and list"])

prop("C19","Text loading returns the whole file or refuses, and terminates",
 "Loading a text file either returns every content line of the file in order (trimmed; comment and blank lines dropped; LF or CRLF line ends) or reports failure. Read errors, short reads, directories and files of any length of line never make it loop, crash or return a truncated list as success.",
 ["inputs","fault_sequences"],
 "every file content and every sequence of read faults",
 "Tests load one fixed file from a healthy disk.",
 [ST],
 [("text loader","src/utils_string.cpp LoadPlainTextFile")],
 [("lines","content handed to the caller",ST)],
 ["return value and lines"])

prop("C20","Current-time readings are one consistent, monotone instant",
 "A date-time built from 'now' (local or UTC) equals one instant between the start and the end of the call, to its resolution, for every instant and every time zone setting: its date, time of day and fraction belong together. Successive readings never go backwards while the clock does not, elapsed-time measurements are never negative and match the time that passed, also when the wall clock is stepped. Converting a current reading between local and UTC, and shifting a local reading by the elapsed time, give the same instant as reading the clock; so do the text of the current time (local text in standard time) and its date parts.",
 ["schedules","inputs","histories"],
 "every clock position (second, day, month and daylight-saving boundaries), clock advance between any two clock reads, time zone",
 "Tests print the current time once; the window between two clock reads is microseconds wide.",
 [TM,"src/utils_time.h"],
 [("now","src/utils_time.cpp DateTime::LocalTime, UTCTime, ToLocalTime, ToUTCTime, Forward, Backward"),("elapsed","src/utils_time.cpp TimeCounting"),("text","src/utils_time.cpp ConvertToString2, ConvertToString3, ConvertToTime, GetDateInfoFromTimet")],
 [("clock","wall clock sampled during the call","simulated clock")],
 ["fields of the returned date-time; elapsed value"])

prop("C21","Array allocation failure is reported, contained and leak-free",
 "When memory runs out while creating or copying a one- or two-dimensional array, the call reports failure, leaves no dangling or half-built array behind, releases whatever it had allocated and leaves the source data untouched. Without allocation failure every element has the requested or copied value, and releasing returns all memory exactly once.",
 ["fault_sequences","inputs"],
 "every element type, shape and initial data, every allocation that may fail",
 "Tests never make an allocation fail nor account for memory.",
 [ARR],
 [("init and release","src/utils_array.h Initialize1DArray, Initialize2DArray, Release1DArray, Release2DArray")],
 [("array storage","pointer table and element pool",ARR)],
 ["return value, pointer, elements, outstanding allocations"])

prop("C22","The raster conversion tool exits with success only if its outputs are right",
 "When the mask/convert command-line tool exits with status zero, every output it was asked for exists and holds the input masked by the given mask (with default values and reclassification applied). When an input, mask or output cannot be read or written, it exits non-zero. It never crashes, whatever the arguments and disk faults.",
 ["inputs","fault_sequences","configurations"],
 "every argument combination, input/mask content and disk fault during the run",
 "The tool has no tests at all.",
 ["apps/mask_rasterio.cpp",R],
 [("tool","apps/mask_rasterio.cpp main")],
 [("outputs","files written","simulated disk")],
 ["exit status and files"])

prop("C23","Raster objects stay memory-safe and consistent over any lifecycle",
 "For every history of building, copying, assigning, masking, sharing a mask, sub-setting, updating, reclassifying and deleting raster objects in any order their documented lifetime rules allow, no memory is read after release, released twice, read uninitialised or leaked. A copy equals its source and stays unchanged when the source is modified or deleted. Reported counts, extents, statistics and cells always agree with each other.",
 ["histories","inputs","fault_sequences"],
 "every operation history over a small pool of rasters and masks",
 "Tests use fixed short histories and delete in one order.",
 [R,RC],
 [("ownership","src/data_raster.hpp Copy, assignment, destructor, SetPositions, ReleaseMaskPosition"),("subsets","src/data_raster.cpp SubsetPositions")],
 [("ownership flags","who frees the position arrays",R)],
 ["sanitizer reports, cell values, counts and statistics after each step"])

prop("C24","Pure text, number and calendar helpers",
 "Splitting, trimming and case conversion of strings, number recognition and parsing, date arithmetic, elementary math helpers and IP address validation return the documented value for every input.",
 ["inputs"],
 "every input value",
 "Tests sample some inputs.",
 [ST,"src/utils_time.cpp","src/utils_math.cpp","src/basic.cpp"],
 [("helpers","src/utils_string.cpp, src/utils_time.cpp, src/utils_math.cpp, src/basic.cpp isIPAddress")],
 [],
 ["return value"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
