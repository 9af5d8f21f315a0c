def P(id, title, statement, over, text, why, files, mech, note="", tech=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, tech=tech)
SIM = "Sampling, not proof: evidence for the seeds explored. Trusts the simulator's models of pthread, futex, the heap and the disk, and gcc's instrumentation; "
PROPS = [
P("R01", "Multi-threaded rendering is bit-identical to synchronous rendering",
  "For every sequence of drawing operations, every target format and size, every number of worker threads and every thread schedule, an asynchronous rendering context leaves exactly the same pixels in the target image, after each synchronising flush and after end(), as a synchronous context given the same operations. This holds also when worker threads cannot be created, when the command queue limit forces intermediate batches, and when waits are interrupted or wake spuriously.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all operation sequences the reference pipelines support x thread counts 1..33 x schedules x thread-creation failures, spurious wakeups, EINTR, stalls",
  "The repository's multi-threaded context tests run a few fixed workloads under whatever interleaving the OS gives; a lost edge, a wrongly shared state, a stale clip or an unsynchronised band shows only for particular operation orders, batch boundaries and interleavings.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/renderbatch_p.h", "blend2d/raster/renderjobproc_p.h", "blend2d/raster/rendercommandprocasync_p.h", "blend2d/raster/rendercommandprocsync_p.h", "blend2d/raster/workerproc.cpp", "blend2d/raster/workermanager.cpp", "blend2d/raster/workersynchronization.cpp", "blend2d/raster/edgebuilder_p.h", "blend2d/support/arenaallocator_p.h"],
  [("commands, jobs and bands are consumed through atomic counters", "blend2d/raster/workerproc.cpp"), ("job/band barriers", "blend2d/raster/workersynchronization.cpp"), ("shared states are retained per job", "blend2d/raster/rastercontext.cpp")],
  note=SIM + "reference (non-JIT) pipelines only."),
P("R02", "Rendering contexts always make progress and never disturb each other",
  "Whatever the schedule, and whether or not threads can be created, waits are interrupted or time out early, every call of an asynchronous rendering context (drawing, flush, end, reset, destruction, re-begin) returns and produces the right pixels. Contexts used by different threads at the same time share the thread pool and the library's caches without any data race, deadlock or influence on each other's result, also while another thread runs bl_runtime_cleanup(). When all contexts are gone, no worker thread stays busy and an idle thread pool can be shut down completely.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "1-4 user threads x sequences of contexts (sync, async, isolated pool, 1-33 threads) x ways of ending them x concurrent cleanups x thread-creation failures, spurious wakeups, EINTR, early timeouts, stalls",
  "Deadlock, lost wakeups and races between contexts need particular interleavings of several user threads, pool workers and a cleanup; the tests use one user thread and healthy threads.",
  ["blend2d/raster/workermanager.cpp", "blend2d/raster/workersynchronization.cpp", "blend2d/raster/workerproc.cpp", "blend2d/threading/threadpool.cpp", "blend2d/threading/thread.cpp", "blend2d/threading/futex_p.h", "blend2d/raster/rastercontext.cpp"],
  [("threads are acquired from and returned to the pool", "blend2d/threading/threadpool.cpp"), ("job and band barriers", "blend2d/raster/workersynchronization.cpp"), ("worker main loop", "blend2d/threading/thread.cpp")],
  note=SIM + "progress means: within a bounded number of simulated events."),
P("R03", "Asynchronous contexts capture their arguments and release them when they end",
  "Everything passed to a drawing or state-setting call of an asynchronous context (paths, gradients, patterns, images, masks, fonts, glyph runs, text, arrays) is captured when the call returns: changing or destroying it afterwards never changes what is drawn and never makes a worker touch freed memory. Other references to the target image or to the arguments are never modified, and after end() every reference taken is released exactly once, so that user-owned pixel memory is handed back through its destroy function exactly once.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all operation sequences x mutation or destruction of each argument right after the call x thread counts x schedules",
  "A missing or doubled retain shows only when the argument is dropped while a worker has not processed the command yet, for one particular kind of call; the tests keep their arguments alive.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/rendercommand_p.h", "blend2d/raster/renderjob_p.h", "blend2d/raster/renderfetchdata_p.h", "blend2d/raster/workermanager_p.h", "blend2d/core/image.cpp", "blend2d/core/object.cpp"],
  [("fetch data is retained per command and released per batch", "blend2d/raster/rastercontext.cpp"), ("jobs own copies of geometry and text", "blend2d/raster/renderjob_p.h")],
  note=SIM + "a leak is memory of the simulated heap still allocated after end() and cleanup."),
P("R04", "Running out of memory while rendering is reported and leaves no damage",
  "When any memory allocation or thread creation fails while a rendering context is created or used, the failure is reported by begin(), by the call, by flush() or end(), or by the accumulated error flags, or else the pixels are exactly what they would have been. No failure crashes, hangs, leaks, writes outside the target or uses freed memory, and the same operations on a new context give exactly the right pixels once memory is available again.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "each single allocation of random workloads, all allocations from one on, random subsets x sync and async contexts x schedules",
  "No test makes an allocation fail, and the error paths interact with state (edge lists, rasterizer cells, reference counts) that only later operations reveal.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/workdata.cpp", "blend2d/raster/workdata_p.h", "blend2d/raster/edgebuilder_p.h", "blend2d/raster/edgestorage_p.h", "blend2d/raster/renderjobproc_p.h", "blend2d/raster/rendercommandprocasync_p.h", "blend2d/raster/rendercommandprocsync_p.h", "blend2d/raster/workermanager.cpp", "blend2d/support/arenaallocator.cpp", "blend2d/support/zeroallocator.cpp"],
  [("errors of deferred work are accumulated", "blend2d/raster/workdata.cpp"), ("edge builder is reverted on failure", "blend2d/raster/workdata_p.h")],
  note=SIM),
P("F01", "File access is exact or reports failure under every I/O fault",
  "Reading, writing, seeking, truncating and querying files through BLFile and BLFileSystem, and whole-file helpers built on them (reading files into arrays with or without memory mapping, writing images, loading images and fonts from files), either do exactly what they promise or return an error without any fault-free call ever failing. This holds when the operating system returns short counts, EINTR, EIO, ENOSPC, or fails to open, seek, stat, map or close; the reported number of bytes is always the number transferred, bytes outside the request are never touched, and no descriptor, mapping or memory is leaked.",
  ["fault_sequences", "histories", "inputs"],
  "random sequences of file operations on up to 3 handles and 4 files x every fault kind at every opportunity",
  "Short transfers, EINTR and I/O errors practically never happen on the machine that runs the tests.",
  ["blend2d/core/filesystem.cpp", "blend2d/core/filesystem_p.h", "blend2d/core/image.cpp", "blend2d/core/fontdata.cpp", "blend2d/core/fontface.cpp"],
  [("read/write loops", "blend2d/core/filesystem.cpp"), ("memory mapping with fallback", "blend2d/core/filesystem.cpp")],
  note=SIM + "reference model of files; the simulated disk stands for the kernel."),
P("M01", "An operation that runs out of memory leaves every object as it was",
  "For every object type of the public API (arrays, strings, paths, gradients, images, patterns, bit sets, bit arrays, stroke options, font settings, variants, fonts), whatever its history and whether its content is shared, inline or external, a modification either succeeds completely or returns an error and leaves the object unchanged; retrying it once memory is available gives the same result as on an object that never failed. Objects sharing content with the modified one never change. Every allocation, retained item and external buffer is released exactly once.",
  ["fault_sequences", "histories", "inputs"],
  "random histories of up to 24 modifications of every object kind x each single allocation failing and all allocations from one on",
  "No test makes an allocation fail, and whether content is shared, inline, external or has spare capacity selects different code in nearly every function.",
  ["blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/image.cpp", "blend2d/core/imagescale.cpp", "blend2d/core/pattern.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/bitset.cpp", "blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp", "blend2d/core/var.cpp", "blend2d/core/font.cpp", "blend2d/core/object.cpp"],
  [("a new implementation is built completely before it replaces the old one", "blend2d/core/array.cpp"), ("mutability is decided by the reference count", "blend2d/core/object_p.h")],
  note=SIM + "single thread."),
P("T01", "One object may be queried by many threads at the same time",
  "Any number of threads may call const functions of the same object of any type at the same time (reading content, bounding boxes, hit tests, comparisons, searches, copying, encoding, scaling, drawing with it, shaping text, glyph outlines, font tables), including the first use of lazily computed parts. Each call gives the result it gives when one thread uses an identical object alone; there is no data race, the object does not change and nothing leaks, even if allocations fail meanwhile.",
  ["schedules", "inputs", "fault_sequences"],
  "2-5 threads x random queries of 1-3 shared objects of every kind x schedules x failing allocations x concurrent bl_runtime_cleanup()",
  "Lazy caches (path info, gradient tables, cardinality, font features, images encoders) are written behind const functions; races on them need two threads inside a window of a few instructions and mostly do no visible harm on x86.",
  ["blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/pattern.cpp", "blend2d/core/bitset.cpp", "blend2d/core/object_p.h", "blend2d/core/fontface.cpp", "blend2d/opentype/otface.cpp", "blend2d/core/imagecodec.cpp"],
  [("path info computed on first use", "blend2d/core/path.cpp"), ("gradient lookup tables", "blend2d/core/gradient.cpp"), ("content published atomically", "blend2d/core/object.cpp")],
  note=SIM),
P("T02", "Objects sharing content never influence each other across threads",
  "Copies of an object share their content, but each thread may modify, copy, move, reset, query and exchange its own copies without any locking: every operation gives the result and content it gives on an object nobody shares. Copies nobody touches never change, there is no data race, and whatever the order in which the threads drop their copies, the shared content is destroyed exactly once and external memory is handed back exactly once.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "2-4 threads x histories of up to 14 operations on copies of 1-3 objects of every kind x exchange through mailboxes x schedules x failing allocations",
  "Deciding whether content may be modified in place from a reference count which other threads change concurrently goes wrong only for particular interleavings; the tests use one thread.",
  ["blend2d/core/object.cpp", "blend2d/core/object_p.h", "blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/image.cpp", "blend2d/core/pattern.cpp", "blend2d/core/bitset.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/var.cpp"],
  [("reference counting", "blend2d/core/object_p.h"), ("mutability is decided by the reference count", "blend2d/core/object_p.h")],
  note=SIM),
P("F02", "Image decoding gives the exact pixels or an error, whatever the file holds",
  "Every intact PNG, APNG, JPEG, BMP and QOI file decodes to its pixels, frame by frame, from memory or through the file system; it is refused only when an I/O call or an allocation failed meanwhile. A damaged file (corrupted, truncated, torn by a crash, spliced) gives an error or a valid image and the same outcome each time: decoding never reads or writes outside the objects involved, never depends on what memory contained before, never hangs and never leaks. A decoder that failed decodes an intact file exactly after restart().",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "generated files of every codec and kind x damage (bit flips, extreme fields, lost or torn sectors, cuts, splices) x crash points x I/O faults x failing allocations",
  "The tests decode a few intact images; decoder errors hide behind particular stream structures (block kinds, code shapes, scan scripts, interlacing) and damage, and uninitialised memory mostly happens to be zero.",
  ["blend2d/codec/pngcodec.cpp", "blend2d/codec/jpegcodec.cpp", "blend2d/codec/jpeghuffman.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/compression/deflatedecoder.cpp", "blend2d/compression/deflatedecoderfastimpl_p.h", "blend2d/core/imagedecoder.cpp", "blend2d/core/image.cpp", "blend2d/support/scopedbuffer_p.h"],
  [("all sizes and offsets of a file are validated before use", "blend2d/codec/pngcodec.cpp"), ("fast loops are entered only with enough input and output", "blend2d/compression/deflatedecoder.cpp")],
  note=SIM + "AddressSanitizer build; scalar and SSE2 code of the shipped build only; checksums are not verified by the library."),
P("C01", "Containers behave as the plain values they stand for",
  "Arrays, strings, bit arrays, bit sets, paths, gradients, images, patterns, variants, glyph buffers and font feature and variation settings always equal the plain value their history of operations describes: every content accessor, search, comparison, range query and derived value (bounding boxes, cardinality, hit tests, conversions, scaling, rendering) agrees with a simple model (conic segments excepted). This holds for every history of modifications, copies, moves and swaps, whatever storage is in use (inline, dynamic, shared, external, reserved), for arguments that refer to the object itself, for arguments out of range, and after allocations failed. Refused or failed operations change nothing.",
  ["histories", "inputs", "fault_sequences"],
  "histories of up to 60 operations on three objects of one type that copy from each other x random arguments x failing allocations",
  "Which code an operation runs depends on the representation left behind by all operations before it (inline, dense, ranges, shared, external, capacity); unit tests sample a few short histories of one object.",
  ["blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/bitset.cpp", "blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/image.cpp", "blend2d/core/pattern.cpp", "blend2d/core/var.cpp", "blend2d/core/object.h", "blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp", "blend2d/core/glyphbuffer.cpp", "blend2d/core/glyphbuffer_p.h", "blend2d/unicode/unicode_p.h"],
  [("inline and dynamic storage", "blend2d/core/object_p.h"), ("dense and inline representations of a bit set", "blend2d/core/bitset.cpp"), ("path information derived on first use", "blend2d/core/path.cpp")],
  note=SIM + "single thread; AddressSanitizer build."),
P("F03", "Fonts give their glyphs or an error, whatever the file holds",
  "Every intact OpenType font (glyf or CFF, single or in a collection) gives the characters, advances, kerning, glyph substitutions and positions, outlines, CFF glyph bounds and names stored in it, from memory or through the file system; a face or an answer is refused only when an I/O call or an allocation failed meanwhile, and asking again afterwards gives the exact answer. A damaged font gives errors or some glyphs and the same outcome each time: loading, mapping, shaping, positioning, substitution, outlines and text rendering never read or write outside the objects involved, never depend on what memory contained before, never hang and never leak. An outline request that failed leaves the path as it was.",
  ["inputs", "fault_sequences"],
  "generated fonts (all supported cmap, kern, glyf, CFF, GSUB and GPOS kinds) and real ones x damage of tables x I/O faults x failing allocations x texts",
  "The tests load a few intact fonts; validation of offsets and counts goes wrong only for particular damage, and what lies behind a truncated table is mostly readable memory.",
  ["blend2d/core/font.cpp", "blend2d/core/fontdata.cpp", "blend2d/core/fontface.cpp", "blend2d/core/glyphbuffer.cpp", "blend2d/opentype/otcff.cpp", "blend2d/opentype/otcmap.cpp", "blend2d/opentype/otface.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otkern.cpp", "blend2d/opentype/otlayout.cpp", "blend2d/opentype/otmetrics.cpp", "blend2d/opentype/otname.cpp"],
  [("tables are validated when a face is created or before each use", "blend2d/opentype/otface.cpp"), ("layout lookups are validated before their first use", "blend2d/opentype/otlayout.cpp")],
  note=SIM + "AddressSanitizer build; GSUB and GPOS: lookups of types 1 to 4 and 8 resp. 1 and 2 with one subtable and no flags are compared with a model, others with the result without faults."),
P("F04", "What an encoder writes decodes to the same pixels, or nothing is written",
  "Every image (any format, size, stride and content) written as PNG with any compression level, as BMP or as QOI gives a well-formed file (sizes, checksums, padding) that decodes to exactly the same pixels; its bytes depend on nothing but the pixels and the compression level. Encoding fails only when an I/O call or an allocation failed or the image is empty; then array, encoder and image are as before and encoding can be repeated. This holds whatever the encoder and the array were used for before; nothing outside the pixels is read and nothing outside the buffers is written. (The PNG encoder appends to the array, the others replace its content.)",
  ["inputs", "histories", "fault_sequences"],
  "histories of up to 14 encodings on two images, two arrays and three encoders x random content x allocation failures x I/O faults",
  "The round-trip tests use a few sizes of own, dense images of two formats, fresh encoders and arrays and no failures.",
  ["blend2d/codec/pngcodec.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/compression/deflateencoder.cpp", "blend2d/core/imageencoder.cpp", "blend2d/core/image.cpp", "blend2d/core/pixelconverter.cpp"],
  [("output is reserved for the worst case before anything is written", "blend2d/codec/pngcodec.cpp"), ("padding of lines is written as zero", "blend2d/codec/bmpcodec.cpp")],
  note=SIM + "AddressSanitizer build."),
P("R05", "A rendering context is in the state its operations say, and draws with it",
  "After any history of state operations (composition operator, hints, approximation, alphas, fill and stroke styles, style swaps, stroke options, transforms, clipping, save and restore with and without cookies, begin, end, reset and move) every getter of a rendering context returns exactly what the history implies, and drawing gives the same pixels as a fresh context put directly into that state. An operation that is refused (invalid argument or slot, no matching saved state, limits) or runs out of memory reports it and changes nothing. This holds for synchronous and asynchronous contexts, contexts begun again, and whatever happens later to objects passed as styles or options; nothing stays allocated.",
  ["histories", "inputs", "configurations", "schedules", "fault_sequences"],
  "histories of up to 70 operations in 1 to 3 begin/end rounds x context configurations x schedules x failing allocations",
  "The state is spread over packed flags, lazily saved copies and cached derived values; mistakes show up only after particular combinations of save, restore, swap, clip and style changes that unit tests do not walk through.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/rastercontext_p.h", "blend2d/raster/rendercommandprocsync_p.h", "blend2d/raster/renderfetchdata.cpp", "blend2d/raster/statedata_p.h", "blend2d/core/context.cpp"],
  [("saved states copy lazily what changes later", "blend2d/raster/rastercontext.cpp"), ("flags cache derived state of styles, alphas and clips", "blend2d/raster/rastercontext_p.h")],
  note=SIM + "reference model of the state; exactness of the drawn pixels is relative to a fresh synchronous context."),
P("R06", "Rendering changes nothing but the target's pixels and needs nothing else",
  "A rendering context changes only pixels of its target image that lie within its clipping: bytes between and around the rows, pixels outside the clip, source images, masks and read-only pixel memory stay as they are. What it draws depends on nothing but the operations and the pixels of the images used: not on the stride (also negative), alignment, position or owner of their memory, bytes around the rows, the unused byte of XRGB32 pixels, what the heap contains, or what the context was used for before. This holds for synchronous and asynchronous contexts under every schedule; memory owned by the user is drawn into in place and handed back exactly once.",
  ["inputs", "configurations", "schedules", "histories", "fault_sequences"],
  "random operation lists x layouts of the target, the sources and the masks x clip rectangles x schedules x thread-creation failures",
  "The tests draw into images the library allocated itself, with tight rows and clean memory; what lies around the pixels is never looked at.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/rendercommandprocsync_p.h", "blend2d/raster/rendercommandprocasync_p.h", "blend2d/pipeline/reference/fillgeneric_p.h", "blend2d/pipeline/reference/fetchgeneric_p.h", "blend2d/pipeline/pipedefs.cpp", "blend2d/core/image.cpp"],
  [("clip boxes limit every fill", "blend2d/raster/rastercontext.cpp"), ("fetchers address pixels by stride and wrap at the area of the pattern", "blend2d/pipeline/reference/fetchgeneric_p.h")],
  note=SIM + "exactness is relative to a synchronous context drawing into an ordinary image."),
P("T05", "Registries shared by threads act atomically; identities are unique",
  "Font managers and the list of built-in codecs can be used by any number of threads without other synchronisation: every history of calls (add, remove, has, counts, list, find, query) has an order, consistent with real time, in which a sequential registry gives the same results; results stay valid and unchanged afterwards; a call that runs out of memory changes nothing. Contexts, cookies and font faces get identities no other gets, whichever thread creates them, so a cookie of another context is always refused.",
  ["schedules", "histories", "fault_sequences"],
  "2 to 5 threads x histories of up to 60 calls x schedules x failing allocations",
  "The tests call these registries from one thread; a lookup before the lock, a result taken after it or an overlapping block of ids shows only under a particular interleaving.",
  ["blend2d/core/fontmanager.cpp", "blend2d/core/fontmanager_p.h", "blend2d/core/imagecodec.cpp", "blend2d/threading/uniqueidgenerator.cpp", "blend2d/threading/mutex_p.h", "blend2d/support/arenahashmap.cpp"],
  [("reader-writer lock of each font manager", "blend2d/core/fontmanager.cpp"), ("reader-writer lock of the codec list", "blend2d/core/imagecodec.cpp"), ("thread local blocks of unique ids", "blend2d/threading/uniqueidgenerator.cpp")],
  note=SIM + "sequential models; linearizability decided by a Wing and Gong search over each recorded history."),
P("L01", "The runtime can be cleaned up, shut down and initialised again",
  "Calls to bl_runtime_init() and bl_runtime_shutdown() nest. When the last shutdown returns while nothing of the library is used, its worker threads have stopped using the library's state, no thread and no memory of it is left, and it can be initialised again at once; everything (rendering, codecs, the list of built-in codecs, font managers) then works as before. bl_runtime_cleanup() can be called at any moment by any thread without disturbing anybody; when nothing is in use the zeroed memory reported by bl_runtime_query_info() is not used, and a cleanup gives it back.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "1 to 4 cycles of init, nested init, work by 1 to 3 threads, cleanups and shutdown x schedules x failing thread creation, spurious wakeups, early timeouts and stalls",
  "The tests never shut the runtime down while workers exist and never initialise it again; whether a worker is still inside the pool when shutdown returns depends on the schedule.",
  ["blend2d/core/runtime.cpp", "blend2d/core/runtime_p.h", "blend2d/threading/threadpool.cpp", "blend2d/threading/thread.cpp", "blend2d/support/zeroallocator.cpp", "blend2d/core/imagecodec.cpp"],
  [("handlers called in reverse order by the last shutdown", "blend2d/core/runtime.cpp"), ("quitting threads counted under the mutex of the pool", "blend2d/threading/threadpool.cpp"), ("blocks of zeroed memory", "blend2d/support/zeroallocator.cpp")],
  note=SIM + "a thread that is stalled longer than the shutdown waits may outlive it, as documented by the code."),
P("N01", "Compositing and colour conversion follow their formulas",
  "Every supported compositing operator, alpha, gradient colour, pattern sample and pixel format conversion gives the value its definition says within the documented rounding.",
  ["inputs"], "every pixel value x operator x format",
  "The input space is large.",
  ["blend2d/pipeline/reference", "blend2d/core/pixelconverter.cpp"],
  [("reference pipelines", "blend2d/pipeline/reference")]),
P("N02", "Path and stroke geometry is accurate",
  "Flattening, stroking, dashing, curve splitting, transformations and polygon coverage approximate the ideal geometry within the chosen tolerance for every finite input.",
  ["inputs"], "every path x transformation x approximation options",
  "Numerical errors appear for rare shapes.",
  ["blend2d/core/pathstroke.cpp", "blend2d/core/path.cpp", "blend2d/geometry", "blend2d/raster/edgebuilder_p.h", "blend2d/raster/analyticrasterizer_p.h"],
  [("flattening and rasterisation", "blend2d/raster/edgebuilder_p.h")]),
P("N03", "Optimised and portable implementations agree",
  "Every SIMD variant of a routine selected for the CPU at run time and every JIT compiled pipeline gives the result of the portable implementation.",
  ["inputs", "configurations"], "every routine x CPU feature set x input",
  "Tests run on one CPU.",
  ["blend2d/opentype", "blend2d/codec", "blend2d/pixelops", "blend2d/pipeline/jit"],
  [("run time dispatch", "blend2d/core/runtime.cpp")]),
]
NA = {
  "N01": "Pure functions of their arguments: no schedule, time, I/O, memory or history can influence them, so simulation and fault injection have nothing to decide. (That drawing does not depend on those is R01 to R05.)",
  "N02": "Pure functions of their arguments; deciding accuracy needs numerical analysis, not simulation. (Histories of path objects are C01.)",
  "N03": "Equivalence of pure functions; the JIT is not part of the configuration that builds here. (Where a variant can be selected through the public interface F03 draws one of three per run.)",
}
