import json
P=[]
def p(id,title,st,over,q,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
DISP=["src/scaler.rs","src/threading_policy.rs","src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs","src/dispatch_group_f16.rs","src/dispatch_group_ar30.rs"]
p("P01","Threading policy and scheduling never change the picture",
 "For any well-formed resize request, the visible destination pixels are bit-identical whichever threading policy is selected (single, adaptive, or any fixed thread count), whatever number of CPUs the machine reports, and however the operating system interleaves the worker threads.",
 ["schedules","configurations","inputs"],"every well-formed request x every policy x every reported CPU count x every interleaving of the worker threads",
 "The unit tests run one policy at a time under whatever schedule the machine happens to produce and never compare policies; work is split by rows in groups of four with remainder rows handled separately, so mistakes hide in row counts and interleavings that no test samples.",
 DISP+["src/nearest_sampler.rs","src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs","src/alpha_handle_f16.rs"],
 [("row-group parallel dispatch","src/dispatch_group_*.rs"),("pool construction from policy and destination size","src/threading_policy.rs"),("parallel alpha association","src/alpha_handle_*.rs")])
p("P02","Requests are independent of one another",
 "The result of a resize depends only on its own source, destination geometry and options: not on requests executed before it, concurrently with it, or nested inside the caller's own thread pool, not on scalers or source images shared between threads, and not on earlier requests that failed. Repeating a request, or reconfiguring a scaler and using it again, gives exactly what a fresh scaler with those settings gives on its own.",
 ["histories","schedules"],"every history of requests issued by any number of clients over shared or private scalers and sources, in every interleaving",
 "Tests issue one request at a time on a private scaler; leakage through shared state, cached tables, reused scratch memory or thread pools only shows in particular sequences or overlaps of different requests.",
 ["src/scaler.rs","src/threading_policy.rs","src/image_store.rs","src/colors/"],
 [("scaler shared by reference, pool per call","src/scaler.rs"),("global pool used by colour conversion","src/colors/*.rs")])
p("P03","A resize touches only the pixels it was asked to produce",
 "A resize reads only the visible source image and writes only visible destination pixels: the source, the row padding of the destination, and all memory outside the two buffers are left exactly as they were and are never read, and every visible destination pixel is written whatever it held before. This holds for every stride, padding and alignment of the two buffers, and uninitialised or stale scratch memory or destination content never influences the result.",
 ["inputs","schedules","fault_sequences"],"every geometry, stride, padding, buffer placement (including directly before an unmapped page), stale memory contents and thread interleaving",
 "SIMD kernels read and write past logical row ends only for particular widths, and ordinary allocators hide it: the unit tests allocate tightly packed zeroed buffers with mapped memory behind them and only look at visible pixels.",
 ["src/sse/","src/avx2/","src/avx512/","src/image_store.rs","src/scaler.rs"],
 [("unchecked SIMD loads and stores","src/sse, src/avx2, src/avx512"),("row splitting by stride","src/dispatch_group_*.rs")])
p("P04","Malformed requests are refused cleanly, valid ones never are",
 "A request whose dimensions are zero, whose buffer lengths do not match the declared geometry, whose row stride is shorter than a row, whose dimensions are absurdly large, or whose bit depth is unsupported is answered with an error: no panic, no abort, and no byte of the destination changed. Every well-formed request is accepted and completes, also when it follows or runs beside refused ones.",
 ["inputs","histories"],"every malformed or well-formed request at every position of every history",
 "Tests only submit well-formed requests; the refusal paths differ per pixel format and per scaler and are never executed by the test suite.",
 ["src/image_store.rs","src/scaler.rs","src/resize_ar30.rs","src/pic_scale_error.rs","src/colors/"],
 [("store validation","src/image_store.rs validate"),("per-format guards","src/scaler.rs")])
ACC="within a small number of quantisation steps of the mathematically ideal result of resampling first vertically and then horizontally with the selected filter, taking for every output position the filter's own number of source samples around that position (those inside the image) with normalised weights"
p("P05","8-bit images are resampled accurately",
 "For 8-bit images with one to four channels, every visible destination component is "+ACC+", for every filter, size, scale ratio and workload strategy; results saturate at 0 and 255 instead of wrapping, flat images stay flat to within the same steps, and channels never leak into each other. Allowed on top: the rounding of filter weights to 16 bits and, when speed is preferred over quality, under one percent of the value.",
 ["inputs","schedules","configurations"],"every 8-bit request x policy x schedule",
 "Unit tests check flat-colour images at a few sizes; errors in the remainder handling of SIMD kernels, in rounding and saturation, or in which rows or columns feed a pixel appear only for particular widths, tap counts and contents.",
 ["src/scaler.rs","src/plane_u8.rs","src/cbcr8.rs","src/rgb_u8.rs","src/rgba_u8.rs","src/dispatch_group_u8.rs","src/filter_weights.rs"],
 [("fixed-point separable convolution","src/dispatch_group_u8.rs"),("weight generation","src/scaler.rs generate_weights")])
p("P06","9- to 16-bit images are resampled accurately and stay in range",
 "For images stored in 16-bit words with a declared depth of 8 to 16 bits and one to four channels, every visible destination component is "+ACC+", and no component ever exceeds the maximum value of the declared bit depth. Up to 12 bits the rounding of filter weights to 16 bits is allowed on top.",
 ["inputs","schedules","configurations"],"every 16-bit-storage request x bit depth x policy x schedule",
 "The tests sample one or two bit depths on flat images; the code switches between several fixed-point and floating kernels by bit depth, width and tap count.",
 ["src/scaler.rs","src/plane_u16.rs","src/cbcr16.rs","src/rgb_u16.rs","src/rgba_u16.rs","src/dispatch_group_u16.rs"],
 [("depth-dependent kernels","src/dispatch_group_u16.rs")])
p("P07","Floating-point images are resampled accurately",
 "For single- and half-precision floating-point images with one to four channels, every visible destination component equals the ideal separable resampling with the selected filter up to rounding error of the storage format; values outside 0..1 and negative values are preserved, not clamped.",
 ["inputs","schedules","configurations"],"every float request x policy x schedule",
 "Tests use flat images and a handful of sizes; float kernels have separate paths per tap count, row group and CPU.",
 ["src/plane_f32.rs","src/rgb_f32.rs","src/rgba_f32.rs","src/f16.rs","src/cbcr_f32.rs","src/scaler_f16.rs","src/dispatch_group_f32.rs","src/dispatch_group_f16.rs"],
 [("float convolution","src/dispatch_group_f32.rs, src/dispatch_group_f16.rs")])
p("P08","Packed 10-bit images are resampled accurately",
 "For images packed as 2 alpha and three 10-bit colour bits per pixel, in either component layout and either byte order, every colour component of every destination pixel is within a small number of steps of the ideal separable resampling, with rows located by the given strides.",
 ["inputs","schedules","configurations"],"every packed-pixel request x layout x byte order x stride x policy x schedule",
 "Tests resize flat images in one layout; packing, byte order and row-stride handling interact with the row grouping used by worker threads.",
 ["src/resize_ar30.rs","src/dispatch_group_ar30.rs","src/scaler.rs"],
 [("unpack-convolve-pack kernels","src/dispatch_group_ar30.rs")])
p("P09","Alpha-aware resizing weights colour by coverage",
 "When alpha handling is requested for a four-channel image, the result equals associating colour with alpha, resampling, and dissociating again: alpha itself is resampled like any channel, the colour of transparent pixels has no influence on visible ones, and no colour exceeds the format's maximum. When alpha handling is not requested the four channels are resampled independently.",
 ["inputs","schedules","configurations"],"every four-channel request in every pixel format with alpha handling on or off x policy x schedule",
 "Tests use opaque or uniform alpha; the association and dissociation passes are separate parallel stages with their own remainder handling, shortcuts for constant alpha and per-format arithmetic.",
 ["src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs","src/alpha_handle_f16.rs","src/alpha_check.rs","src/scaler.rs"],
 [("association and dissociation","src/alpha_handle_*.rs"),("constant-alpha shortcut","src/alpha_check.rs")])
p("P10","Colour-space scalers resample in their own space",
 "Each colour-space scaler gives, up to rounding, the picture obtained by converting the source into that colour space, resampling there with the selected filter, and converting back, for RGB and RGBA images and any row padding; an alpha channel is resampled like an ordinary channel.",
 ["inputs","schedules","configurations"],"every request to a colour-space scaler x policy x schedule",
 "The tests exercise only few of these scalers on flat images, where converting in the wrong space is invisible.",
 ["src/colors/"],[("convert-resize-convert pipelines","src/colors/*.rs")])
p("P11","Nearest sampling copies pixels and same-size resizing is exact",
 "With the nearest filter every destination pixel is a bit-exact copy of the source pixel whose centre is closest under the scale mapping (either of them on a tie), and resizing to the same dimensions reproduces every visible pixel exactly, for every pixel format, stride, layout and threading policy.",
 ["inputs","schedules","configurations"],"every nearest or same-size request x format x stride x policy x schedule",
 "No test covers strides, the threaded path, or most pixel formats of these two shortcuts.",
 ["src/nearest_sampler.rs","src/scaler.rs","src/resize_ar30.rs","src/image_store.rs"],
 [("nearest sampler","src/nearest_sampler.rs"),("same-size copy","src/scaler.rs")])
p("P12","Resizing survives refused threads",
 "If the operating system refuses to create some or all worker threads, or reports any number of CPUs or cannot tell, a well-formed resize still completes and produces exactly the single-threaded picture, without panicking; later requests behave normally.",
 ["fault_sequences","schedules"],"thread creation failing at any attempt in any request of any history, for every policy and reported CPU count",
 "Thread creation never fails in the test environment, so the fallback from a refused pool is never executed.",
 ["src/threading_policy.rs","src/scaler.rs"],[("pool fallback","src/threading_policy.rs get_pool")])
p("P13","Running out of memory harms only the request it hits",
 "If a memory allocation fails at any point of a resize and the failure is turned into a panic, that call either finishes correctly or unwinds: it never reports success with a wrong picture, never deadlocks, never writes outside the visible destination or into the source, and leaves no worker thread behind. Concurrent and later requests still produce exactly correct results.",
 ["fault_sequences","schedules","crash_points"],"failure of the k-th allocation, for every k, on whichever thread performs it, in any history and interleaving",
 "Allocations never fail in tests; half-finished requests unwinding through worker threads while others run are unreachable for example-based tests.",
 ["src/scaler.rs","src/threading_policy.rs","src/image_store.rs","src/alpha_handle_u8.rs"],
 [("scratch images and weights","src/scaler.rs, src/filter_weights.rs")])
p("P14","Every request finishes and leaves nothing behind",
 "Every request completes in a bounded number of scheduler steps under any fair schedule, with no deadlock, also when many requests overlap or run inside the caller's own thread pool. It uses no worker thread when single-threading is selected and never more than the selected number (or the number of CPUs when adaptive), all worker threads it started end after it returns, and repeating requests does not accumulate memory.",
 ["schedules","histories","fault_sequences"],"every history and every fair schedule",
 "Thread counts, termination of workers and memory growth are not observed by any test, and hangs depend on rare interleavings.",
 ["src/threading_policy.rs","src/scaler.rs","src/nearest_sampler.rs","src/alpha_handle_u16.rs"],
 [("pool lifetime per call","src/scaler.rs"),("thread count selection","src/threading_policy.rs")])
p("P15","Results are right on every supported CPU generation",
 "On every x86-64 CPU feature level, from baseline SSE2 up to AVX-512, each request gives a picture within the same accuracy bounds, the same accept/refuse decision and the same confinement to its buffers, and only executes instructions the CPU reports as available.",
 ["configurations","inputs","schedules"],"every combination of request, CPU model (feature set as real CPUs combine them), policy and schedule",
 "Tests run only on the build machine's CPU, so kernels chosen for other CPUs are never executed.",
 ["src/sse/","src/avx2/","src/avx512/","src/plane_u8.rs","src/rgba_u8.rs","src/rgb_u8.rs","src/alpha_handle_u8.rs"],
 [("runtime dispatch on CPU features","is_x86_feature_detected! in src/*.rs")])
p("P16","Work and memory grow in proportion to the pictures",
 "What a request costs is in proportion to what it has to do: the work it executes and the memory it asks for and holds at once stay within a constant factor of its pixels (source, destination and the picture between the two passes) and filter taps, and making both pictures twice as long along an axis no more than doubles them, apart from a fixed start-up cost per request and worker thread. The stack a request uses on any thread stays below 256 KiB whatever the size. This holds for every pixel format, size, ratio, filter, threading policy, CPU generation and interleaving.",
 ["inputs","configurations","schedules"],"every well-formed request x size x policy x CPU model x schedule",
 "Tests resize a few small pictures and observe neither work nor memory; super-linear cost appears only on fallback paths for other CPUs and at sizes no test uses.",
 ["src/scaler.rs","src/f16.rs","src/filter_weights.rs","src/image_store.rs","src/threading_policy.rs","src/colors/"],
 [("scratch pictures and weights","src/scaler.rs, src/filter_weights.rs"),("portable row and column handlers","src/f16.rs, src/floating_point_vertical.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
