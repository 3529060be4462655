#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "The 192 tests convert a handful of small or fixed-size images on the one dispatch path the test machine picks; "
P = []
def p(id, title, st, over, q, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note))
ALL = ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/yuv_p16_rgba_p16.rs", "src/avx2/", "src/avx512bw/", "src/sse/"]
p("C01", "Memory safety of every public conversion",
  "No public function of the crate reads or writes outside the slices it is given, or otherwise triggers undefined behaviour or an internal panic, for any arguments that describe an image. This holds on every x86 dispatch level, wherever the buffers lie in memory, whatever their strides and their contents.",
  ["inputs", "configurations"], "all 597 public conversions x image sizes, strides, buffer placement and contents x every CPU feature level",
  T + "an out-of-bounds SIMD tail is silent in an ordinary heap buffer and depends on width, alignment and CPU level together.",
  ALL + ["src/images.rs", "src/yuv_error.rs"], "public entry points validate, then hand unchecked slices to SIMD rows with scalar tails",
  "runtime monitoring: guard pages, canaries, debug preconditions, AddressSanitizer, Miri", "Also a second run of the same workload under AddressSanitizer (stack and heap temporaries). NEON code cannot run here.")
p("C02", "Impossible arguments are rejected without effect",
  "When the arguments of a public conversion cannot describe an image (zero size, stride shorter than a row, buffer too short, images of different sizes), the call returns an error, and neither panics nor writes a single byte. Nothing is accepted that the given buffers cannot hold.",
  ["inputs"], "all public conversions x corruptions of each argument and each plane x sizes",
  T + "no test passes malformed images to most of the API.",
  ["src/yuv_error.rs", "src/images.rs", "src/rdp.rs", "src/geometry.rs", "src/shuffle.rs", "src/f16_converter.rs"], "check_* helpers at the top of every entry point",
  "runtime monitoring: corrupted-argument workload on guarded buffers, outcome and write monitors", "Judged only where no reading of the arguments describes an image.")
p("C03", "Every visible destination sample is written and nothing else is",
  "A conversion that reports success has written every sample of the destination image, independent of what the buffers held before. It writes nothing to row padding or around the buffers, and never modifies its source.",
  ["inputs", "configurations"], "all public conversions x sizes (odd ones in particular) x strides x dispatch levels",
  T + "unwritten tails show up only at particular widths modulo the vector length and particular CPU levels.",
  ALL, "vector body + narrower vector tails + scalar tail per row; odd last row and column handled apart",
  "runtime monitoring: differential destination fills, padding canaries, source checksums", "Buffers of exactly stride x rows elements; shorter/longer accepted buffers are probed and listed as known findings.")
p("C04", "8-bit YUV to RGB decoding follows the standard equations",
  "Every 8-bit decoder (planar, bi-planar, packed, gray; all channel orders and subsamplings) yields, for each pixel, the RGB value given by the selected matrix and range applied to that pixel's luma and co-sited chroma, within the rounding of its documented precision mode. The error has no bias beyond that rounding.",
  ["inputs", "configurations"], "all 8-bit decoders x 6 matrices and custom coefficients x range x mode x sizes x contents x dispatch levels",
  T + "they use constant-colour images and wide tolerances, so a wrong coefficient, swapped sample or mis-sited chroma in one path stays inside.",
  ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/yuy2_to_rgb.rs", "src/y_to_rgb.rs", "src/ayuv_to_rgb.rs", "src/yuv_support.rs", "src/avx2/", "src/sse/", "src/avx512bw/"], "fixed-point inverse transform per SIMD family",
  "runtime monitoring: per-sample oracle in exact arithmetic, online error and bias statistics", "Limits per family of paths were calibrated once and are committed.")
p("C05", "8-bit RGB to YUV encoding follows the standard equations",
  "Every 8-bit encoder yields for each pixel the luma given by the selected matrix and range, and for each chroma site the chroma of the average of the pixels it covers, within the rounding of its precision mode and without bias. Partial chroma blocks at odd edges use the pixels that exist.",
  ["inputs", "configurations"], "all 8-bit encoders x matrices x range x mode x sizes x contents x dispatch levels",
  T + "constant-colour test images cannot see which pixels a chroma sample averages, nor overflow at particular colours.",
  ["src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/rgb_to_y.rs", "src/yuv_support.rs", "src/built_coefficients.rs", "src/avx2/", "src/sse/", "src/avx512bw/"], "fixed-point forward transform, chroma averaging",
  "runtime monitoring: per-sample oracle in exact arithmetic, online error and bias statistics", "As C04.")
p("C06", "High bit-depth decoding follows the standard equations",
  "Every 10/12/14/16-bit decoder (planar, bi-planar P010-style, packed, gray; little and big endian; to 8-bit, high bit-depth and 10-bit packed RGB) yields for each pixel the value given by matrix, range, bit depth and sample alignment, within rounding and without bias.",
  ["inputs", "configurations"], "all high bit-depth decoders x matrices x range x mode x depth x byte order x sizes x contents x dispatch levels",
  T + "only a few depth/format combinations are tested at all.",
  ["src/yuv_p16_rgba_p16.rs", "src/yuv_p10_rgba.rs", "src/yuv_p16_rgba_alpha.rs", "src/yuv_p16_rgba16_alpha.rs", "src/yuv_nv_p10_to_rgb.rs", "src/yuv_nv_p16_to_rgb16.rs", "src/yuv_p16_ar30.rs", "src/yuv_nv_p10_to_ar30.rs", "src/y_p16_to_rgb16.rs", "src/yuy2_to_rgb_p16.rs"], "generic rows over bit depth, endianness and byte position",
  "runtime monitoring: per-sample oracle in exact arithmetic, online error and bias statistics", "Alpha of big-endian images: see the known finding of C15.")
p("C07", "High bit-depth encoding follows the standard equations",
  "Every 10/12/14/16-bit encoder yields luma for each pixel and chroma for each site as given by matrix, range, bit depth, sample alignment and byte order, within rounding and without bias, and never overflows at the extremes.",
  ["inputs", "configurations"], "all high bit-depth encoders x matrices x range x mode x depth x sizes x contents x dispatch levels",
  T + "overflow near white and edge handling depend on value and width.",
  ["src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs", "src/rgb_to_y.rs", "src/avx2/", "src/sse/", "src/avx512bw/"], "fixed-point forward transform on u16 rows",
  "runtime monitoring: per-sample oracle in exact arithmetic, online error and bias statistics", "As C04.")
p("C08", "The result does not depend on the CPU the code runs on",
  "For the same input, every CPU feature level (scalar, SSE4.1, AVX2, AVX-512 and its extensions) produces the same image, up to the rounding difference of the fixed-point variants of that path. Which vector width processed a pixel is never visible.",
  ["inputs", "configurations"], "all public conversions x pairs of dispatch levels x sizes x contents",
  T + "a machine runs only its own best path, so the paths are never compared.",
  ["src/avx2/", "src/avx512bw/", "src/sse/", "src/internals.rs"], "runtime feature detection selecting row handlers",
  "runtime monitoring: differential execution of all dispatch levels in one process", "The standard library's CPU feature cache is overridden per call; NEON and WASM are out of reach.")
p("C09", "Results do not depend on memory layout",
  "The image a conversion produces depends only on the samples of the source image: strides, row padding, alignment and position of the buffers in memory change nothing.",
  ["inputs", "configurations"], "all public conversions x strides x alignments x sizes x dispatch levels",
  T + "tests always use tight, allocator-aligned buffers.",
  ALL + ["src/images.rs"], "per-row slices cut by stride before the row handlers run",
  "runtime monitoring: metamorphic pairs of calls on differently laid out buffers", "Interleaved chroma and packed 4:2:2 must be contiguous by contract.")
p("C10", "Each output sample depends only on the source samples it covers",
  "Changing a source sample changes only the destination samples of the pixels (or chroma block) it belongs to; bytes outside the visible image, uninitialised memory and other rows never leak in. Equal neighbourhoods give equal results at every position in the image.",
  ["inputs", "configurations"], "all public conversions except the neighbourhood-based sharp ones x sizes x positions x dispatch levels",
  T + "a sample taken from the neighbouring pixel, from padding or from stale stack memory looks right in a constant image.",
  ALL, "lane shuffles, tail copies through temporaries, 4:2:0 row pairing",
  "runtime monitoring: perturbation and shift experiments, poisoned padding and stack", "")
p("C11", "Variants of one conversion agree exactly",
  "Operations that differ only in channel order, presence of an alpha channel, chroma order (NV12/NV21), packed order (YUYV/UYVY/...) or byte order produce the same colour and luma values for the same picture.",
  ["inputs", "configurations"], "groups of sibling operations x configuration x sizes x contents x dispatch levels",
  T + "siblings are never run on the same picture.",
  ["src/lib.rs", "src/yuv_support.rs"], "const-generic channel and order parameters",
  "runtime monitoring: differential execution of sibling operations", "")
p("C12", "Reorganising conversions keep every sample",
  "Channel shuffles, planar/packed 4:2:2 repacking, mirroring, rotation and other conversions that only move samples put exactly the right sample at every place; where chroma is resampled, it is replicated or averaged with rounding, never invented.",
  ["inputs", "configurations"], "all shuffles, repackings, mirrors and rotations x sizes x contents x dispatch levels",
  T + "most of these functions have no test.",
  ["src/shuffle.rs", "src/yuv_to_yuy2.rs", "src/yuv_to_yuy2_p16.rs", "src/yuy2_to_yuv.rs", "src/yuy2_to_yuv_p16.rs", "src/mirroring.rs", "src/geometry.rs"], "sample moves in SIMD rows",
  "runtime monitoring: per-sample exact oracle", "Rotation by 90 degrees of several layouts is a known finding of the dependency.")
p("C13", "There and back returns the picture",
  "Encoding a picture whose detail the target format can carry and decoding it again returns the picture within the combined rounding of both directions; reversible pairs (shuffles, repacking, 8-bit through 10-bit packing) return it exactly.",
  ["inputs", "configurations", "histories"], "every pair of inverse public conversions x configuration x sizes x contents x dispatch levels",
  T + "round trips are sampled with a few constant colours.",
  ALL, "forward and inverse transforms with matching ranges and siting",
  "runtime monitoring: round-trip monitor with online error statistics", "")
p("C14", "Parallel and concurrent execution change nothing",
  "With the rayon feature, whatever the pool size, and with many threads converting at once, each call produces byte for byte the result of the sequential build run alone, and repeating a call repeats its result; no two threads touch the same memory unsynchronised.",
  ["schedules", "inputs", "configurations"], "all public conversions x pool sizes x schedules x mixes of concurrent callers",
  "The test suite never runs the rayon build or concurrent callers, and a race or a mis-assigned row chunk depends on the schedule and pool size.",
  ["src/internals.rs", "src/lib.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/sharpyuv/"], "par_chunks_exact(_mut) zips behind cfg(feature = \"rayon\")",
  "runtime monitoring: differential execution against the rayon build, concurrent-caller stress, ThreadSanitizer", "The ThreadSanitizer build has no AVX-512 rows (newer nightly, whose vendored std sources it needs).")
p("C15", "Alpha is carried through exactly, or opaque",
  "A decoder without alpha input writes fully opaque alpha; with alpha input it copies alpha exactly and, only if asked to, premultiplies the colour by it. Encoders ignore alpha, and colour never depends on it otherwise.",
  ["inputs", "configurations"], "all conversions with alpha on either side x premultiplication x sizes x contents x dispatch levels",
  T + "alpha is checked for a few formats only.",
  ["src/yuv_to_rgba_alpha.rs", "src/yuv_p16_rgba_alpha.rs", "src/yuv_p16_rgba16_alpha.rs", "src/y_with_alpha_to_rgb.rs", "src/y_p16_with_alpha_to_rgb16.rs", "src/ayuv_to_rgb.rs", "src/from_identity_alpha.rs", "src/yuva_p16_rgba_f16.rs"], "alpha plane handling in the *_alpha rows",
  "runtime monitoring: exact alpha oracle, alpha-perturbation pairs, premultiplication oracle", "Known finding: alpha planes of big-endian images are read in native order.")
p("C16", "Sharp YUV stays faithful",
  "The sharp RGB to YUV encoders produce luma and chroma close to the plain conversion: exact luma for each pixel up to rounding, chroma equal to the block average up to the gamma-aware weighting of the selected transfer, exact for flat pictures, at every size.",
  ["inputs", "configurations"], "all sharp encoders x gamma x matrix x range x sizes x contents x dispatch levels",
  T + "a couple of fixed images are tested.",
  ["src/sharpyuv/"], "linear-light chroma averaging on row pairs",
  "runtime monitoring: per-sample oracle with the gamma-aware model, error statistics", "")
p("C17", "YCgCo and identity (GBR) conversions follow their equations",
  "YCgCo conversions follow the YCgCo equations for the chosen range, and identity (GBR) conversions move or range-scale the components, at every depth, within rounding and without bias; full-range identity conversion is exact.",
  ["inputs", "configurations"], "all YCgCo and GBR conversions x range x sizes x contents x dispatch levels",
  T + "few of these are tested.",
  ["src/ycgco_to_rgb.rs", "src/ycgco_to_rgb_alpha.rs", "src/rgb_to_ycgco.rs", "src/ycgcor_support.rs", "src/from_identity.rs", "src/to_identity.rs", "src/from_identity_alpha.rs"], "scalar rows and SIMD GBR rows",
  "runtime monitoring: per-sample oracle, online error and bias statistics", "")
p("C18", "Half-float output and conversion are accurate",
  "Conversions to and from half floats map 0 to 0.0 and the maximum of the bit depth to 1.0, are accurate to half-float rounding everywhere between, saturate instead of overflowing, and never produce NaN or infinity for integer input.",
  ["inputs", "configurations"], "all f16 conversions x depth x range x matrix x sizes x contents x dispatch levels",
  T + "f16 paths are compared on a few colours only.",
  ["src/f16_converter.rs", "src/yuv_p16_rgba_f16.rs", "src/yuva_p16_rgba_f16.rs", "src/from_identity_f16.rs", "src/from_identity_alpha_f16.rs"], "scaling in f32, vector conversion to f16",
  "runtime monitoring: per-sample oracle, online error and bias statistics", "")
p("C19", "Neutrals stay neutral, endpoints stay endpoints, brightness is monotone",
  "Gray input encodes to neutral chroma and neutral chroma decodes to gray; black and white map to the ends of the range and back; making a gray brighter never makes the result darker.",
  ["inputs", "configurations"], "all colour conversions x every gray level x configuration x positions x dispatch levels",
  T + "the whole value range is never swept.",
  ["src/yuv_support.rs", "src/built_coefficients.rs", "src/numerics.rs"], "coefficient rounding, bias and clamping",
  "runtime monitoring: exhaustive gray sweeps with neutrality, endpoint and monotonicity monitors", "")
p("C20", "RemoteFX conversions follow the RemoteFX equations",
  "The RemoteFX (RDP) encoders and decoders follow the fixed equations of the RemoteFX transform within rounding, saturate, and treat all channel orders alike.",
  ["inputs", "configurations"], "all rdp_* functions x sizes x contents (including out-of-range coefficients) x dispatch levels",
  T + "two tests with one size.",
  ["src/rdp.rs", "src/avx2/", "src/sse/"], "fixed-point transform on i16 planes",
  "runtime monitoring: per-sample oracle, online error and bias statistics", "")
p("C21", "Image descriptors describe what they say",
  "Allocated images have exactly the geometry of their subsampling, pass their own validation and are zeroed; read-only views refer to the same memory, strides and size; validation accepts every exactly sized descriptor and rejects every one whose buffers cannot hold the image, up to the largest sizes; owned and borrowed storage behave alike.",
  ["inputs", "histories"], "all descriptor types x element types x subsamplings x sizes up to 2^32-1 x strides and lengths",
  "No test validates descriptors; the failing combinations (odd sizes, one plane short, huge widths) are not reached by conversions of valid images.",
  ["src/images.rs", "src/yuv_error.rs", "src/yuv_support.rs"], "alloc/to_fixed/from_mut/check_constraints",
  "runtime monitoring: model-based descriptor monitor over random and boundary geometries", "")
p("C22", "The enabled cargo features choose implementations, never results",
  "For the same call, builds of the crate with other instruction-set features (none, `sse` only, `avx` only, `avx` and `sse` without the nightly AVX-512 paths, all) give the same outcome and the same image: exactly the one the full build gives on a CPU limited to the same instruction sets, and in any case the same up to the rounding difference of the fixed-point paths.",
  ["inputs", "configurations"], "all public conversions x configurations x sizes x contents x dispatch levels x five feature sets",
  "The tests of each feature set look at that build alone, on single-colour images; code that exists only in some feature sets (`cfg(not(feature = ..))`, tails that fall through to another path) is never compared with the others.",
  ["Cargo.toml", "src/avx2/avx2_utils.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/avx2/", "src/sse/"], "cfg(feature) gating of the dispatch chains",
  "runtime monitoring: co-processes of differently featured builds, online comparison of every call", "aarch64-only features (rdm, nightly_i8mm) cannot run here.")
p("C23", "The WebAssembly build gives the same images and verdicts",
  "On wasm32 (32-bit, with simd128) every conversion that succeeds natively succeeds and gives the native scalar image - identical, or within the rounding of the WebAssembly row code where there is one - writes nothing outside the visible destination and depends on nothing but the visible source; impossible arguments are refused there too, including sizes whose products exceed 32 bits, without a trap and without writing.",
  ["inputs", "configurations"], "all public conversions x configurations x sizes x contents x layouts x corruptions of the arguments, on wasm32",
  "No test runs on wasm32 here; src/wasm32 is compiled by nothing else, and 32-bit overflow of the size checks cannot happen on the 64-bit test machine.",
  ["src/wasm32/", "src/yuv_error.rs", "src/yuv_nv_to_rgba.rs", "src/yuv_to_rgba.rs", "src/y_to_rgb.rs"], "cfg(target_arch = wasm32) row handlers; check_* size checks in usize",
  "runtime monitoring: the wasm32 build executed in node as a co-process, online comparison of every call with the native scalar level", "Linear memory has no guard pages: out-of-bounds reads there are seen only through their effect on the image or a trap.")
p("C24", "Conversions keep nothing",
  "Whatever a conversion allocates it has released when it returns, also when it refuses its arguments: repeating a call never makes the process grow, and no thread or file is left behind. What it needs meanwhile stays proportional to the image (at most 16 bytes per pixel and 1 MiB), and a thread with 1 MiB of stack is enough for any image.",
  ["histories", "inputs"], "all public conversions x configurations x sizes x dispatch levels x refused and accepted arguments, each repeated",
  "Tests call each conversion once and never look at the heap; a leak, or memory that grows with the square of a dimension, changes no result.",
  ["src/sharpyuv/sharp_rgba_to_yuv.rs", "src/rdp.rs", "src/images.rs", "src/yuv_error.rs"], "temporary buffers of the row loops and early returns",
  "runtime monitoring: counting allocator, painted stack and process tables around repeated calls", "")
p("C25", "An error names the argument at fault",
  "When exactly one argument of a conversion is wrong, the error says which: a zero dimension is reported as such, a short luma or alpha plane (or its stride) as a luma plane error, a chroma plane as a chroma plane error, a packed 4:2:2 frame as a packed frame error, an interleaved buffer as a size or stride mismatch. The numbers it carries are the ones given and needed (received is less than expected, and what is expected would suffice), and its message prints them.",
  ["inputs"], "all public conversions x each single wrong stride, length or dimension x sizes x layouts",
  "Tests only call conversions with valid arguments; which check fires, and with which numbers, depends on the order and arguments of the checks in each conversion.",
  ["src/yuv_error.rs", "src/images.rs"], "check_rgba_destination, check_y8_channel, check_chroma_channel, check_interleaved_chroma_channel, check_yuv_packed422",
  "runtime monitoring: fault injection into single arguments, online checker of the returned error", "")
with open(f"{root}/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["st"], quantifier=dict(over=q["over"], text=q["q"]), why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=q["mech"], where=q["files"][0])]))) + "\n")
checks = [dict(property=q["id"], quick_cmd=f"./check.sh {q['id']} quick", thorough_cmd=f"./check.sh {q['id']} thorough", technique=q["tech"], level="exploration",
    level_note=("Holds on everything executed, not on all inputs. " + q["note"]).strip()) for q in P]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[]), open(f"{root}/MANIFEST.json", "w"), indent=1)
