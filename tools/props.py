NA = {}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))

prop("C01", "Integer modular images decode to exactly the encoded samples",
 "Decoding any valid single-frame modular (lossless) codestream with integer samples yields, for every colour and extra channel, exactly the sample values that were encoded, at exactly the encoded dimensions. This holds for every bit depth up to 16, grey or colour, and for every legal meta-adaptive decision tree, predictor, weighted-predictor setting, context map and entropy code the encoder chose.",
 ["inputs", "configurations"],
 "all image contents x sizes x bit depths x channel sets x decision trees (all 14 predictors, all static, local and weighted properties, offsets and multipliers) x entropy-code settings",
 "The tests decode a handful of sample files written by one encoder with its default choices; each exercises one tree and one entropy-code shape, and most are compared on a few values only. The property quantifies over every image and every choice an encoder may make.",
 ["frame/ModularStream.go", "frame/ModularChannel.go", "frame/MATree.go", "frame/WPParams.go", "frame/Frame.go", "frame/LFGlobal.go", "entropy/EntropyStream.go"],
 [("meta-adaptive tree parsing and walking", "frame/MATree.go"), ("predictors and self-correcting predictor", "frame/ModularChannel.go"), ("channel list and stream decoding", "frame/ModularStream.go"), ("assembly of the frame's channels", "frame/Frame.go DecodeFrame")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder -> decode round trip",
 "Randomly generated codestreams from an independent encoder that draws every coding choice; exact comparison. Trusts the encoder (which checks itself for losslessness with its own model of the format).")

prop("C02", "Entropy-coded values decode to exactly the coded sequence",
 "For every sequence of unsigned integers written with a legal JPEG XL entropy code, decoding with the same contexts returns exactly that sequence, consumes exactly the written bits, and accepts the final-state check. This holds for prefix and ANS codes, every hybrid-integer configuration, every context clustering, and with or without LZ77 copies.",
 ["inputs", "configurations"],
 "all value sequences x context sequences x code kinds (ANS simple, flat and general histograms, all alphabet-size exponents; simple and complex prefix codes; degenerate one-symbol codes) x hybrid-integer configurations x clusterings x LZ77 parameters and special distances",
 "The existing tests feed a few fixed bit strings or use fakes for the reader; they reach neither general histograms, complex prefix trees, LZ77 special distances nor clustered context maps in combination.",
 ["entropy/EntropyStream.go", "entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "entropy/VLCTable.go", "entropy/HybridIntegerConfig.go", "jxlio/bitreader.go"],
 [("symbol and LZ77 decoding", "entropy/EntropyStream.go"), ("alias table and histogram parsing", "entropy/ANSSymbolDistribution.go"), ("prefix code parsing", "entropy/PrefixSymbolDistribution.go, entropy/VLCTable.go")],
 ["values returned by the entropy stream", "bits consumed", "final-state validation"],
 "property-based testing: independent entropy encoder -> decode round trip",
 "Random sequences and code parameters from an independent entropy encoder; values, bit position and final state compared exactly.")

prop("C03", "Modular transforms are undone exactly",
 "Decoding undoes every legal chain of colour-decorrelation, palette (with delta and implicit colours) and squeeze transforms exactly as the format defines, so the samples come back bit for bit. This holds for every colour-transform type and permutation, every palette size and prediction, and every default or explicit squeeze schedule, in any combination and on any run of channels.",
 ["inputs", "configurations", "programs"],
 "all images x chains of up to four transforms x the 42 colour transforms x palettes (any channel run, deltas with all predictors, negative and implicit indices) x squeeze schedules (default and explicit, in place or not)",
 "The sample files use one or two transforms in the encoder's habitual order; explicit squeeze parameters, palettes that do not start at channel zero, delta palettes with the weighted predictor or chains are not reached.",
 ["frame/ModularStream.go", "frame/ModularChannel.go", "util/sliceutil.go"],
 [("transform parsing and channel list updates", "frame/ModularStream.go NewModularStreamWithChannels"), ("inverse transforms", "frame/ModularStream.go applyTransforms")],
 ["samples of the image returned by Decode"],
 "property-based testing: forward transforms by an independent encoder -> decode round trip",
 "Random transform chains; the oracle inverts them with its own model and checks itself for losslessness when the chain is reversible.")

prop("C08", "Cutting a frame into sections does not change the image",
 "A frame's group size, number of passes and their downsampling brackets, the order in which its sections are stored, and the use of per-group trees, predictors and transforms never change the decoded samples. Every sample of every channel comes from exactly one section, for every frame size including those larger than one group and one low-frequency group.",
 ["inputs", "configurations"],
 "all frame sizes x group sizes x pass structures x section permutations x local versus global trees and transforms x channel shifts produced by squeezing",
 "The sample files use one group layout each, always in natural order and with a single pass; section permutations, several low-frequency groups with squeezed channels, and passes are not exercised.",
 ["frame/Frame.go", "frame/Pass.go", "frame/PassesInfo.go", "frame/PassGroup.go", "frame/LFGroup.go", "frame/ModularStream.go"],
 [("table of contents and permutation", "frame/Frame.go ReadTOC, readPermutation, getBitreader"), ("channel parts per group", "frame/Frame.go channelPart, copyPart"), ("pass brackets", "frame/Pass.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: metamorphic encode (same image, drawn partition) -> decode round trip",
 "Random partitions of random images up to about 1300 pixels on a side; exact comparison of every sample.")

prop("C05", "Image and frame headers are read as written",
 "Parsing an image header gives every field the value that was written (size in each of its forms, orientation, intrinsic size, preview, sample format, extra channels and their names, colour encoding with its implied defaults, tone mapping, extensions, opsin matrix, upsampling weights, ICC profile), parsing a frame header gives its type, coding, flags, upsampling, passes, crop rectangle, blending, references and extensions, and both consume exactly the bits of the header, whatever follows it. Headers with fields outside their valid range (unknown enumerators, impossible sample formats, sizes beyond the level's limits, non-finite numbers, bad tone mapping) are refused.",
 ["inputs", "configurations"],
 "all image and frame headers x all encodings of each field x one invalid field",
 "Unit tests parse the headers of three files and frame headers through a fake reader that returns preset field values, so bit widths and offsets are never checked against a bit stream.",
 ["bundle/image_header.go", "bundle/Extensions.go", "bundle/extra_channel_info.go", "bundle/BitDepthHeader.go", "colour/colour_encoding_bundle.go", "colour/ToneMapping.go", "colour/OpsinInverseMatrix.go", "frame/FrameHeader.go", "frame/BlendingInfo.go", "frame/PassesInfo.go", "jxlio/bitreader.go"],
 [("image header", "bundle/image_header.go ParseImageHeader"), ("frame header", "frame/FrameHeader.go NewFrameHeaderWithReader"), ("fields", "jxlio/bitreader.go ReadU32, ReadU64, ReadF16, ReadEnum")],
 ["exported fields of bundle.ImageHeader and frame.FrameHeader", "position of the bit reader"],
 "property-based testing: independent writer of headers, round trip of every field, one-field-invalid negatives",
 "Random headers.")

prop("C07", "The header's orientation is applied to every channel",
 "A decoded image has the dimensions and pixel arrangement that its header's orientation prescribes: for each of the eight orientations every sample of every colour and extra channel is found at the transformed position, with width and height exchanged for the four transposing ones. Dimension accessors agree with the buffers.",
 ["inputs", "configurations"],
 "all eight orientations x image sizes (one pixel wide or high to several groups) x channel sets x bit depths, single and composed frames",
 "The existing tests transform one small buffer per orientation; they never decode an oriented image, so neither the place where the decoder applies the orientation nor extra channels and non-square sizes are settled.",
 ["core/jxl_decoder.go", "core/jxl_image.go", "bundle/image_header.go"],
 [("orientation of each channel", "core/jxl_decoder.go transposeBuffer"), ("oriented size", "bundle/image_header.go")],
 ["samples and dimensions of the image returned by Decode"],
 "property-based testing: metamorphic (orientation of the encoded samples) encode -> decode",
 "Random images with each orientation; the oracle moves the encoded samples by the format's definition and compares every sample.")

prop("C18", "Frames are composed as their headers say",
 "The decoded image of a file with several frames is exactly the composition its frame headers describe: each frame is placed at its origin (also partly or wholly outside of the image), combined with the reference frame it names by replacing, adding, alpha blending, alpha-weighted adding or multiplying (with clamping and premultiplied alpha where signalled), for colour and each extra channel separately, and saved in the reference slot it names.",
 ["inputs", "histories", "configurations"],
 "all sequences of up to six frames x types (regular, reference only, skipped progressive) x crops (negative, outside, larger than the image) x the five blending modes per channel x reference slots x alpha channels x integer and float samples",
 "Sample files blend one small frame or none; the tests of the blending helpers check a few values of one mode each. Histories of saved references, crops that leave the image, and separate modes for extra channels are untested.",
 ["core/jxl_decoder.go", "frame/BlendingInfo.go", "frame/FrameHeader.go"],
 [("blending", "core/jxl_decoder.go blendFrame, performBlending"), ("reference slots", "core/jxl_decoder.go decode"), ("blending header", "frame/BlendingInfo.go")],
 ["samples of the image returned by Decode"],
 "model-based property-based testing: sequences of frames against a reference compositor",
 "Random sequences of frames; a reference compositor predicts every sample. Samples whose value is numerically ill-conditioned (division by an alpha near zero) are not compared.")

prop("C22", "Channels coded at lower resolution are upsampled as specified",
 "A frame or extra channel that is coded at a half, quarter or eighth of the resolution is upsampled to exactly its declared size with the format's 5x5 kernels (default or custom weights), with mirrored edges and each result clamped to the range of the samples its kernel covers; float samples coded in any signalled float format keep their value.",
 ["inputs", "configurations"],
 "all images x frame upsampling 2, 4, 8 x extra-channel upsampling and dimension shifts x default and custom weights x integer and float sample formats x crops",
 "No sample file in the tests uses upsampling with custom weights or extra channels of another resolution; the tests of the kernel check a constant or a few values.",
 ["frame/Frame.go", "bundle/image_header.go", "frame/FrameHeader.go", "frame/LFGlobal.go"],
 [("upsampling", "frame/Frame.go performUpsampling"), ("weights", "bundle/image_header.go"), ("channel sizes", "frame/LFGlobal.go, frame/FrameHeader.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: encode -> decode against a reference upsampling model",
 "Random images and weights; reference model in double precision, compared with a small tolerance.")

prop("C06", "A container yields the same image as its bare codestream",
 "A file in the box container decodes to exactly the same image as the codestream it carries, whatever boxes surround it: one jxlc box or any number of jxlp parts cut at any byte, 32-bit, 64-bit and to-end-of-file box sizes, empty and unknown boxes before, between and after, and a level box. Header queries agree as well.",
 ["inputs", "configurations"],
 "all codestreams x cuts into parts (also empty ones and one byte each) x box size encodings x extra boxes of any type and length x level boxes",
 "The sample files have the box layouts of one encoder; parts cut inside of a header or a section, 64-bit sizes and boxes between parts never occur in the tests.",
 ["core/read_jxl_boxes.go", "core/jxl_codestream_decoder.go", "jxlio/bitreader.go"],
 [("box parsing", "core/read_jxl_boxes.go readAllBoxes"), ("assembly of the codestream", "core/jxl_codestream_decoder.go openCodestream")],
 ["image returned by Decode", "header returned by GetImageHeader"],
 "property-based testing: differential (container versus bare codestream)",
 "Random codestreams and box layouts; exact comparison of the decoded images. Trusts nothing but the box writer.")

prop("C09", "Decoding is a pure function of the bytes",
 "The same bytes always decode to the same image: for every number of worker goroutines, every schedule of them, repeated decodes, decodes of other images before or at the same time in the same process, and a decoder object used more than once. An image that was returned is never altered by a later decode.",
 ["schedules", "histories", "configurations"],
 "all images x goroutine limits 1..16 x orders and overlaps of decodes in one process x reuse of decoder objects",
 "The tests decode each file once with one setting; the matrix pools shared by all decodes, the order in which groups finish and state kept in a decoder only show in combinations of several decodes.",
 ["frame/Frame.go", "frame/PassGroup.go", "frame/HFCoefficients.go", "util/buffer_pool.go", "core/jxl_codestream_decoder.go", "options/jxl_options.go"],
 [("worker goroutines", "frame/Frame.go decodeLFGroups, decodePassGroupsConcurrent, performUpsampling"), ("shared matrix pools", "util/buffer_pool.go"), ("decoder state", "core/jxl_codestream_decoder.go decode")],
 ["samples of the images returned by Decode"],
 "stateful property-based testing: histories and overlaps of decodes, metamorphic comparison",
 "Random sets of images decoded in random histories, limits and overlaps; every result compared with the first.")

prop("C10", "How the reader delivers bytes does not matter and its errors are reported",
 "Decoding depends only on the bytes a reader holds, not on how it hands them out: a reader that returns short reads of any length, or its last bytes together with io.EOF, gives the same image. A reader that fails with an error never gives an image that ignores the failure: the error is reported.",
 ["inputs", "faults"],
 "all files (bare, container, truncated) x splits of every read x end-of-file conventions x a read error at any byte",
 "The tests read from memory or files only, which never split reads or fail.",
 ["jxlio/bitreader.go", "core/read_jxl_boxes.go", "core/jxl_codestream_decoder.go", "frame/Frame.go"],
 [("reads", "jxlio/bitreader.go ReadBits, ReadBytesToBuffer, readBit"), ("sections", "frame/Frame.go readBuffer")],
 ["image or error returned by Decode"],
 "fault injection driven by property-based testing (readers that split reads or fail), differential oracle",
 "Random files, splits and failure points; compared with decoding from memory.")

prop("C11", "Arbitrary bytes end in an image or an error",
 "For every byte string, decoding and the header queries return either a result or an error: they never panic, never run forever and never leave goroutines behind. If the image decodes, the header queries succeed too.",
 ["inputs", "faults"],
 "all byte strings whose declared sizes are moderate: damaged, spliced, cut and extended codestreams and containers of every feature the generators know, damaged files of another encoder, and noise",
 "The tests check a few malformed headers; damage deep inside of entropy-coded data, trees, permutations or transform parameters is only reached by search.",
 ["core/jxl_decoder.go", "core/read_jxl_boxes.go", "bundle/image_header.go", "frame/Frame.go", "frame/ModularStream.go", "frame/MATree.go", "entropy/EntropyStream.go", "frame/HFCoefficients.go"],
 [("errors of damaged data", "core/jxl_decoder.go Decode, frame/Frame.go workers"), ("range checks while parsing", "entropy/, frame/, bundle/")],
 ["result, error, panic or hang of Decode, GetImageHeader and DecodeConfig", "number of goroutines"],
 "mutation-based fuzzing with generated and corpus seeds, watchdog for hangs and crashes",
 "Structure-aware mutations of generated and real files, each in a watched worker process. Sizes are bounded to about a million pixels; running out of memory counts as inconclusive.")

prop("C12", "Truncated files are errors and trailing bytes do not matter",
 "No proper prefix of a file decodes to a different image: decoding a truncated file gives an error, or the complete image if only padding is missing, never a wrong or missing image. Bytes that follow a complete codestream do not change the result.",
 ["inputs", "faults"],
 "all valid files (bare and container) x cuts at any byte x trailing bytes",
 "No test truncates a file; whether every section, header and box notices that bytes are missing is a property of all cuts.",
 ["frame/Frame.go", "jxlio/bitreader.go", "core/read_jxl_boxes.go", "core/jxl_codestream_decoder.go"],
 [("section reads", "frame/Frame.go readBuffer"), ("box sizes", "core/read_jxl_boxes.go"), ("end of data", "jxlio/bitreader.go")],
 ["image or error returned by Decode"],
 "property-based testing: metamorphic (prefixes and extensions of valid files)",
 "Every cut of small files and random cuts of larger ones; compared with the complete image.")

prop("C13", "The image package reads every JPEG XL file",
 "Importing jxl-go makes image.Decode and image.DecodeConfig understand every JPEG XL file, container or bare codestream, from any kind of reader. The image has the dimensions and samples of the decoded JPEG XL image in a Go image type deep enough for them, and DecodeConfig announces exactly the dimensions and colour model that Decode then gives.",
 ["inputs", "configurations"],
 "all images x containers and bare codestreams x kinds of reader (seekable or not, one byte at a time, buffered) x depths, orientations, grey, alpha, colour encodings, XYB",
 "The tests call the format functions on one or two files through a bytes reader; other readers, bare codestreams, orientation and deep or grey samples are not reached.",
 ["reader.go", "core/jxl_image.go", "core/jxl_decoder.go"],
 [("registration and format functions", "reader.go"), ("conversion to Go images", "core/jxl_image.go ToImage")],
 ["format name, image, colour model, dimensions and error of image.Decode and image.DecodeConfig"],
 "property-based testing: differential (image package versus decoded samples) with a reference colour model",
 "Random images, containers and readers. HDR and unusual-primaries colour values are not compared, only dimensions, model and alpha.")

prop("C14", "Written PNG files are valid and hold the decoded image",
 "WritePNG gives a valid PNG file for every decoded image: well-formed chunks with correct checksums, the image's dimensions, the right colour type and a depth of 8 or 16 bits, the embedded ICC profile, an sRGB chunk with the image's rendering intent, or (for images in HDR: PQ, linear or with primaries wider than P3) a cICP chunk for BT.2100 PQ, and samples that are the decoded ones rounded to that depth, converted to what the file says where the image is encoded otherwise, alpha not premultiplied.",
 ["inputs", "configurations"],
 "all images x sample depths and float formats x grey and colour x alpha channels at any position, associated or not x colour encodings x ICC profiles x XYB",
 "The tests write one or two images and compare lengths or a few chunk bytes; they never parse the file back or compare samples.",
 ["core/png_writer.go", "core/jxl_image.go", "colour/transfer_function.go", "colour/colour_management.go"],
 [("chunks", "core/png_writer.go"), ("conversion of samples", "core/jxl_image.go"), ("colour conversion", "colour/")],
 ["bytes written by WritePNG, read by an independent PNG parser and by image/png"],
 "property-based testing: round trip through an independent PNG reader with a reference colour model",
 "Random images; exact rounding where no colour conversion applies, a small tolerance where it does.")

prop("C15", "Written PFM files hold the decoded samples",
 "WritePFM gives a valid PFM file for every decoded image: the header names the right kind (grey or colour), the image's dimensions and byte order, rows run from the bottom to the top, and every sample is the decoded one on the scale from 0 to 1, without loss of precision.",
 ["inputs", "configurations"],
 "all images x sample depths and float formats x grey and colour x extra channels x orientations",
 "The tests write one image and look at the header or at the length only.",
 ["core/pfm_writer.go", "core/jxl_image.go"],
 [("header and rows", "core/pfm_writer.go")],
 ["bytes written by WritePFM, read by an independent PFM parser"],
 "property-based testing: round trip through an independent PFM reader",
 "Random images; samples compared to float precision.")

prop("C16", "Conversions are faithful and leave the image as it is",
 "Converting a decoded image to a Go image, to one channel's Go image, to PNG or to PFM gives the same result however often and in whatever order conversions are made, and never changes the decoded samples. Values are scaled by the depth the channel really has, clamped to the range, converted from the image's transfer function and primaries to sRGB (to BT.2100 PQ for images in HDR), and alpha keeps its meaning.",
 ["histories", "inputs", "configurations"],
 "all images x sequences of conversions x depths and float formats x transfer functions (sRGB, linear, gamma, BT.709, DCI) x white points and primaries x alpha kinds",
 "The tests convert an image once; repeated conversions, mixed depths and colour encodings other than sRGB are not reached.",
 ["core/jxl_image.go", "core/png_writer.go", "core/pfm_writer.go", "image/imagebuffer.go", "colour/transfer_function.go", "colour/colour_management.go"],
 [("conversions", "core/jxl_image.go ToImage, ChannelToImage, transform"), ("casts and clamps", "image/imagebuffer.go"), ("transfer functions and primaries", "colour/")],
 ["images and bytes the conversions give", "samples of the decoded image before and after"],
 "stateful property-based testing: random sequences of conversions against a reference model",
 "Random images and sequences of conversions; the reference colour model works in double precision and takes a linear sample of 1 as PQ's full level, as the decoder does.")

prop("C17", "Embedded ICC profiles are returned byte for byte",
 "The ICC profile of a decoded image is exactly the profile that was embedded, for every legal way to encode it: any sequence of commands, tag lists, shuffles, predictions and entropy codes. A damaged profile gives an error, never a wrong profile or a panic.",
 ["inputs", "configurations"],
 "all profiles (arbitrary bytes as well as headers, tag tables and typed data) x all command sequences that encode them x damage",
 "The tests hold one profile encoded by one encoder, which uses few of the commands.",
 ["bundle/image_header.go", "core/jxl_codestream_decoder.go"],
 [("decoding of the profile", "bundle/image_header.go")],
 ["GetICCProfile of the header and image"],
 "property-based testing: independent ICC encoder -> decode round trip",
 "Random profiles and encodings from an independent encoder, which models the decoding itself; exact comparison.")

prop("C04", "The bit reader returns the stream's bits, in order and no others",
 "Every sequence of reads (bits, bools, bytes, U8, U32, U64, half floats, enums, ICC varints, byte arrays), peeks, skips, alignments, seeks and resets returns exactly the values that the stream's bits spell from the current position and moves it by exactly the bits read; a peek moves nothing and shows missing bits as zero; what reaches beyond the end, or is not representable (infinite half floats, enums above 63, unaligned byte reads), is an error; and the count of bits read is right. This holds however the underlying reader splits its reads.",
 ["inputs", "histories"],
 "all streams x sequences of operations from any bit position x lengths up to 2^32 x readers that return less than asked",
 "The tests read a few fixed bytes with one operation each; peeks at the end, skips of whole bytes within a byte and lengths above 2^29 bytes never occur.",
 ["jxlio/bitreader.go"],
 [("reader", "jxlio/bitreader.go BitStreamReader")],
 ["values, errors and positions after each operation"],
 "property-based testing: stateful, model-based generation of operation sequences",
 "The model is the list of bits and a position; after each operation value, error, position and bit count are compared. After the first read beyond the end nothing more is asked.")

prop("C25", "Sample buffers keep their samples through casts, copies and edits",
 "Every history of image buffers holds the samples that its operations define: a cast to floating point divides by the maximum, a cast to integers multiplies, rounds and clamps, and the two in turn return the same integers for every maximum below 2^22; a clamp limits exactly the samples outside; copies share nothing; comparisons tell exactly whether size, type and samples agree; maxima are those of the samples (or zero); and an operation that reports an error changes nothing.",
 ["inputs", "histories"],
 "sequences of operations x buffers of both types and all sizes x maxima up to 2^22 x special floats",
 "The tests cast one small buffer with one maximum; neither round trips nor edits of copies nor failing casts appear.",
 ["image/imagebuffer.go"],
 [("buffers", "image/imagebuffer.go ImageBuffer")],
 ["samples, sizes and types of all buffers after each operation"],
 "property-based testing: stateful, model-based generation of operation sequences",
 "Each buffer has a model; after each operation all buffers are compared with their models.")

prop("C26", "Pooled matrices are zeroed, of the asked size and held by one owner",
 "A matrix taken from the pools has the asked dimensions and only zeros, whatever was in the matrices given back before, and shares no memory with any other matrix that is held, for any number of goroutines that take and give back matrices of any shapes at any time; and the pools count every matrix taken from them. Access to the pools is free of data races.",
 ["inputs", "schedules", "histories"],
 "sequences of takes, writes and returns x goroutines x shapes (also empty and transposed ones) x the pooled and other types",
 "The tests take and return a few matrices of fixed shapes; concurrent holders never compare what they hold.",
 ["util/buffer_pool.go"],
 [("pools", "util/buffer_pool.go Matrix2DPool, Matrix3DPool")],
 ["dimensions and contents of each matrix when taken and when given back", "race detector", "counters"],
 "property-based testing: random concurrent histories with the race detector",
 "Every holder fills its matrices with its own values and checks them before giving them back. Schedules come from the Go scheduler, with random yields.")

prop("C27", "Numeric and container helpers compute what they are defined to",
 "For all operands the helpers give the values of their definitions: ceiling and floor logarithms and quotients of all integers, signed values from unsigned ones, clamps, minima and maxima, mirrored coordinates, products and inverses of matrices, transpositions between any places, forward and inverse cosine transforms of all power-of-two sizes (to within rounding, writing nothing else), comparisons of matrices of any sizes, deques and insertions.",
 ["inputs"],
 "operands of every magnitude x matrix sizes and offsets x transform sizes up to 256 x operation sequences on the deque",
 "The tests evaluate a few points of each function; zero, the largest values, offsets and sizes other than the usual never occur.",
 ["util/MathsHelper.go", "util/misc.go", "util/deque.go", "util/sliceutil.go", "jxlio/bitreader.go"],
 [("arithmetic, matrices and transforms", "util/MathsHelper.go"), ("matrices and slices", "util/misc.go, util/sliceutil.go"), ("deque", "util/deque.go")],
 ["values returned", "destination and operands after the call"],
 "property-based testing: comparison with definitions in exact or double-precision arithmetic",
 "Arbitrary-precision, double-precision and slice models.")

prop("C30", "Images can be edited and copied without affecting one another",
 "Every sequence of edits, copies, conversions and queries of decoded images behaves as if each image held its own samples: a copy has the samples, sizes, channels and profile of its original (or zeros, when made without samples) and shares nothing with it; an edit of one channel of one image shows in every later conversion of that image (ToImage, ChannelToImage, PNG, PFM) and nowhere else; conversions change nothing; and access to a channel that does not exist is an error.",
 ["inputs", "histories"],
 "sequences of operations x images and copies of copies x kinds of edits x sample formats, colour spaces and extra channels",
 "The tests call each accessor once on a fresh image, and never convert an image after an edit or look at the original of a copy.",
 ["core/jxl_image.go", "core/png_writer.go", "core/pfm_writer.go", "image/imagebuffer.go"],
 [("copies", "core/jxl_image.go NewJXLImageFromJXLImage"), ("channels", "core/jxl_image.go GetIntChannelData, SetIntChannelData and their float counterparts"), ("queries", "core/jxl_image.go")],
 ["samples of all images after each step", "Go images, PNG and PFM files made of them"],
 "property-based testing: stateful, model-based generation of histories of images and their copies",
 "Every image has its own model; after each operation all images are compared with their models.")

prop("C31", "Deep integer and floating point samples decode exactly",
 "Samples of 17 to 31 bits and floating point samples of every format (2 to 8 exponent bits, 2 to 23 mantissa bits) decode to exactly the value that was encoded, in colour as well as in extra channels: integers to the same integer and floating point samples to the same number, including signs, zeros and subnormal numbers.",
 ["inputs", "configurations"],
 "all bit patterns x integer depths 17..31 x all float formats x formats that differ between channels x predictors and trees whose sums need more than 32 bits",
 "No test decodes an image with samples of more than 16 bits or of a float format other than the default.",
 ["frame/Frame.go", "frame/ModularChannel.go", "bundle/BitDepthHeader.go", "jxlio/bitreader.go"],
 [("samples to numbers", "frame/Frame.go sampleToFloat"), ("predictions", "frame/ModularChannel.go prediction"), ("signed values", "jxlio/bitreader.go UnpackSigned")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder -> decode round trip",
 "Random bit patterns in every format, exact comparison. Infinities and NaNs are compared in 32-bit samples only; the weighted predictor is not used with these depths.")

prop("C19", "VarDCT coefficients become the samples the transforms define",
 "Decoding a VarDCT frame gives, up to the rounding of single-precision arithmetic, the samples that the format's definition assigns to its coded coefficients: for every one of the 27 block transforms at every legal position, every per-block multiplier, global scale and LF quantiser, every correlation factor between channels, any number of passes with their shifts, and every frame size. Extra channels coded beside it come out exactly.",
 ["inputs", "configurations"],
 "all coefficient contents x arrangements of the 27 block types x quantiser settings and multipliers x chroma-from-luma maps and LF factors x passes x group layouts x frame sizes",
 "The sample files were written by one encoder that uses about a third of the block types and default correlation settings in one pass; results are compared with hashes of the decoder's own earlier output. AFV variants, DCT4, tall blocks, several passes or correlation factors are never compared with what the format says.",
 ["frame/HFCoefficients.go", "frame/PassGroup.go", "frame/lfcoefficients.go", "frame/hfmetadata.go", "frame/HFGlobal.go", "frame/LFGlobal.go", "frame/transformtype.go", "util/MathsHelper.go"],
 [("inverse transforms", "frame/PassGroup.go invertVarDCT, invertAFV"), ("coefficients", "frame/HFCoefficients.go"), ("LF image", "frame/lfcoefficients.go"), ("block map", "frame/hfmetadata.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent VarDCT encoder and double-precision reference decoder (differential)",
 "Random block maps and coefficients; the model computes every sample in double precision with an error bound that grows with the coefficients. Adaptive smoothing of the LF image is a known finding (the existing tests fix the wrong formula): what the decoder does instead is modelled, so other deviations are still reported.")

prop("C28", "Custom quantisation tables, coefficient orders and contexts are honoured",
 "Every way a VarDCT frame can describe its coding beside the defaults gives the samples the format defines: quantisation tables in every encoding mode (bands, Hornuss, DCT2, DCT4, DCT4x8, AFV, raw), explicit coefficient orders for every transform class, block contexts by LF thresholds, quantiser thresholds and clusters, several HF presets and several histograms per pass.",
 ["inputs", "configurations"],
 "all table modes and parameters x permutations of the 13 coefficient orders x block context maps x numbers of presets x coefficient contents",
 "The sample files use the default tables, contexts and mostly natural orders; the parameter reading tests feed fake bit readers and look at single values.",
 ["frame/HFGlobal.go", "frame/HFPass.go", "frame/HFBlockContext.go", "frame/dctparams.go", "frame/HFCoefficients.go"],
 [("tables", "frame/HFGlobal.go"), ("orders and histograms", "frame/HFPass.go"), ("block contexts", "frame/HFBlockContext.go"), ("context computation", "frame/HFCoefficients.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent VarDCT encoder and double-precision reference decoder (differential)",
 "Random tables, orders and contexts; same model and tolerance as C19.")

prop("C20", "Restoration filters give the samples the format defines",
 "A frame's restoration filters change its colours exactly as the format defines, up to single-precision rounding: the Gaborish smoothing with default or custom weights, and the edge-preserving filter with one to three iterations, with strengths derived from each block's multiplier and sharpness and the sharpness table. This holds in VarDCT and modular frames, across block and group borders and at the edges of frames of every size; nothing beyond the frame's edges takes part, and extra channels are left alone.",
 ["inputs", "configurations"],
 "all colour contents x frame sizes x filter combinations and weights x sharpness and multiplier maps x XYB or not",
 "Tests of the filters use tiny buffers with one setting or compare hashes of the decoder's own output of a few files; edges, custom weights, three iterations and per-block strengths are not compared with the definition.",
 ["frame/Frame.go", "frame/RestorationFilter.go", "frame/hfmetadata.go"],
 [("Gaborish", "frame/Frame.go performGabConvolution"), ("edge-preserving filter", "frame/Frame.go performEdgePreservingFilter"), ("parameters", "frame/RestorationFilter.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder and double-precision reference filters (differential)",
 "Random frames and filters; the reference propagates error bounds through the filters. Custom weights and sigmas of the edge-preserving filter are a known finding (existing tests fix the header's misreading) and only sampled.")

prop("C21", "XYB images become the right linear colours",
 "Images coded in the XYB colour space decode to the linear RGB values that the format's inverse transform gives, in the primaries and white point of the image's colour encoding, for default and custom inverse matrices, biases, quantisation biases, intensity targets, X and B quantisation scales and LF dequantisation factors, in VarDCT and modular frames, upsampled or not. Extra channels are not affected.",
 ["inputs", "configurations"],
 "all XYB contents x opsin parameters x intensity targets x quantisation scales x colour encodings x both codings",
 "The XYB sample files all use default parameters, an intensity target of 255 and sRGB; unit tests invert a few pixels with the default matrix.",
 ["colour/OpsinInverseMatrix.go", "colour/colour_management.go", "colour/CIEXY.go", "colour/ToneMapping.go", "core/jxl_codestream_decoder.go", "frame/Frame.go", "frame/HFCoefficients.go"],
 [("inverse transform", "colour/OpsinInverseMatrix.go InvertXYB, GetMatrix"), ("modular dequantisation", "frame/Frame.go DecodeFrame"), ("scales and biases", "frame/HFCoefficients.go")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder and double-precision reference colour transform (differential)",
 "Random images and parameters; tolerance from propagated single-precision errors.")

prop("C23", "Frames with a separate LF frame decode to the right samples",
 "A frame that uses an LF frame decodes to the samples the format gives with that frame's decoded, filtered and not colour converted samples as its LF image: no LF coefficients are read, no LF smoothing is done, block contexts see LF index 0. This holds for one to three levels of LF frames, each VarDCT or modular with its own filters, group sizes and codes, XYB or not, at any frame size, over several LF groups.",
 ["inputs", "configurations"],
 "all chains of one to three LF frames x coding of each x filters x sizes x LF groups x colour spaces",
 "No sample file or unit test has a frame that uses an LF frame at all.",
 ["frame/lfcoefficients.go", "frame/FrameHeader.go", "core/jxl_codestream_decoder.go", "frame/Frame.go", "frame/HFCoefficients.go"],
 [("LF frame copied", "frame/lfcoefficients.go NewLFCoefficientsWithReader"), ("levels", "core/jxl_codestream_decoder.go lfBuffer")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder and double-precision reference decoder of chains of frames (differential)",
 "Random frames; tolerance from propagated single-precision errors.")

prop("C24", "What is broken or not supported is refused, not decoded to something else",
 "Decoding never quietly gives an image for a codestream whose structure is invalid or that uses a feature the decoder lacks; it gives an error. Invalid structures: an ANS stream whose final state is wrong, histograms and prefix codes that are incomplete or oversubscribed, symbols outside the alphabet, cluster maps with unused clusters, predictors, transforms, transform channels, block types, block positions, coefficient counts and sharpness values out of range, impossible permutations, sections shorter than what is read from them. Features that change the picture and are not implemented: patches, splines, noise, missing LF frames. For animations and previews either an error or the right picture is given.",
 ["inputs"],
 "all valid images of the generators x one structural error at any place where it can occur; all images x unsupported features",
 "Unit tests check a few error paths with mocked readers; an error check that is dropped or moved still passes them when no test has that error in that place.",
 ["entropy/EntropyStream.go", "entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "frame/MATree.go", "frame/ModularStream.go", "frame/hfmetadata.go", "frame/HFCoefficients.go", "frame/Frame.go", "frame/LFGlobal.go"],
 [("final ANS state", "entropy/EntropyStream.go ValidateFinalState"), ("section bounds", "frame/Frame.go setupBitReaders"), ("unsupported flags", "frame/LFGlobal.go NewLFGlobalWithReader")],
 ["error returned by Decode"],
 "property-based testing: independent encoder with injected structural errors, oracle: an error must be returned",
 "One error per image at a random occasion; an image that decodes without an error is a violation.")

prop("C29", "JPEG-style frames decode with the right chroma",
 "Frames coded as YCbCr decode to the RGB values of the format's conversion, for every combination of chroma subsampling of the three channels, every frame size including odd ones, VarDCT and modular coding, several groups, block contexts that depend on subsampled LF values, extra channels and restoration filters: lower-resolution channels are enlarged with the format's 3:1 weights at the right phase, clamped at the frame's edges.",
 ["inputs", "configurations"],
 "all contents x 64 subsampling combinations x frame sizes x codings x filters",
 "Three of the sample files hold JPEG transcodes with 4:2:0, 4:2:2 and 4:4:4; results are compared with hashes of the decoder's own output. Modular YCbCr, vertical-only subsampling, odd sizes and subsampled luma are not reached.",
 ["frame/Frame.go", "frame/FrameHeader.go", "frame/lfcoefficients.go", "frame/HFCoefficients.go", "frame/PassGroup.go", "frame/ModularStream.go", "core/jxl_codestream_decoder.go"],
 [("chroma enlargement", "frame/Frame.go invertSubsampling, cropColours"), ("subsampling factors", "frame/FrameHeader.go"), ("conversion", "core/jxl_codestream_decoder.go performColourTransforms")],
 ["samples of the image returned by Decode"],
 "property-based testing: independent encoder and double-precision reference conversion (differential)",
 "Random images and subsamplings, same model and tolerance as C19 followed by the reference enlargement and conversion.")

prop("C32", "Decoding options are honoured",
 "Decoding with the parse-only option walks through all frames of a file without decoding them: every valid file (container or bare codestream, any kinds and number of frames, with bytes after its end or not) gives neither an image nor an error, every file that ends early gives an error, and the decoder can be used again. The limit of goroutines is taken as given for every positive number, and defaults to the number of processors.",
 ["inputs", "configurations"],
 "all valid files x all prefixes x options x decoders used before or not",
 "No test decodes with an option set; the tests of the frame code build the option record themselves.",
 ["options/jxl_options.go", "core/jxl_codestream_decoder.go", "core/jxl_decoder.go", "frame/Frame.go"],
 [("parse-only loop", "core/jxl_codestream_decoder.go decode"), ("skipping frame data", "frame/Frame.go SkipFrameData"), ("options", "options/jxl_options.go NewJXLOptions")],
 ["image and error returned by Decode"],
 "property-based testing: generated files and prefixes, oracle: error exactly if the file is cut",
 "Random files; the debug and RenderVarblocks options are not claimed (no observable meaning and not implemented).")

prop("C33", "Colour functions are what their standards define",
 "Transfer functions (linear, sRGB, BT.709, PQ, DCI and every gamma a header can hold) compute, in both directions, the values of their standards over the whole range from 0 to 1, increase everywhere and are inverses of each other; unsupported ones are reported as errors. Conversion matrices between colour spaces equal those derived from primaries and white points with Bradford adaptation, keep white white, invert each other and are the identity for equal spaces; the named primaries, white points and legal enumeration values are those of the format; degenerate colour spaces give errors instead of undefined numbers, and no result shares memory with constants or earlier results.",
 ["inputs"],
 "all sample values x all transfer functions x pairs of colour spaces around the common ones x all enumeration values",
 "The tests adapt one white point pair and convert one pair of spaces; transfer functions are not tested at all, and files with PQ or unusual primaries are only read.",
 ["colour/colour_management.go", "colour/transfer_function.go", "colour/colour_flags.go", "colour/CIEXY.go", "colour/CIEPrimaries.go", "colour/OpsinInverseMatrix.go"],
 [("transfer functions", "colour/transfer_function.go, colour/colour_management.go GetTransferFunction"), ("conversion matrices", "colour/colour_management.go GetConversionMatrix"), ("enumerations", "colour/colour_flags.go")],
 ["values returned by the colour package"],
 "property-based testing: comparison with double-precision definitions, inverses and algebraic laws",
 "Random values and colour spaces; HLG is not implemented (an error), and the D50 white point is not asserted because the existing tests fix a wrong value.")
