PROPS = []


def P(id, title, statement, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **kw))


P("P01", "Bit reads return exactly the next bits of the stream",
  "Reading n bits (0 to 64) from a byte stream returns the next n bits, least significant bit first, whatever the position inside the current byte, "
  "and advances the position and the consumed-bit count by exactly n; a request beyond the end of the data or for more than 64 bits is an error. "
  "Peeking returns the same value and moves nothing, skipping bits or bytes moves exactly that far, alignment moves to the next byte boundary, and whole-byte reads are refused off a byte boundary.",
  "every stream content and length, every position, every bit count",
  "tests read a few fixed byte patterns from the start of a stream; positions, counts and ends of data combine without limit",
  ["jxlio/bitreader.go"],
  [("bit cache (current byte, index) and stream position kept in step", "jxlio/bitreader.go"),
   ("peek saves and restores the reader", "jxlio/bitreader.go ShowBits")])
P("P02", "Coded integers and half floats decode to their defined values",
  "Every coded field (bit, byte, selector-coded 32 bit, variable length 64 bit and 8 bit, enumeration, half precision float, 7-bit variable length integer, signed zig-zag) decodes to the value the "
  "format defines for the bits at the current position and consumes exactly the bits of that code. "
  "Half floats that are infinite or NaN, enumeration values above 63 and truncated codes are errors.",
  "every bit pattern at every position, every selector parameter set",
  "tests decode a handful of hand-made codes; the value space is 2^64 and the error cases depend on where the data ends",
  ["jxlio/bitreader.go"],
  [("selector and extension decoding over bit reads", "jxlio/bitreader.go")])
P("P03", "Image size, preview, channel and extension headers decode as defined",
  "The size header (direct, div8 and aspect-ratio forms), the preview size, the bit depth, the extra channel descriptions (type, depth, dimension shift, name, alpha premultiplication, "
  "spot colour, CFA index), the extension block lengths and the context of an ICC byte decode to the values the format defines for the bits read, consume exactly the bits of those fields, "
  "and are refused exactly when the format refuses them (dimensions above 2^30 or areas above 2^40, invalid depths, channel types outside the enumeration, truncation). "
  "Omitted fields take their defined defaults.",
  "every bit sequence at every position",
  "tests decode a few hand-made headers; the fields have dozens of interacting selector forms and 32-bit boundary values",
  ["bundle/image_header.go", "bundle/BitDepthHeader.go", "bundle/extra_channel_info.go", "bundle/Extensions.go"],
  [("size forms and ratios", "bundle/image_header.go readSizeHeader, readPreviewHeader, getWidthFromRatio"),
   ("channel description", "bundle/extra_channel_info.go"), ("extension lengths", "bundle/Extensions.go")])
P("P04", "Colour encoding, tone mapping and opsin headers decode as defined",
  "The colour encoding (ICC flag, colour space, white point, primaries, transfer function, rendering intent and custom coordinates), the tone mapping block and the inverse opsin matrix "
  "decode to the values the format defines for the bits read, consume exactly those bits, and are refused exactly for values outside the defined enumerations, infinite or NaN half floats, "
  "out-of-range intensity values and truncation; a default flag yields the documented defaults. The signed power used by the transfer code is odd in its argument.",
  "every bit sequence at every position",
  "tests cover a few encodings; enumerations, custom coordinates and default flags combine in hundreds of forms",
  ["colour/colour_encoding_bundle.go", "colour/CustomXY.go", "colour/ToneMapping.go", "colour/OpsinInverseMatrix.go", "util/MathsHelper.go"],
  [("enumerations and custom coordinates", "colour/colour_encoding_bundle.go, colour/CustomXY.go"),
   ("defaults and half floats", "colour/ToneMapping.go, colour/OpsinInverseMatrix.go")])
P("P12", "Modular neighbours and predictors 0-13 give their defined values",
  "For every pixel of a modular channel, each neighbour (west, north, north-west, north-east, north-north, north-east-east, west-west) is the sample the format defines, "
  "including its substitutes at the left, right and top edges, and each of the predictors 0 to 13 is the defined function of those neighbours; any other predictor number is an error.",
  "every channel size, sample values and position, every predictor number",
  "tests use one small channel; edge substitutions and integer rounding depend on position and sign",
  ["frame/ModularChannel.go"],
  [("edge substitutions", "frame/ModularChannel.go west..northEastEast"), ("prediction", "frame/ModularChannel.go prediction")])
P("P13", "Weighted self-correcting prediction follows its definition",
  "For every pixel, the weighted predictor computes the four sub-predictions, the error-derived weights, the weighted prediction and its clamping to the neighbours exactly as defined "
  "from the channel samples, the stored sub-predictor errors and the header parameters, stores them for the later update, and returns the neighbouring true error of largest magnitude; "
  "no index or shift leaves its range.",
  "every channel size, position, samples, errors below 2^28 and header parameters",
  "tests use one small channel; rounding, clamping and weight scaling depend on value ranges and edges",
  ["frame/ModularChannel.go"],
  [("errors of neighbours", "frame/ModularChannel.go errorNorth.."), ("weights and prediction", "frame/ModularChannel.go prePredictWP")])
P("P60", "Image buffers convert between integer and float without losing samples",
  "An image buffer created from a size, a matrix or another buffer holds exactly those samples in memory of its own; casting to float divides every sample by the given maximum value, "
  "casting to integer scales, rounds and limits every sample to 0 through the maximum, the conditional casts act only on the other representation, clamping limits every sample and nothing else changes, "
  "and exactly one representation is active.",
  "every buffer size, sample values and maximum value",
  "tests convert a few tiny buffers; aliasing and boundary samples need arbitrary sizes and values",
  ["image/imagebuffer.go"],
  [("copying constructors", "image/imagebuffer.go New*"), ("casts and clamp", "image/imagebuffer.go cast*, Clamp")])
P("P70", "Matrix allocation gives independent rows of the requested shape",
  "Allocating a two- or three-dimensional matrix of any element type used by the decoder yields exactly the requested dimensions with every element zero, where no two rows share memory "
  "and appending to or writing one row never changes another.",
  "every dimension and element type in use",
  "tests allocate a few shapes; aliasing between rows shows only on later writes",
  ["util/misc.go"],
  [("row construction", "util/misc.go MakeMatrix2D, MakeMatrix3D")])
P("P71", "Integer helpers compute their mathematical definition over the whole range",
  "Ceiling division, the logarithm helpers, minimum, maximum, absolute value, the clamps (against two or three bounds in any order) and rectangle corners return their mathematical definition "
  "for every argument in their domain, without overflow or panic.",
  "every argument in the domain, up to the full 32 and 64 bit range",
  "tests check a few arguments; errors show at zero, powers of two and range limits",
  ["util/MathsHelper.go", "util/IntPoint.go", "util/Point.go"],
  [("logarithms and division", "util/MathsHelper.go"), ("rectangles", "util/IntPoint.go")])
P("P72", "Matrix operations and the deque follow their algebraic definition",
  "Transposing a block (from and to any offset) writes every element to its mirrored place and nothing else, the identity matrix, 3x3 product, matrix-vector product and 3x3 inverse are the "
  "algebraic expressions of their operands and refuse operands of the wrong shape, and inserting at or removing from the front of the deque changes exactly the front element, whatever the history of operations.",
  "every matrix shape, offset and content; every deque history",
  "tests transform a few matrices; offsets, non-square shapes and operation histories are unbounded",
  ["util/MathsHelper.go", "util/deque.go"],
  [("transposition", "util/MathsHelper.go TransposeMatrixInto"), ("linked nodes", "util/deque.go")])
