PROPS = []


def P(id, title, statement, quant, why, files, mech, note="", over=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note,
                      over=over or ["inputs"]))


P("C01", "Fixed-length fields are read most significant bit first, exactly",
  "Reading an n-bit field returns the number spelled by the next n bits of the stream, most significant bit first, and advances the read position by exactly n bits. "
  "A new reader starts at the first bit of the data it was given, and reading never changes the data.",
  "every stream, every position with n bits left, every n from 0 to 62",
  "the tests read one or two fixed byte patterns; the value depends on position, width and every data bit",
  ["internal/bitstream/bitstream.go"],
  [("bit reader", "BitStream.F, readBit, NewBitStream in internal/bitstream/bitstream.go")])

P("C02", "Variable-length numbers decode to the value their bit pattern denotes",
  "The unsigned variable-length, little-endian base-128, signed, non-symmetric and little-endian byte codes each decode every well-formed code to the number the AV1 bitstream format assigns to it. "
  "Each consumes exactly the bits of its code, and the base-128 reader records how many bytes it used.",
  "every stream and position holding a complete code; every code length the format allows (signed fields of 1 to 32 bits, non-symmetric ranges up to 65536, up to 7 little-endian bytes)",
  "no test reads any of these codes; correctness depends on the run of leading zeros, continuation bits and sign position of arbitrary data",
  ["internal/bitstream/bitstream.go"],
  [("uvlc", "BitStream.Uvlc"), ("leb128", "BitStream.Leb128"), ("su", "BitStream.Su"), ("ns", "BitStream.Ns"), ("le", "BitStream.Le")],
  note="Leading-zero runs and positions are unbounded (loop invariant with a termination measure).")

P("C03", "Alignment and trailing bits land on the promised position",
  "Byte alignment moves the reader to the next byte boundary and nowhere else, and stays put on one; skipping trailing bits consumes exactly the announced number of bits. "
  "The end-of-data test is true exactly when unread bits remain.",
  "every stream, position and number of trailing bits",
  "no test exercises alignment, trailing bits or the end-of-data test",
  ["internal/bitstream/bitstream.go"],
  [("byte_alignment", "BitStream.ByteAlignment"), ("trailing_bits", "BitStream.TrailingBits"), ("more data", "BitStream.MoreDataInBistream")])

P("C04", "Unit headers carry exactly their one or two bytes of fields",
  "Parsing the header of a bitstream unit returns the unit type, the extension flag and the size flag spelled by its first byte, and the temporal and spatial layer from the extension byte exactly when the flag announces one. "
  "It consumes one byte, or two with an extension.",
  "every stream and position",
  "the one test parses a single fixed byte without an extension",
  ["internal/header/header.go"],
  [("unit header", "NewHeader, NewExtensionHeader in internal/header/header.go")])

P("C05", "Sequence headers decode to exactly the fields their bits spell",
  "Parsing a sequence header yields, for every combination of presence flags, profiles, operating points, timing and decoder-model information, exactly the values the AV1 syntax assigns to its bits, with the specified inferred values for absent fields. "
  "It consumes exactly the bits of the header and selects the first operating point.",
  "every well-formed sequence header at every position of every stream; all flag combinations, up to 32 operating points",
  "the tests parse one file's header; conditional fields shift everything after them only for particular flag combinations",
  ["internal/sequenceheader/sequence_header.go"],
  [("sequence header", "NewSequenceHeader, NewTimingInfo and helpers in internal/sequenceheader/sequence_header.go")])

P("C06", "Colour configuration follows profile, depth and matrix rules",
  "Parsing the colour configuration yields the bit depth, plane count, subsampling, colour description, range and chroma position that the profile and the coded flags determine, with the special cases for monochrome and for identity-matrix sRGB. "
  "It consumes exactly the bits present for that case.",
  "every stream and position, every profile",
  "no test covers monochrome, sRGB, 12-bit or profile 2",
  ["internal/sequenceheader/sequence_header.go"],
  [("colour configuration", "NewColorConfig in internal/sequenceheader/sequence_header.go")])

P("C07", "The tile layout partitions every frame exactly as signalled",
  "For every frame size and superblock size, tile column and row starts begin at 0, increase strictly, follow the signalled uniform or explicit sizes, and end at the frame edge, so that tiles cover the frame without overlap. "
  "The counts and their logarithms, the context tile and the size-field width are those the format assigns, and exactly the layout's bits are consumed.",
  "every frame of up to 16384 by 16384 4x4 units, both superblock sizes, every layout code; every tile index",
  "no test parses a tile layout; errors need large frames, 128-sample superblocks or explicit sizes",
  ["internal/tileinfo/tile_info.go", "internal/util/util.go"],
  [("tile info", "NewTileInfo in internal/tileinfo/tile_info.go")],
  note="All loops by invariant; the minimum and maximum logarithms are those of util.TileLog2, proved under C08.")

P("C08", "Integer helper functions compute their mathematical definition",
  "Minimum, maximum, absolute value, clipping to a range or to the sample range of a bit depth, rounding shifts, base-2 logarithms, boolean conversion, equality of coordinate pairs, vector-matrix products and sorting each return exactly their mathematical result. "
  "Sorting returns the same numbers in ascending order.",
  "all integer arguments for which the result fits in 64 bits (lists up to 6 elements for sorting)",
  "one test sorts one list; the rest is untested and wrong at isolated arguments only",
  ["internal/util/util.go"],
  [("helpers", "Min, Max, Abs, Clip3, Clip1, Round2, Round2Signed, FloorLog2, CeilLog2, TileLog2, Bool, Int, Equals, LsProduct, Sort")],
  note="Sort: proved for list lengths up to 6 (bounded), all contents.")

P("C09", "Fixed-point cosine, sine and bit reversal follow the transform's definition",
  "The fixed-point cosine and sine used by the inverse transforms equal the specified quarter-wave table extended by symmetry to every angle, positive or negative. "
  "Bit reversal of an n-bit index reverses exactly its n bits.",
  "every angle, every index and every bit count up to 8",
  "nothing tests the trigonometric helpers; an error in one quadrant shows up at a fraction of the angles",
  ["internal/util/util.go", "internal/shared/constants.go"],
  [("trigonometry", "Cos128, Sin128, Brev in internal/util/util.go")])

P("C10", "Recentred and interleaved values decode one to one",
  "The inverse recentring step and the inverse interleaving of signed differences map coded values onto exactly the values the format assigns, never two codes to the same value, and never outside the permitted range.",
  "every reference value, every code and every range size",
  "not tested; a collision or an off-by-one appears only for particular pairs of reference and code",
  ["internal/util/util.go"],
  [("recentring", "InverseRecenter"), ("segment id interleave", "NegDeinterleave")])

UH = "internal/uncompressedheader/uncompressed_header.go"

P("C11", "Quantizer and segmentation parameters decode to what their bits spell",
  "The quantizer, delta-quantizer, delta-filter and segmentation parts of a frame header yield exactly the base index, per-plane deltas, matrix levels and per-segment features the AV1 syntax assigns, with the specified clipping and inferred values, and consume exactly their bits. "
  "The quantizer index of a segment combines base index, block delta and segment delta as specified.",
  "every stream and position, every plane count and flag combination; all 64 segment features",
  "the tests cover the two delta parameter functions on single bytes; segmentation and quantizer syntax is untested",
  [UH], [("quantizer", "quantizationParams, readDeltaQ, deltaQParams, deltaLfParams"), ("segmentation", "segmentationParams, segFeatureActiveIdx, GetQIndex")])

P("C12", "In-loop filter and coding-mode parameters decode to what their bits spell",
  "The deblocking, CDEF and loop-restoration parameters, the transform mode, the reference mode and the interpolation filter of a frame header are exactly those the AV1 syntax assigns to the bits. "
  "They take the specified values when lossless coding, intra block copy or the sequence header disables them, and the bits consumed are exactly theirs.",
  "every stream and position; every plane count and combination of enabling flags",
  "only transform mode and reference mode are tested, on fixed bytes",
  [UH], [("filters", "loopFilterParams, cdefParams, lrParams"), ("modes", "readTxMode, frameReferenceMode, readInterpolationFilter")])

P("C13", "Frame sizes follow the sequence limits, override and super-resolution",
  "The frame, upscaled and render sizes of a frame are those the sequence header and the frame's own size, super-resolution and render fields determine. "
  "The 4x4 grid derived from them covers the frame and is the smallest of even size that does.",
  "every stream, every maximum size up to 65536 by 65536, every override and super-resolution code",
  "no test parses a frame size; errors need an override, super-resolution or odd sizes",
  [UH], [("sizes", "frameSize, renderSize, superResParams, computeImageSize")])

P("C14", "Order hints compare modulo their width and select skip-mode references",
  "The distance between two order hints is their signed difference modulo the hint width, zero when order hints are off. "
  "Skip mode is offered exactly when the AV1 rules find two suitable references, and then uses the nearest past and future references, or the two nearest past ones.",
  "every pair of hints of every width up to 8 bits; every assignment of hints to reference slots",
  "no test compares hints; wrap-around and ties arise only in particular histories",
  [UH], [("hints", "GetRelativeDist"), ("skip mode", "skipModeParams")])

P("C15", "Global motion parameters decode to exactly the specified warp",
  "For every inter frame each reference's global motion type and six parameters are those the AV1 syntax assigns: sub-exponential codes recentred on the previous parameters, scaled and bounded per type. "
  "Parameters not coded take the identity or the value tied to a coded one, and exactly the coded bits are consumed.",
  "every stream and position, every admissible previous parameter set, all types and both motion-vector precisions",
  "no test decodes global motion; the value depends on the code, the previous parameter, the type and the precision",
  [UH], [("global motion", "globalMotionParams, readGlobalParam, decodeSubexp and the recentring helpers")])

P("C16", "Film grain parameters decode to exactly what their bits spell",
  "The film grain parameters of a shown or showable frame are exactly the seed, scaling points, autoregression coefficients, shifts, multipliers and flags the AV1 syntax assigns to the bits, for every chroma format and lag. "
  "When the grain is absent or not applied all parameters are reset and nothing else is consumed.",
  "every stream and position, every chroma format and number of points up to 15",
  "no test decodes film grain",
  [UH], [("film grain", "filmGrainParams, resetGrainParams")],
  note="A frame that copies another frame's grain (update_grain = 0) is outside the contract: the copy is not implemented in the repository.")

P("C17", "A frame without a primary reference starts from the default state",
  "Setting up a frame that refers to no previous state clears the segmentation features and the previous segment ids of the whole frame, and resets loop-filter deltas and global motion parameters to the defaults of the format.",
  "every previous state",
  "no test sets up past independence",
  [UH], [("past independence", "setupPastIndependence")],
  note="The clearing of the segment-id grid is BOUNDED: frames of 2..4 rows and 2..6 columns of 4x4 units; the rest of the contract holds for all states.")

P("C18", "Symbols and literals decode exactly as the arithmetic decoder defines them",
  "Reading a symbol returns the first symbol of the table whose interval holds the decoder's value, leaves range, value, bit position and remaining bits exactly as renormalisation defines (16-bit range, value below the range), and moves the table towards that symbol at the format's rate while keeping it a distribution; a literal of n bits is n equally likely symbols, most significant first.",
  "every table of 2 to 16 symbols, every decoder state between two symbols, every data; literals of up to 16 bits",
  "no test reads a symbol, and a wrong bit anywhere desynchronises the rest of the tile",
  ["internal/symbol/symbol.go", "internal/literal/literal.go", "internal/util/util.go"], [("symbol decoding", "ReadSymbol in internal/symbol/symbol.go"), ("literals", "L, readBool in internal/literal/literal.go")])

P("C19", "Probability tables reach every tile, and adapted tables the next frame",
  "Every default table is a distribution of the format's shape; frames without a reference start from the defaults (coefficient tables by quantizer class); saving, loading, finishing a tile and finishing a frame move every one of the tables to its own counterpart and nothing else; a tile starts with the decoder at its first bits and adapts copies that share no storage with the frame's, saved or default tables, and ends exactly where its data ends.",
  "all contents of all tables, all slots, tile sizes and positions",
  "no test decodes a tile or a second frame",
  ["internal/uncompressedheader/cdf.go", "internal/tilegroup/tile_group.go"], [("default tables", "initNonCoeffCdfs"), ("saving", "SaveCdfs"), ("tile start", "initSymbol"), ("tile end", "exitSymbol")])

P("C20", "An OBU takes exactly the bytes its size says, whatever it holds",
  "Reading an OBU ends exactly behind its bytes: size from the size field or from the enclosing length minus the header; OBUs of layers outside the selected operating point, padding with any content, reserved types and metadata are passed over without any effect on the decoder's state; sequence headers and frame headers end with trailing bits up to the size; a frame OBU hands the tile group what its header left; a repeated frame header changes nothing.",
  "every data, every header type with and without extension and size field (except tile lists), every operating point",
  "one OBU that ends at the wrong byte loses everything behind it; the tests read three OBUs of one file",
  ["internal/obu/obu.go", "internal/bitstream/bitstream.go", "internal/header/header.go"],
  [("dispatch, drop, trailing bits", "Obu.build in internal/obu/obu.go"), ("padding", "Obu.paddingObu"), ("frame OBU", "Obu.newFrame"), ("repeated header", "ParseFrameHeader")],
  note="That frame headers are read forward and that a tile group of n bytes is read to its end are assumed (trusted contracts of NewUncompressedHeader, NewTileGroup); a shown existing frame panics in this repository and is outside; the OBU's length is at least its payload.")

P("C21", "The inverse transform computes the format's residual for every block",
  "For every transform size, every transform type the format allows for it, every bit depth and the lossless transform, the residual of a block is exactly the one the format's row and column transforms (DCT, ADST, Walsh-Hadamard, identity, with their limits, roundings, order and shifts) give for its dequantised coefficients.",
  "every array of coefficients, all 19 sizes, all allowed types, bit depths 8, 10, 12",
  "no test transforms a block; a wrong butterfly is wrong only for the coefficients that reach it",
  ["internal/tilegroup/transform.go", "internal/util/util.go"],
  [("one-dimensional transforms", "inverseDCT, inverseADST, inverseWalshHadamardTransform, inverseIdentityTransform"), ("two-dimensional transform", "InverseTranform")],
  note="Values of a conforming stream fit the intermediate precision; coefficients outside it are clamped as the format says, other overflow is outside.")

P("C22", "Coefficients are dequantised and residuals added as the format defines",
  "The quantizer steps of each plane are the table entries of the block's quantizer index plus the plane's delta; coefficients are scaled by them and by the quantizer matrix, reduced by the size's factor and limited, and the residual of the inverse transform is added to the predicted samples, mirrored for the flipped types and clipped to the bit depth.",
  "steps: every index, delta, segment and plane; reconstruction: every coefficient, matrix level and sample",
  "no test reconstructs a block",
  ["internal/tilegroup/reconstruct.go", "internal/tilegroup/quantizer.go"],
  [("quantizer steps", "getDcQuant, getAcQuant"), ("reconstruction", "reconstruct")],
  note="The steps are proved for all inputs. The reconstruction is BOUNDED: sizes up to 16x16 (the repository's frame), each size, type and plane at one position and bit depth.")

P("C23", "Transform types, scan orders and coefficient contexts are the format's",
  "The set of transform types of a block is the one its size, prediction and the reduced-set flag define; the type is read with the table of that set (or inferred: from the mode, the other plane or losslessness) and stored for the whole block; the scan visits the coefficients in the order of the size and type; and the contexts that choose the symbol table of each coefficient syntax element (end of block, base and range levels, signs, all-zero) are the functions of the already decoded coefficients and neighbours that the format defines.",
  "every size, type, mode and set; every coefficient block; every neighbour context",
  "no test decodes a coefficient",
  ["internal/tilegroup/coeffs.go", "internal/tilegroup/tile_group.go", "internal/symbol/symbol.go"],
  [("transform types", "getTxSet, isTxTypeInSet, computeTxType, transformType, intraTxTypeSymbol"), ("scan orders", "getScan"), ("contexts", "getEobPtCtx, getCoeffBaseCtx, readCoeffBrSymbol, readDcSignSymbol, allZeroSymbol, getTxClass")],
  note="BOUNDED: getCoeffBaseCtx for positions in the first 5 and last 3 rows and columns; readCoeffBrSymbol for 7 sizes and positions in the first 3 rows or the last. Everything else is proved for all inputs.")

P("C24", "Constant tables hold the format's values",
  "The tables of block sizes, partitions, chroma sizes, transform sizes and splits have the geometry that their names and indices say; filters and weights sum to one, are mirrored and fall as defined; the division and quantizer tables hold the rounded quotients and rising steps; and every constant table of the decoder (default probabilities, quantizers and quantizer matrices, contexts, filters, scans, masks) has the shape and values of the format's.",
  "every entry of every constant table",
  "tests sample no table",
  ["internal/shared/constants.go", "internal/tilegroup/tx_size.go", "internal/tilegroup/predict_inter.go", "internal/tilegroup/quantizer.go", "internal/uncompressedheader/cdf.go", "internal/wedgemask/wedge_mask.go", "internal/util/util.go"],
  [("geometry", "lemmas over the tables of block and transform sizes"), ("filters, weights, quotients", "lemmas over the tables"), ("values", "one lemma per table: digest of shape and values")],
  note="The values of tables that no rule defines are those of the pinned commit (with the fixes listed in known_findings.json), reviewed against the format where it could be reconstructed offline.")

P("C25", "Inter prediction arithmetic is the format's",
  "Inter prediction computes what the format defines: the roundings leave no gain; block positions and steps follow from the motion vector and the reference's size; division by table has the format's shift and factor; a local warp solves the least-squares equations of its samples, and shears and their validity follow; translated and warped blocks are the two-stage 8-tap filters of the reference at those positions, with edges repeated; difference and smooth masks weigh predictions as defined and blended samples are clipped; distance weights follow the order hints; overlapped blending changes only its block.",
  "every sample value, motion vector, set of up to 8 warp samples, mask and depth; block sizes 2 to 16",
  "tests predict no block",
  ["internal/tilegroup/predict_inter.go"],
  [("rounding, scaling, division, shear, least squares, weights", "contracts on each process, all inputs in the format's range"), ("masks and blending", "contracts for all sizes up to 16x16"), ("filters", "contracts equal to the two filter sums over every reference sample")],
  note="Bounded in the repository's 16x16 frames: mask blending at the last position of each size, overlapped blending at multiples of the block size; translated blocks of at most 64 samples with one choice of plane, reference, vertical filter, vertical step and rounding per size and horizontal filter; warped blocks under four local models. predictInter itself, which combines these, is not under contract.")

NOT_APPLICABLE = {}
