# cid: (what is specified and proved, what stands outside the proof)
S = {
"C01": ("`Quantization.quantize` over an arbitrary tensor (opaque shape, ranks 0-3), scale > 0, zero point and every type of 1-32 bits: the result at an arbitrary index is the nearest code, saturated; ties within one of the two neighbours; dtype and shape of the result.",
        "64-bit float rounding (the oracle compares with exact rationals and a tolerance at ties)."),
"C02": ("`dequantize` = (code - zero point) * scale for every code of every type (64-bit wrap-around modelled); quantise after dequantise is the identity on codes; |x - dequantise(quantise(x))| <= scale/2 inside the range.", "float rounding."),
"C03": ("with a policy array the code at an index is floor or ceiling by the policy's own element, saturated; policy shape and index correspondence; no policy = C01.", "float rounding."),
"C04": ("`Dtype` constructor over an abstract text: accepted iff it is (u)intN with 1 <= N <= 32; limits and widths exact for every N; numpy dtype wide enough.", "harnesses for malformed names carry a stand-in (enumerated and mutated names): regular expressions are evaluated by their own contract on abstract texts."),
"C05": ("every checked operation on scalars and arrays of any rank, all operand types: either the exact result in a type that holds it or a wider one; never a wrapped value. Exact fixed-width semantics in the engine.", "-"),
"C06": ("`LUT` construction from an uninterpreted activation: the entry at an arbitrary code is the quantised activation; lookup by code, by array and by offset for all type pairs; rounding policies.", "float rounding of the activation."),
"C07": ("loop contracts (ghosts: run bounds, pruned intervals) over `ReducedLUT` for tables of arbitrary length and content and any depth: every index answers the original entry.", "where a rewrite no longer matches the loop contracts: tables up to a stated length, labelled bounded."),
"C08": ("serialise / deserialise, lookup and iteration of an arbitrary reduced table, over C07's contracts.", "json round trip by contract."),
"C09": ("`FullyConnected.build/from_model/infer`, arbitrary dimensions up to 32768 inputs, weights, bias, zero points, real scales; result within one code of the exact requantised sum and saturated; multiplier by C10's contract, frexp exponents enumerated.", "the accumulator is assumed to fit 32 bits (precondition)."),
"C10": ("mantissa/shift of every real multiplier of either sign, frexp exponents -33..30 enumerated, everything else symbolic; product error bound.", "exponents outside the enumeration: oracle only."),
"C11": ("`QLinearMatMul` constructor/from_model/infer on vectors, batches, 3-d batches, arbitrary dimensions up to 33000.", "-"),
"C12": ("`QLinearAdd` for equal and broadcast shapes.", "-"),
"C13": ("Tanh/Sigmoid/Quantize/Dequantize layers, arbitrary shapes, both construction routes.", "tanh, exp uninterpreted (monotone facts only where needed)."),
"C14": ("softmax non-negative, sums to one (symbolic finite sum), ratios of entries, per-sample independence, exponents never above 0.", "exp by its functional equation; float rounding."),
"C15": ("quantised ReLU at an arbitrary index for all codes, zero points, scale ratios.", "-"),
"C16": ("`LSTM` inference by a loop contract over the time steps: every intermediate within one code of the operation on its operands; states inside their types; integer-only mode over C10's contract.", "multipliers up to 2^20 (2^11 in integer-only mode) as precondition."),
"C17": ("two runs (self-composition) of arbitrary lengths and batches over the same contract: equal prefixes give equal states; a sample's states do not depend on the others; last state / whole sequence; no memory of a previous run.", "-"),
"C18": ("`SequentialNetwork` constructor and infer by loop contracts for any number of layers (ranks 1-3, both engines): order, recorded outputs, no state between runs or networks; `from_json_file` on a scratch file whose parsed contents stand for an arbitrary description.", "builders by C19's contracts."),
"C19": ("contracts of C06, C09, C11-C16 proved again on layers obtained from the real builders with distinct symbols for every described parameter; unsupported types rejected for an arbitrary text.", "-"),
"C20": ("canonical-history argument: every public operation from an arbitrary canonical state gives the quantised view of the new parameters and an object that is, attribute by attribute, a canonical one again (an inductive invariant).", "if an object grows attributes of its own: all pairs of operations (bounded, labelled). Outside mutation of the caller's array."),
"C21": ("same argument for activation tables: `quantize_activation_node`, `NodeLUT`, node hooks, export and the engine's lookup.", "Distribution by C22's contract."),
"C22": ("`Distribution.quantize` over an arbitrary range in every mode for 14 types; the range covers the data for constructed distributions and every slice (edge loop by contract).", "np.sort, np.histogram, searchsorted by contract; float rounding."),
"C23": ("`KerasDense.quantize` on an arbitrary float layer; bias scale/zero point/codes/exports after construction and after every public change and pair of changes, closure as in C20.", "Distribution by C22; the Keras layer by its attributes."),
"C24": ("every helper of both implementations against its coefficient, any number of samples/inputs/outputs; `_qubo_dense` hands each output's form to the solver; **Lean theorem** `lemmas/qubo.lean` (compiled on every run): that form is the mean squared error plus a constant.", "dimod/neal by contract."),
"C25": ("`move`, descent (`while` contract, ghost best) and annealing over an uninterpreted loss; decoding of samples; driver and layers.", "termination; simanneal's and the samplers' contracts."),
"C26": ("tweaks, copies, best-first search (`while` contract, ghost least loss) and annealing on a family of tensors of any size over a loss of everything the network sees.", "simanneal's contract; networks of 1-3 layers for the drivers."),
"C27": ("ONNX traversal by a loop contract with ghosts FROM/FUSED for any number of nodes of arbitrary types; fused parameters; TFLite operator lists of any length; the command-line conversion of `_tflite2json.main` over two files.", "ONNX / TFLite object models by their accessors."),
"C28": ("initialisers and node builders on arbitrary parameters, ranks 0-4; TFLite tensors; activation tables of all codes.", "interpreter and flatbuffer accessors."),
"C29": ("traversal of any number of layers of arbitrary class names; dense, convolution, pooling, flatten, LSTM builders on arbitrary dimensions, with and without bias; gate split.", "Keras layers by their attributes."),
"C30": ("chunking, message contents, reassembly, time-outs for every number of samples and maximum batch (ranks 1-3) by a loop contract with ghost `sent`.", "environment: at most one reply per message, delivered during publish, during the wait, or never; late replies of timed-out calls excluded; result stored before the event is set."),
"C31": ("the float recurrence by a loop contract over any number of steps (ghosts H, C: the states after t steps, defined step by step; every record list is identified with the quantity it holds at every step); `KerasLSTM.quantize` over that contract on an arbitrary layer (weights, units, samples, steps uninterpreted): every node against its gate, tables, exports, derived scales after every change and pair of changes.", "Distribution by C22; the Keras layer by its attributes; sigmoid and tanh uninterpreted; `MIN_MAX` mode of the recurrence and debug output unused."),
"C32": ("`_quantize` by a loop contract over the layers' contracts (ghosts KEPT and LAST: layers kept before layer i and the last of them); `Network` by two nested loop contracts (ghost OFF: operators of the first i results); `KerasDense.quantize` on an arbitrary layer for every activation: sums and activation nodes, tables, shapes and the float output passed on; `KerasInput`, `Dequantize`, `Operator.as_json`; dispatch with and without own settings; `build` in every configuration; the rounding configurations.", "`keras.models.load_model` and `json.dump` by stand-ins that record; Distribution by C22; descriptions at different times on small networks (bounded)."),
"C33": ("two successive calls of `LossFPGA` from an arbitrary earlier state; `InputOutput`, `Input`, `Output` for arrays of rank 1-3 of any size, and `Output` read back.", "environment: at most one reply per network, delivered during publish, during the wait, or never; a late reply that arrives during the next evaluation is not distinguishable in the protocol (no identifier) and is assumed away."),
"C34": ("`QuantizerCfg.tflite` on an arbitrary configuration: every setting an opaque value, layers with their own settings by a loop contract (any number, any of the three kinds: after i turns the first i are compatible, nothing else changed); `from_json`, `from_yml` on a file of any subset of the settings; `build` of the three rounding settings through the real `RoundingAnnealer.__init__`.", "pydantic by a stand-in (keeps given values, copies defaults): validation and the parsing of nested descriptions are its own; json and yaml parse a marker file."),
}
