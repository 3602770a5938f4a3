import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OPS="core/itcl_quantization/quantization/operators.py"; LUT="core/itcl_quantization/quantization/lut.py"
IE="inference_engine/itcl_inference_engine/"; QZ="quantizer/itcl_quantizer/"
p("C01","Quantisation maps every real to the nearest representable code",
 "Quantising a real tensor with a positive scale and an in-range zero point returns an array of the same shape in which every element is the integer nearest to x/scale + zero point (ties upward), saturated to the limits of the requested integer type. This holds for every signed and unsigned type of 1 to 32 bits, for scalars and arrays of any shape, and the caller's tensor is not modified.",
 ["inputs","configurations"],"every tensor shape and content, every scale > 0, every zero point of the type, every signed or unsigned type of width 1..32",
 "Tests quantise a handful of constants with int8; nothing quantifies over values at the saturation edges, unsigned or 32-bit types, or shapes.",
 [OPS],[("Quantization.quantize / round",OPS)],obs=["return value of Quantization.quantize"])
p("C02","Dequantise inverts quantise on codes and bounds the reconstruction error",
 "Dequantising returns exactly (code - zero point) * scale for every code of any type up to 32 bits, keeping the shape and not modifying its argument. Quantising the dequantised value of any code with the same parameters gives that code back, and a real inside the representable range is reconstructed within half a scale step.",
 ["inputs","configurations"],"every code of every type of width 1..32, every scale > 0, every zero point of the type",
 "It is a universal round-trip law over codes, scales and zero points; the tests only round-trip a few values.",
 [OPS],[("Quantization.dequantize / quantize",OPS)])
p("C03","A per-element rounding policy decides floor or ceiling for its own element",
 "When a rounding policy of zeros and ones with the shape of the tensor is supplied, every quantised element is the floor of its unrounded code plus its policy bit, saturated to the type; the base policy reported for a tensor, when applied, reproduces nearest rounding exactly. A policy whose shape cannot be combined with the tensor is ignored in favour of nearest rounding.",
 ["inputs","configurations"],"every tensor, every 0/1 policy of the same shape, every scale and zero point, and policies of incompatible shape",
 "The tests never pass a rounding policy at all; the law relates two API calls over all tensors.",
 [OPS],[("Quantization.round policy branch and fallback; base_rounding_policy",OPS)])
p("C04","Integer type names denote exact widths and limits",
 "A type name made of 'int' or 'uint' (in any letter case) and a positive decimal width denotes a type whose minimum and maximum are exactly -2^(n-1) and 2^(n-1)-1, or 0 and 2^n-1, at any width including above 64 bits; membership and saturation against the type agree with those limits. A name that is neither such an integer name nor 'float' with a decimal width is rejected with an error.",
 ["inputs"],"every well-formed name of any width, and every malformed name",
 "Tests cover int4, int8, int16 and a few malformed names; widths and names are unbounded.",
 [OPS],[("Dtype/GenericDtype name parsing and limits",OPS)])
p("C05","Checked integer arithmetic is exact or widens, and never wraps silently",
 "Adding, subtracting or multiplying two integer values or arrays through the checked arithmetic returns the mathematically exact result, for operands of signed types of 8, 16 or 32 bits, whatever their shapes. The result is reported with a type that holds every element of it, never a narrower one.",
 ["inputs"],"every pair of signed operands of 8, 16 or 32 bits, scalars or broadcastable arrays of any shape",
 "Overflow happens at value combinations that tests cannot enumerate; existing tests use scalars and short vectors only.",
 [OPS],[("QuantizedOperations / Dtype overflow detection and promotion",OPS)])
p("C06","An activation table gives, for every input code, the quantised activation",
 "A table created for an activation function holds, for every input code, exactly the quantised result of applying that function to the dequantised code under the given input and output parameters. Looking any valid code (in any array shape) up through the inference engine's table layer returns precisely that entry.",
 ["inputs","configurations"],"every activation function, every pair of quantisation parameters, every input type, every code and array shape",
 "The tests compare a few tables for tanh with fixed parameters; the law is over all functions, parameters and codes.",
 [LUT,IE+"layers/common/lut.py"],[("LUT construction",LUT),("LUTLayer lookup",IE+"layers/common/lut.py")])
p("C07","The reduced activation table is lossless at any depth",
 "A reduced table built from any full table returns, for every index of the full table, exactly the full table's entry. This holds for every reduction depth, every table content and size, and for both the symmetric and the asymmetric form.",
 ["inputs","configurations"],"every table content and length, every depth >= 0, symmetric and asymmetric centre",
 "Existing tests build one tanh table; losslessness depends on where consecutive entries differ, for arbitrary contents.",
 [LUT],[("ReducedLUT construction and __getitem__",LUT)])
p("C08","A reduced table survives serialisation entry by entry",
 "Serialising a reduced table and restoring it gives a table that answers every index identically to the original. Iterating over the original or the restored table yields exactly the entries of the table it was built from, in order.",
 ["inputs","configurations"],"every table content, size, depth and form",
 "No test restores a serialised table; equality must hold at every index.",
 [LUT],[("ReducedLUT.serialize / deserialize / __getitem__ / __iter__",LUT)])
p("C09","The integer dense layer matches exact requantised real arithmetic",
 "For every input batch and every layer whose effective multiplier (input scale * weight scale / output scale) is at least 1e-6, the integer dense layer's output differs by at most one code from exactly quantising the real affine result of the dequantised input, weights and bias, and saturates at the output type's limits. A batch gives the same rows as processing each sample alone.",
 ["inputs","configurations"],"every batch, weights, bias and zero points whose accumulator fits 32 bits, and every positive scale triple with effective multiplier between 1e-6 and 2^30 - 1",
 "Tests replay a few recorded layers; neither saturation, offsets nor batching is quantified.",
 [IE+"layers/tflite/fullyconnected.py",IE+"util/floating.py"],[("FullyConnected.infer and its fixed-point pipeline",IE+"layers/tflite/fullyconnected.py")])
p("C10","Fixed-point multipliers approximate the real multiplier to full precision",
 "The integer mantissa and shift produced for any real multiplier of magnitude up to 2^30 - 1 represent that multiplier with relative error at most 2^-30 (tiny multipliers are allowed to become exactly zero), with the mantissa fitting a signed 32-bit word and the shift between 1 and 62. Multipliers that are not representable are rejected instead of being silently truncated.",
 ["inputs"],"every positive real multiplier",
 "The mantissa/shift boundary behaviour is over a continuum, tests use three constants.",
 [IE+"util/floating.py",IE+"layers/tflite/fullyconnected.py"],[("FloatingPointToFixed / FullyConnected fixed-point helper",IE+"util/floating.py")])
p("C11","Quantised matrix multiplication equals the rounded real product",
 "For every pair of quantised operands, the quantised matrix multiplication layer returns, for each output cell, the real product of the dequantised operands divided by the output scale, rounded to the nearest integer, offset by the output zero point and saturated to 0..255. The result does not depend on how samples are batched.",
 ["inputs","configurations"],"every batch and weight matrix with inner dimension up to 32768, every scale and zero point",
 "Tests compare with recorded runs of one model; accumulator wrap-around, saturation and zero-point handling are universal facts.",
 [IE+"layers/onnx/q_linear_mmul.py"],[("QLinearMatMul.infer",IE+"layers/onnx/q_linear_mmul.py")])
p("C12","Quantised addition equals the rounded real sum",
 "The quantised addition layer returns, for every pair of quantised operands, the real sum of the dequantised operands divided by the output scale, rounded, offset by the output zero point and saturated to 0..255.",
 ["inputs","configurations"],"every operand pair, scales and zero points",
 "The recorded tests cannot cover all value/scale combinations, in particular saturation on both sides.",
 [IE+"layers/onnx/q_linear_add.py"],[("QLinearAdd.infer",IE+"layers/onnx/q_linear_add.py")])
p("C13","Activation and (de)quantise layers compute f between their own parameters",
 "The hyperbolic-tangent and sigmoid layers return, for every input code, the quantised value (within one code) of the function applied to the dequantised code with the layer's own input and output parameters, saturated to the output type. The quantise and dequantise layers implement the affine map of their own scale and zero point, element by element on any shape.",
 ["inputs","configurations"],"every layer parameterisation, every input array",
 "Tests use one recorded parameterisation per layer.",
 [IE+"layers/tflite/tanh.py",IE+"layers/tflite/logistic.py",IE+"layers/tflite/quantize.py",IE+"layers/tflite/dequantize.py",IE+"layers/onnx/q_linear_sigmoid.py",IE+"layers/onnx/quantize_linear.py",IE+"layers/onnx/dequantize_linear.py",IE+"layers/onnx/tanh.py"],
 [("infer of each layer",IE+"layers/")])
p("C14","Softmax is a probability distribution for every sample",
 "For any batch of finite logits, each row of the softmax layer's output is non-negative, sums to one and preserves the ratios exp(a)/exp(b) of its own logits. The result for a sample does not depend on the other samples of the batch, and stays finite for large logits.",
 ["inputs"],"every batch size, class count and finite logit",
 "The existing test compares one single-row batch with the same formula.",
 [IE+"layers/onnx/softmax.py"],[("Softmax.infer",IE+"layers/onnx/softmax.py")])
p("C15","Quantised ReLU equals ReLU in the real domain",
 "For every input array, the quantised ReLU layer's output equals the quantised value (within one code) of max(0, dequantised input) under the layer's output parameters, saturated to the signed 8-bit range, and codes at or below the input zero point give the output zero point.",
 ["inputs","configurations"],"every input code and array shape, every scale pair and zero point pair",
 "There is no test for this layer at all.",
 [IE+"layers/common/relu.py"],[("RELU.infer",IE+"layers/common/relu.py")])
p("C16","One recurrent step follows the real recurrence within the code grid",
 "Starting from a zero state, each step of the quantised recurrent cell computes input, forget, candidate and output gates from the dequantised inputs and hidden state, and updates cell and hidden state as the real recurrence does, each intermediate tensor being the exact quantisation (within one code) of the operation on its quantised operands. All states stay inside their integer types.",
 ["inputs","histories","configurations"],"every weight set, parameter set, activation table, batch and time step",
 "There is no test of the recurrent layer; the claim is inductive over time steps.",
 [IE+"layers/itclq/lstm.py"],[("LSTM gate and state computation",IE+"layers/itclq/lstm.py")])
p("C17","Recurrent sequences are causal, batch independent and end in the final state",
 "With sequences returned, the last element equals the output without sequences, and element t depends only on inputs up to t. Each sample of a batch yields the result it yields alone, and inference twice on the same data gives the same result.",
 ["inputs","histories"],"every sequence length, batch and parameter set",
 "These are relations between executions of arbitrary length; no test covers them.",
 [IE+"layers/itclq/lstm.py"],[("LSTM.infer time loop",IE+"layers/itclq/lstm.py")])
p("C18","A network runs its layers in order and keeps no state between runs",
 "Inference on a network feeds the input to the first layer and each layer's output to the next, for any number of layers, and returns the output of the last one. Repeating an inference gives the same result, and recorded intermediate outputs, when available, are those of the layers in order. A network made from a file is the one the file describes.",
 ["inputs","histories","configurations"],"every layer list and input, repeated inferences",
 "Tests run one small network once.",
 [IE+"network/sequential.py",IE+"layers/common/layer.py"],[("Network.infer",IE+"network/sequential.py")])
p("C19","Every operator is built from its own description",
 "Building a layer from a model description dispatches on the operator type and loads exactly the parameters the description gives for it (scales, zero points, weights, options). An operator type that is not supported is rejected with an error rather than skipped.",
 ["inputs","configurations"],"every operator description and every unknown operator name",
 "Tests construct layers directly, bypassing dispatch.",
 [IE+"layers/tflite/build_layer.py",IE+"layers/onnx/build_operator.py"],[("build_layer / build_operator and loaders",IE+"layers/")])
p("C20","A model tensor's quantised view always follows its current parameters",
 "After any sequence of updates to a tensor's values, scale, zero point or rounding policy, its quantised view is the quantisation of the current values under the current parameters and policy, and its dequantised view is (code - zero point) * scale; an update that explicitly defers requantisation takes effect with the next operation that requantises. The JSON description of the tensor reports the same codes, scale, zero point and type.",
 ["histories","inputs"],"every sequence of parameter updates, every tensor content",
 "There is no test of these objects; staleness only shows after particular update sequences.",
 [QZ+"tensor_extractor/tensor.py"],[("NodeTensor properties and update hooks",QZ+"tensor_extractor/tensor.py")])
p("C21","Activation tables are refreshed whenever their parameters change",
 "After any change to the input or output quantisation parameters of an activation, its table is that of the new parameters: every entry equals the quantised activation of the corresponding input code, in the type of the output (a change that explicitly defers requantisation takes effect with the next one). The exported table together with its exported offset yields the same entry in the inference engine.",
 ["histories","inputs"],"every activation, every sequence of parameter changes, every code",
 "No test covers table refresh; stale tables give plausible but wrong outputs.",
 [QZ+"tensor_extractor/keras/layers/activations.py",QZ+"tensor_extractor/tensor.py"],[("LUT node update hooks",QZ+"tensor_extractor/")])
p("C22","Chosen quantisation parameters cover the data and contain zero",
 "For any data set the derived scale is positive and the derived zero point is a valid code of the requested type, so that real zero is represented exactly. Every datum inside the selected range is representable within one scale step, and symmetric mode places zero at the fixed zero point.",
 ["inputs","configurations"],"every data range (including constant data), every type, default and symmetric modes",
 "It must hold for arbitrary data ranges including degenerate ones; the repository has no running test for it.",
 [QZ+"quantizer/distributions/distribution.py"],[("Distribution.quantize",QZ+"quantizer/distributions/distribution.py")])
p("C23","A dense layer's bias scale always equals input scale times weight scale",
 "For every dense layer under quantisation, the bias is quantised with zero point 0 and the product of the current input and weight scales, and stays so after any update of either scale. The weights the layer works with and exports are the trained ones.",
 ["histories","inputs"],"every dense layer, every sequence of scale updates",
 "No test constructs the layer; the coupling breaks only after particular update sequences.",
 [QZ+"tensor_extractor/keras/layers/"],[("dense layer hooks",QZ+"tensor_extractor/keras/layers/")])
p("C24","The rounding QUBO encodes the layer's squared output error",
 "For every dense layer, data set and rounding decision, the value of the constructed binary quadratic form equals the mean squared error of the layer's output (before its activation, on the rounded inputs) with those rounding decisions against the float output, up to one constant that does not depend on the decisions. Minimising the form is therefore minimising the rounding error.",
 ["inputs"],"every weight matrix, bias, sample set, scale set and every binary assignment",
 "The identity is over all assignments and data; the repository's script only prints timings.",
 [QZ+"equalizers/adaround/qubocalculation.py",QZ+"equalizers/adaround/Calculationsint.py"],[("coefficient construction",QZ+"equalizers/adaround/")])
p("C25","Rounding search returns valid decisions and never worsens the loss",
 "The rounding search leaves a policy of zeros and ones with the shape of the tensor, and its local descent never ends with a loss above the one it started from. Decoding a solver's sample assigns each binary variable to the tensor element it was created for.",
 ["histories","inputs"],"every loss function, tensor and solver sample",
 "The search is randomised and history-dependent; there is no test.",
 [QZ+"equalizers/adaround/annealer.py",QZ+"equalizers/adaround/qubo.py"],[("annealer local minima; qubo decode",QZ+"equalizers/adaround/")])
p("C26","Parameter equalisation keeps the best parameters found",
 "Equalising scales and zero points ends with the parameters of the best loss observed, never worse than the initial ones. Every zero point tried is a valid code of its tensor and every scale tried is positive.",
 ["histories","inputs"],"every loss function, every search history",
 "Restoring the best state depends on the sequence of losses.",
 [QZ+"equalizers/param_equalizer/"],[("BFSEqualizer / ParamEqualizer",QZ+"equalizers/param_equalizer/")])
p("C27","Graph conversion visits every node once, in order",
 "Converting an operator graph emits every graph node exactly once and in execution order, except that a dequantise, tanh, quantise run is fused into one table operator with the parameters of its two ends. Node inputs and outputs keep the tensor indices of the source graph.",
 ["programs","inputs"],"every node sequence, fused runs at any position",
 "The converter has no test; fusion depends on the node pattern at any position.",
 ["model_converters/onnx2json/helpers/graph.py","model_converters/onnx2json/helpers/buildOperator.py"],[("graph traversal",'model_converters/onnx2json/helpers/graph.py')])
p("C28","Converted tensors carry the source values, scales, zero points and indices",
 "Every tensor of a converted operator carries the source tensor's values in the same order (matrix multiplication weights transposed to outputs by inputs), its per-tensor scale and zero point, its index, including index zero, and its type where the source states one. Activation tables in the output hold the quantised activation of every 8-bit code under the exported parameters.",
 ["programs","inputs"],"every operator and tensor of the source model",
 "The converters have no test.",
 ["model_converters/onnx2json/helpers/nodeBuilders/","model_converters/tflite2json/itcl_tflite2json/operators/"],[("node builders",'model_converters/onnx2json/helpers/nodeBuilders/')])
p("C29","Layer-model conversion keeps weights, shapes and activations",
 "Converting a layered float model to JSON emits each layer once, in order, with exactly the layer's weights and biases, its dimensions and its activation. A missing bias is exported as zeros of the number of units, and an unsupported layer is rejected.",
 ["programs","inputs"],"every layer list, weight content and shape",
 "The converter has no test.",
 ["model_converters/keras2json/keras2json/"],[("layer converters",'model_converters/keras2json/keras2json/layers/')])
p("C30","Batched remote inference keeps every sample, in order",
 "Sending a data set to the remote accelerator splits it into consecutive chunks no larger than the maximum batch, sends each sample exactly once and in order, and returns one result per sample in the order of the samples. This holds for any number of samples; if a reply does not arrive in time, the call returns no result at all.",
 ["inputs","configurations"],"every number of samples and every maximum batch",
 "It needs a broker, so nothing tests it; the chunk arithmetic matters at sizes around the maximum batch.",
 ["demo/demo_lib/demo_lib/fpga.py"],[("chunking and reassembly",'demo/demo_lib/demo_lib/fpga.py')])
p("C31","A quantised LSTM is assembled gate by gate from the trained weights",
 "For every LSTM layer and sample data, the operator carries, for the input, forget, candidate and output gates in that order, exactly the gate's own part of the trained kernel, recurrent kernel and bias. Kernels are quantised with parameters of their own values. The bias has zero point 0 and scale input scale times the gate's kernel scale; the bias addition has zero point 0 and scale hidden scale times the gate's recurrent scale; both stay so after any update of those scales. The parameters of sums, states and activations are those of the values the float recurrence takes over all samples and time steps, and each table is that of its gate's activation. The result names the quantised layer, so that rounding and equalisation reach it.",
 ["inputs","histories"],"every LSTM layer, sample data and sequence of scale updates",
 "No test constructs the layer; wrong slices and stale scales show only for particular sizes and update sequences.",
 ["quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py"],[("float recurrence","quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py"),("gate nodes","quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py")])
p("C32","A float network is quantised as the chain of its layers",
 "Quantising a model yields, in order, an input quantisation, the operators of every supported layer (dropout and input layers contribute none) and a dequantisation. Each layer reads the output node of the layer before it and is quantised over the float output of the layer before it; it uses the settings configured for it by name, else the defaults. Every sum and activation node carries parameters, values and exported shape of the layer's own float output (the part of it that a fused ReLU keeps). A layer of unknown type is rejected. The network lists exactly these operators in order, and every description of it, the written file included, is that of the operators at that time: after equalisation, then rounding, each only if configured and given a loss.",
 ["inputs"],"every stack of layers, representative data and configuration",
 "No test quantises a network; wrong nodes or data only show with several layers, particular activations or later changes.",
 ["quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py","quantizer/itcl_quantizer/util/network.py","quantizer/itcl_quantizer/tensor_extractor/operator.py"],[("layer chain and dispatch","quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py"),("dense layer and fused activation","quantizer/itcl_quantizer/tensor_extractor/keras/layers/"),("operator list and description","quantizer/itcl_quantizer/util/network.py")])
p("C33","A remote loss belongs to the network just sent",
 "Evaluating a network's loss remotely publishes the description of that network exactly once and returns the loss reported in reply, as a number, whatever earlier evaluations left behind; when no reply arrives it fails instead of returning an earlier loss. The sample set sent for the evaluation holds every input and every target exactly once, in order, each with the number of samples and the size of a sample; an output read back from its description is the array that was described.",
 ["histories","inputs","schedules"],"every history of evaluations, every moment of the reply, every sample set",
 "The remote loss needs an accelerator and has no test; stale losses show only when a reply is late or missing.",
 ["demo/demo_lib/demo_lib/fpga.py"],[("LossFPGA; InputOutput, Input, Output","demo/demo_lib/demo_lib/fpga.py")])
p("C34","A configuration yields what it describes",
 "A configuration read from a JSON or YAML file holds every value of the file and the defaults elsewhere; reading changes no file. Building a rounding search gives a new search each time, of the configured kind and with exactly the configured temperatures, steps, updates and retries (the search for minima: no annealing steps), and leaves the settings as they were. Making a configuration TFLite-compatible gives every dense layer symmetric kernels, the layers with settings of their own included, whatever else they configure; it switches off network rounding and parameter equalisation and changes no other setting; doing it again changes nothing.",
 ["inputs"],"every configuration file, every choice of settings, any number of layers with their own settings",
 "Tests only dump and reload the default configuration; a lost or unconverted setting shows only for particular combinations.",
 ["quantizer/itcl_quantizer/config/models/keras.py"],[("configuration models",'quantizer/itcl_quantizer/config/models/keras.py'),("rounding search","quantizer/itcl_quantizer/equalizers/adaround/annealer.py")])
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P), [ (r['id'],len(r['title'])) for r in P if len(r['title'])>80])
