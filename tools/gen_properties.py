#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property). Run to regenerate."""
import json, os
H = "include/cnn_from_scratch/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Every access path to a matrix reaches the same element, for every shape",
  "For every matrix shape, including shapes with a zero-length dimension, each in-range (row, column, layer) position is its own element, and access by three coordinates, by index triple, through the flat index, through iterators, through row-major setEntries and through storage-order vector assignment all agree on which element that is. "
  "Iterating a matrix, a view or an expression visits every element exactly once in storage order (row index fastest, then column, then layer) with the iterator reporting the element's own index, and iterator differences equal the number of steps between them. "
  "What a matrix, a view or an expression says of its shape (number of elements, square layers, a single layer, row or column) is what its three sides say. "
  "Data of the wrong length is refused with an exception and changes nothing.",
  ["inputs", "configurations"], "all shapes (x,y,z) with x,y,z >= 0, all in-range indices, all three matrix kinds (owning matrix, view, lazy expression)",
  "Tests index a handful of fixed shapes (3x3x2, 5x5x2, 2x3x4) and never iterate a shape with a zero dimension or a one-element dimension.",
  [H+"Matrix/dim.h", H+"Matrix/MatrixIterator.h", "src/SimpleMatrix.tpp"],
  [("flat index arithmetic", "src/SimpleMatrix.tpp getIndex; dim.h getFlatIdx"), ("odometer increment", "dim.h DimIterator::operator++"), ("begin/end", "SimpleMatrix.h, SubMatrixView.h, MatrixMath.h")],
  [dict(name="values_", meaning="column-major element storage", where=H+"Matrix/SimpleMatrix.h"), dict(name="dim_", meaning="shape", where=H+"Matrix/MatrixBase.h")])

p("C02", "A region view reads and writes exactly its region and nothing else",
  "A view (or a slice, or a slice of a view) of a matrix reads the current contents of exactly the described region of its parent, and any write through it (element, scalar fill, matrix or view assignment, in-place arithmetic) changes exactly that region of the parent and nothing outside it. "
  "A region that is not completely inside its parent matrix (or, for a slice of a view, inside that view) is refused with an exception, as is checked element access outside the view, and a refused operation leaves the parent unchanged. "
  "Assigning to a view from a view, matrix or expression that overlaps the written region uses the values from before the assignment, and copying a region yields an independent matrix.",
  ["inputs", "histories"], "all parent shapes, all region origins and extents (also out of range, negative and so large that their sum is no int), overlapping sources, all interleavings of writes through parent and views",
  "Tests write through views of three fixed origins with a scalar or one matrix; no test nests views, checks a refused region, or checks reads through a view after the parent changes.",
  [H+"Matrix/SubMatrixView.h", "src/SubMatrixView.tpp", "src/SimpleMatrix.tpp"],
  [("bounds check at construction", "SubMatrixView.h constructors"), ("offset addressing", "SubMatrixView.tpp operator()"), ("size check on assignment", "SubMatrixView.tpp operator=")])

p("C03", "Lazy matrix expressions evaluate to element-by-element arithmetic",
  "For operands of equal shape, +, -, *, / and the six comparisons between matrices, and between a matrix and a scalar on either side, denote the element-by-element result in the operands' common type, however they are nested and whether each operand is a named matrix, a const matrix, a view, a temporary or another expression. "
  "apply, abs and exp act on each element in place of its value; evaluating an expression never changes its operands, and an expression on named matrices denotes what they hold at the time it is read. "
  "Combining matrices of different shapes is refused with a matrix size exception.",
  ["inputs", "programs"], "all shapes, all values, all nestings of operators over lvalues, views, temporaries and sub-expressions",
  "Tests evaluate single operators on 3x3 floats plus two compound expressions; no comparison operator, scalar-on-the-left, mixed type, multi-layer shape or size mismatch is tested.",
  [H+"Matrix/MatrixMath.h"],
  [("ElementWiseMatrixOperationResult", "MatrixMath.h"), ("ScalarOperationResult", "MatrixMath.h"), ("UnaryOperationResult", "MatrixMath.h"), ("MatrixStorageType (by reference for lvalues, by value for temporaries)", "MatrixMath.h"), ("checkSize", "MatrixMath.h")])

p("C04", "In-place matrix arithmetic updates every element once from the old values",
  "M += s, -=, *=, /= with a scalar s (also when s is a reference to an element of M) apply s's value from before the operation to every element of M exactly once; M += N and its siblings with a matrix, view or expression N combine each element of M with the element that N had at the same index before the operation, also when N refers to M (an overlapping view, a transposed, rotated or multiplied M); modify applies its function once to every element. "
  "If N's shape differs the operation is refused with a matrix size exception and M is unchanged. "
  "Nothing but the left operand changes.",
  ["inputs", "histories"], "all shapes and values, left operands that are matrices or views, right operands that are scalars, matrices, views or expressions, which may refer to the left operand in any way",
  "Tests cover += with a constant and += / -= on one view of a 3x3 matrix; *=, /=, mismatch and aliasing operands are untested.",
  [H+"Matrix/MatrixMath.h"],
  [("operator+= -= *= /= templates", "MatrixMath.h"), ("modify", "MatrixMath.h")])

p("C05", "Matrices are values: construction, copy, move, assignment, conversion, reshape",
  "Constructing or assigning a matrix from a matrix of any element type, a view or an expression (even one that mentions the assigned matrix) gives exactly the shape and the values the source had before the operation, converted element by element, and the result shares nothing with the source; after a move the target holds the source's former contents and the source is empty or unchanged. "
  "reshape keeps the elements in storage order and only succeeds when the element count is unchanged, otherwise it throws and changes nothing; resize keeps the leading storage elements and value-initialises new ones. "
  "A size with a negative side or an element count that is not representable is refused with an exception and changes nothing. "
  "The shape and the number of stored elements always agree.",
  ["inputs", "histories"], "all sequences of construct/copy/move/assign/convert/resize/reshape operations over several matrices of all shapes",
  "Tests check a single copy, move and conversion on fixed shapes; reshape, resize, self-referential assignment and sequences of operations are untested.",
  [H+"Matrix/SimpleMatrix.h", "src/SimpleMatrix.tpp", H+"Matrix/dim.h"],
  [("constructors and operator=", "SimpleMatrix.tpp"), ("Dim move operations", "dim.h"), ("resize/reshape", "SimpleMatrix.tpp")])

p("C06", "Matrix product, dot product, transpose and rotation are exact",
  "matrixMultiply yields, layer by layer, the row-by-column products; dot yields the sum of products in the operands' common type for any pair of equally long row or column vectors; transpose exchanges rows and columns of every layer; rotate<n> turns every layer by n quarter turns (a half turn for any shape, quarter turns for square layers), four quarter turns being the identity. "
  "They hold for every admissible shape and for operands that are named matrices, views, temporaries or expressions. "
  "Inadmissible shapes are refused with an exception.",
  ["inputs", "programs"], "all shapes, values, element types and value categories of the operands",
  "Tests multiply two pairs of small int matrices and transpose two named matrices; dot and rotate are untested and no operand is a temporary or a multi-layer product.",
  [H+"Matrix/MatrixMath.h"],
  [("matrixMultiply", "MatrixMath.h"), ("dot", "MatrixMath.h"), ("transpose", "MatrixMath.h"), ("rotate", "MatrixMath.h")])

p("C07", "Reductions see every element once and pick the first extremum",
  "sum, mean, min, max and l2Norm of a non-empty matrix, view or expression depend on every element exactly once and equal the arithmetic result (mean of an integer matrix being sum divided by count with integer division, also for negative sums). "
  "minIndex and maxIndex return the index of an element that attains the extremum and, among equal ones, the first in storage order; the member versions return its flat index. "
  "matrixEqual is true exactly when shapes are equal and all elements are equal (within the tolerance, if given).",
  ["inputs"], "all non-empty shapes and all values, including ties, negatives and extrema at the first or last element",
  "Tests only use matrixEqual; extrema, ties, mean and norm are exercised only indirectly through three pooling examples.",
  [H+"Matrix/MatrixMath.h", "src/SimpleMatrix.tpp"],
  [("reduction functions", "MatrixMath.h sum/mean/max/min/minIndex/maxIndex/l2Norm/matrixEqual"), ("member minIndex/maxIndex", "SimpleMatrix.tpp")])

p("C08", "The convolution layer computes the strided cross-correlation plus bias",
  "For every input that is at least as large as the filter and has the filter's channel count, output element (i, j, f) of a convolution layer equals bias f plus the sum over channels and filter positions of filter f's weight times the input at (i*stride+u, j*stride+v), computed in double precision, and the output has the shape given by every position where the filter fits completely. "
  "The stand-alone convolve function gives the same for one channel. "
  "A forward pass changes neither weights nor biases and gives the same result when repeated.",
  ["inputs", "configurations"], "all input shapes (also non-square), filter shapes, channel counts, filter counts, strides >= 1, weights, biases and inputs",
  "Three tests use 4x4 inputs with 3x3 filters and stride 1, with at most two channels or two filters but never both.",
  ["src/Layers/Kernel.cpp", H+"Matrix/MatrixMath.h"],
  [("propagateForward", "Kernel.cpp"), ("outputSize", "Kernel.cpp"), ("convolve", "MatrixMath.h")])

p("C09", "Convolution layer gradients are the exact adjoint of its forward pass",
  "For any input, weights and upstream gradient, the convolution layer's gradients with respect to weights, input and biases are exactly the partial derivatives of the sum over the output of (upstream gradient times forward output). "
  "They have the shapes of the weights, the input and the biases respectively, for every input and filter shape (square or not), channel count, filter count and stride. "
  "Computing gradients changes neither weights nor biases.",
  ["inputs", "configurations"], "all input/filter shapes, channel and filter counts, strides, weights, inputs and upstream gradients",
  "One test checks one 3x3 input with one 2x2 filter, one channel; the bias gradient test asserts nothing.",
  ["src/Layers/Kernel.cpp", H+"Matrix/MatrixMath.h"],
  [("getdLdW", "Kernel.cpp"), ("getdLdX with padInput and rotate", "Kernel.cpp"), ("getdLdB", "Kernel.cpp")])

p("C10", "Pooling outputs the maximum, minimum or mean of each window",
  "For every input at least as large as the pool, a pooling layer outputs, per channel, the maximum, minimum or mean (according to its type) of the window whose corner is at (i*stride_x, j*stride_y), for every position where the window fits completely, and its reported output size is the shape it produces. "
  "Rows and columns that no complete window covers have no influence. "
  "The input is taken in double precision, and a forward pass gives the same result when repeated and in any batch slot.",
  ["inputs", "configurations"], "all input shapes, pool sizes, strides (smaller, equal and larger than the pool, different per axis), pool types and values",
  "Three tests use 4x4 inputs with 2x2 pools and stride 1 or 2; no rectangular pool, uneven division or stride larger than the pool.",
  ["src/Layers/Pooling.cpp"],
  [("propagateForward", "Pooling.cpp"), ("outputSize", "Pooling.cpp")])

p("C11", "Pooling routes gradients to the elements its own forward pass selected",
  "The input gradient of a max or min pooling layer adds each upstream element to exactly the input element that the forward pass of the same batch slot selected (the first in storage order among equals), and that of mean pooling spreads each upstream element equally over its window; contributions of overlapping windows add up and every other element is zero. "
  "It has the input's shape, and each batch slot remembers its own most recent forward pass, whatever happens in other slots. "
  "The sum of the input gradient equals the sum of the upstream gradient.",
  ["inputs", "histories"], "all histories of forward and backward calls over the batch slots of one layer, with inputs of varying shapes",
  "No test runs a pooling layer backwards.",
  ["src/Layers/Pooling.cpp"],
  [("affected_indices_ per batch slot", "Pooling.h"), ("getdLdX", "Pooling.cpp"), ("setBatchSize", "Pooling.cpp")],
  [dict(name="affected_indices_", meaning="per batch slot, the input index each output came from", where="include/cnn_from_scratch/Layers/Pooling.h")])

p("C12", "The fully connected layer is y = W*vec(x) + b with its exact gradients",
  "A fully connected layer flattens its input in storage order and outputs the column W*v + b in double precision; for an upstream gradient g its weight gradient is g times v transposed, its bias gradient is g, and its input gradient is W transposed times g in the input's original shape (or nothing when it is flagged as the first layer of the network). "
  "This holds for every output count and every input shape with the right number of elements. "
  "Neither pass changes weights or biases once they are initialised.",
  ["inputs", "configurations"], "all input shapes, output counts, weights, inputs and gradients, in any order of calls",
  "No test constructs a fully connected layer.",
  ["src/Layers/ConnectedLayer.cpp"],
  [("propagateForward", "ConnectedLayer.cpp"), ("getdLdW/getdLdX/getdLdB", "ConnectedLayer.cpp"), ("propagateBackward", "ConnectedLayer.cpp")])

p("C13", "Activation layers apply their function and the chain rule at the layer input",
  "An activation layer maps each element x to max(x,0), 1/(1+e^-x), x, tanh(x), or x if positive else 0.1x, according to its type, keeping the shape. "
  "Its backward pass multiplies each upstream gradient element by the derivative of that function at the value the layer received as input (with derivative 0 for relu and 0.1 for leaky relu at x <= 0). "
  "Neither pass depends on earlier calls, and names and enum values of the five types convert to each other one to one, unknown names being refused.",
  ["inputs"], "all five activation types, all shapes, all input values and gradients",
  "Tests evaluate the functions and activationGradient on one random 5x5 matrix in (-1,1); the backward pass of the layer is never called.",
  ["src/Layers/Activation.cpp", H+"Layers/Activation.h"],
  [("activation function tables", "Activation.cpp"), ("propagateBackward", "Activation.cpp"), ("toString/fromString", "Activation.h")])

p("C14", "Softmax yields a probability distribution, its loss and its exact gradient",
  "For every row or column vector of finite inputs, however large, the softmax layer outputs non-negative finite numbers that sum to one, with output i proportional to e^(input i), so that order is preserved and adding a constant to all inputs changes nothing. "
  "The cross-entropy loss of a result is max(0, -log2(p + 0.00001)) for the probability p of the true label. "
  "The softmax backward pass returns the output minus one at the true label last assigned for that batch slot.",
  ["inputs", "histories"], "all vector lengths and inputs (also of magnitude 1e6), all label assignments over batch slots",
  "No test runs softmax or the loss.",
  ["src/Layers/Softmax.cpp", "src/ModelDescription.tpp"],
  [("max offset before exp", "Softmax.cpp softMax"), ("getdLdX", "Softmax.cpp"), ("assignTrueLabel", "Softmax.cpp"), ("lossFcn", "ModelDescription.tpp")])

p("C15", "Ill-shaped inputs and unknown labels are refused without side effects",
  "A convolution layer given the wrong channel count or an input smaller than its filter, a pooling layer given an input smaller than its pool, an initialised fully connected layer given the wrong element count, a softmax layer given anything but a row or column of its label count, a softmax true label out of range, softmax backward without a true label, and a training label that is not an output label are all refused with an exception. "
  "No memory outside the involved objects is read or written, and the layer or model keeps its parameters and works as before afterwards.",
  ["inputs", "histories"], "all layer configurations and all ill-shaped inputs, interleaved with valid use of the same layer",
  "No test passes an ill-shaped input to any layer.",
  ["src/Layers/Kernel.cpp", "src/Layers/Pooling.cpp", "src/Layers/ConnectedLayer.cpp", "src/Layers/Softmax.cpp", "src/ModelDescription.tpp"],
  [("checkSize of each layer", "src/Layers/*.cpp"), ("assignTrueLabel range check", "Softmax.cpp"), ("assignLoss", "ModelDescription.tpp")])

p("C16", "A forward pass is the composition of the layers and reports it faithfully",
  "forwardPropagation feeds the input through all layers in order, each layer receiving exactly the previous layer's output, and returns the input and every layer's output in order, the index of the first largest final output as the predicted label and its value as the confidence. "
  "It changes neither the caller's input nor any parameter, so repeating it gives the same result. "
  "assignLoss records the label, its position among the output labels and its loss.",
  ["inputs", "configurations"], "all stacks of layers that fit together, all inputs of any element type (single and double precision, integers), all labels",
  "No test runs a model with more than one layer or calls forwardPropagation.",
  ["src/ModelDescription.tpp", H+"ModelDescription.h"],
  [("forwardPropagation", "ModelDescription.tpp"), ("assignLoss", "ModelDescription.tpp"), ("add* builders", "ModelDescription.tpp")])

p("C17", "Back-propagation gives every parameter the exact derivative of the loss",
  "For any stack of layers and any labelled input, backwardsPropagation hands each layer its own forward input, its own forward output and the gradient coming from the layer after it, in reverse order, so that the gradient stored for each weight and bias in the given batch slot is the derivative of the (natural-log) cross-entropy of that one input with respect to it. "
  "It changes no parameter before the batch is applied and leaves the gradients of other batch slots alone.",
  ["inputs", "configurations", "histories"], "all layer stacks, inputs, labels and batch slots",
  "No test calls backwardsPropagation.",
  ["src/ModelDescription.tpp", "src/Layers/"],
  [("backwardsPropagation", "ModelDescription.tpp"), ("propagateBackward of each layer", "src/Layers/*.cpp")])

p("C18", "A batch step moves parameters by the mean of exactly that batch's gradients",
  "applyBatch(r) changes each weight and bias of a convolution or fully connected layer by minus r times the mean of the gradients that backward passes stored since the previous applyBatch or setBatchSize, each slot counting once with its latest gradient. "
  "Slots that received no backward pass in the batch (a batch that is not full, a batch size larger than the data) contribute nothing and are not counted, and with no gradients at all nothing changes. "
  "Nothing but the layer's weights and biases changes.",
  ["histories", "inputs"], "all histories of setBatchSize, backward passes into slots and applyBatch, full and partial batches, any learning rate",
  "No test calls setBatchSize or applyBatch.",
  ["src/Layers/Kernel.cpp", "src/Layers/ConnectedLayer.cpp"],
  [("weight_gradients_/bias_gradients_ slots", "Kernel.h, ConnectedLayer.h"), ("applyBatch", "Kernel.cpp, ConnectedLayer.cpp"), ("setBatchSize", "Kernel.cpp, ConnectedLayer.cpp")])

p("C19", "Training gives the same update for every thread count and schedule",
  "For any number of worker threads and any interleaving of them, each batch of an epoch changes the parameters by minus the learning rate times the mean, over exactly the data points drawn in that batch, of that data point's own gradient computed with the parameters in force at the start of the batch and with that data point's own label. "
  "Up to rounding the result therefore equals that of a single thread. "
  "Workers never access shared state without synchronisation.",
  ["schedules", "configurations"], "all interleavings of the worker threads, all thread counts, batch sizes and data set sizes, including partial last batches and more threads than data points",
  "No test trains a model; the tests are single-threaded.",
  ["src/ModelDescription.tpp", "src/Layers/Softmax.cpp", "src/Layers/ConnectedLayer.cpp", "src/Layers/Pooling.cpp"],
  [("slot partition per worker", "ModelDescription.tpp runEpoch"), ("join before applyBatch", "ModelDescription.tpp runEpoch"), ("per-slot state in layers", "Pooling.h, Kernel.h, ConnectedLayer.h, Softmax.h")],
  [dict(name="batch slots", meaning="index of a data point within the running batch", where="src/ModelDescription.tpp")])

p("C20", "Every data point is used exactly once per epoch and the source is never shared",
  "In each epoch training draws data points from the source until it is exhausted, processes each exactly once, draws only after the source has said that data is available, and draws at most one batch's worth of points between two parameter updates. "
  "Calls into the data source never overlap, whatever the number of threads. "
  "train runs exactly the requested number of epochs, resets the source once after each, and always terminates.",
  ["schedules", "configurations"], "all positive thread counts and batch sizes, all data set sizes (also beyond what a float can count) and epoch counts, all interleavings",
  "No test trains a model or implements a data source.",
  ["src/ModelDescription.tpp", H+"DataGenerator.h"],
  [("data_mtx around hasAvailableData/getNextDataPoint", "ModelDescription.tpp runEpoch"), ("number of batches", "ModelDescription.tpp runEpoch"), ("reset after epoch", "ModelDescription.tpp train")])

p("C21", "The reported training accuracy counts exactly the correct predictions",
  "runEpoch returns the number of data points of the epoch for which the model, with the parameters in force at the start of the point's batch, predicted the point's own label, for any thread count, batch size and schedule. "
  "train reports that count as a percentage of the source's size for each epoch.",
  ["schedules", "inputs"], "all data sets, thread counts, batch sizes and interleavings",
  "No test trains a model.",
  ["src/ModelDescription.tpp"],
  [("success_count", "ModelDescription.tpp runEpoch"), ("label_idx == true_label_idx", "ModelDescription.tpp runEpoch")])

p("C22", "A fully connected layer initialises itself exactly once, also under concurrency",
  "The first input to reach a new fully connected layer fixes its weight shape and random parameters, with weights and biases each scaled to unit length; every later or concurrent forward pass uses those same parameters, and none of them ever sees a partly initialised layer. "
  "A layer whose parameters were loaded keeps them. "
  "A new convolution layer likewise starts with weights and biases of unit length in the shape given at construction.",
  ["schedules", "histories"], "all schedules of concurrent first uses, all input shapes and output counts",
  "No test uses a fully connected layer or more than one thread.",
  ["src/Layers/ConnectedLayer.cpp", "src/Layers/Kernel.cpp"],
  [("checkSize first-use branch", "ConnectedLayer.cpp"), ("initialized_", "ConnectedLayer.h"), ("constructor", "Kernel.cpp")])

p("C23", "Matrices survive the text format to its printed precision",
  "Reading back what a matrix of int, float or double wrote with serialize gives a matrix of the same shape whose every element equals the original to the six printed decimals, for every shape including empty ones, whatever the reading matrix held before, and leaves the stream positioned right after the matrix so that what follows can be read. "
  "Reading a text that ends before its last element, has a negative dimension or an unrepresentable size, or holds something that is not a number reports failure. "
  "Writing leaves the stream's number format as it was by default.",
  ["inputs", "fault_sequences"], "all shapes, all finite values, several matrices in one stream, all truncation points before the last element",
  "No test serialises a matrix.",
  ["src/SimpleMatrix.tpp", H+"Serialization.h"],
  [("serialize/deserialize", "SimpleMatrix.tpp"), ("clearLine", "Serialization.h")])

p("C24", "Saving and loading a model reproduces it",
  "Loading a file written by saveModel into an empty model reproduces every layer in order with its type, name and configuration (filter shape, count and stride; pool type, size and stride; activation function), all weights and biases to the six printed decimals, and the output labels in order, so that the loaded model gives the same predictions. "
  "This holds for any stack of layers, trained or not, for labels of any type (text without line breaks, numbers, characters), and also when the file replaces an older one of any length. "
  "Files written in the same text layout by earlier runs keep loading to the same model, and saving the loaded model writes the same file again.",
  ["configurations", "inputs"], "all layer stacks, configurations, parameters and label sets",
  "No test saves or loads a model; loadModel is a template that no target instantiates.",
  ["src/ModelDescription.tpp", "src/Layers/", H+"Serialization.h"],
  [("saveModel/loadModel", "ModelDescription.tpp"), ("serialize/deserialize of each layer", "src/Layers/*.cpp"), ("place/expect", "Serialization.h")])

p("C25", "A damaged or missing model file is never reported as loaded",
  "If a model file does not exist, was cut off at any byte (so that the model in it is incomplete), or has a misspelt keyword, an unknown activation or pooling name, a missing number or a negative or unrepresentable dimension, loadModel returns false instead of reporting success, and it neither crashes nor throws nor touches memory it should not. "
  "saveModel returns false if the file cannot be written.",
  ["crash_points", "fault_sequences"], "every truncation point of every saved file (a crash while saving), and single-token damage anywhere in it",
  "No test loads a model.",
  ["src/ModelDescription.tpp", H+"Serialization.h", "src/Layers/", "src/SimpleMatrix.tpp"],
  [("expect", "Serialization.h"), ("fail checks", "SimpleMatrix.tpp deserialize"), ("catch and return false", "ModelDescription.tpp loadModel")])

p("C26", "A reloaded model can go on training exactly like the original",
  "After loading a saved model whose parameters have at most six decimals, the same sequence of batches gives the reloaded model the same parameters, predictions and success counts as the model that was saved. "
  "This holds for any stack of layers and any position at which training is interrupted by saving and loading.",
  ["histories", "configurations"], "all layer stacks and all points of a training history at which the model is saved and reloaded",
  "No test saves, loads or trains a model.",
  ["src/ModelDescription.tpp", "src/Layers/ConnectedLayer.cpp", "src/Layers/Activation.cpp", "src/Layers/Pooling.cpp"],
  [("deserialize of each layer", "src/Layers/*.cpp"), ("input shape of the fully connected layer", "ConnectedLayer.cpp")])

p("C27", "The image reader delivers the right image and label for every access order",
  "For every well-formed pair of IDX files, of any image height, width and count, getImage(i) returns image i with each pixel v at its (row, column) as (v-128)/255 and label i, and nextImage returns the image after the one last delivered, for any sequence of the two calls. "
  "Asking for an image past the end throws and does not disturb later reads; the reported image count and current index match. "
  "Files with a wrong magic number, with different image and label counts, or with a negative count or size are not accepted, and an image whose pixels or label are not completely in the files is never delivered.",
  ["histories", "inputs"], "all call sequences over getImage/nextImage including out-of-range ones, all image shapes and contents",
  "No test uses the reader, and the image files are not part of the repository.",
  ["src/MNISTReader.cpp", H+"MNISTReader.h"],
  [("seek arithmetic", "MNISTReader.cpp getImage"), ("byte order conversion", "MNISTReader.cpp read"), ("range check", "MNISTReader.cpp nextImage")],
  [dict(name="current_index_", meaning="index of the next image in the streams", where="include/cnn_from_scratch/MNISTReader.h")])

p("C28", "The program's data source and validation report the data set faithfully",
  "The training program's data source delivers, after construction and after each reset, exactly size() data points, in file order, each with the image's pixels and its label in decimal, and then reports that no data is available. "
  "Its validation classifies every image of the test set exactly once, for any number of threads, and prints the percentage classified correctly; each sample it prints is an image of the test set with its label and the model's prediction for it. "
  "Validation changes no parameter and its threads never access shared state without synchronisation.",
  ["schedules", "histories", "inputs"], "all non-empty data sets, thread counts, interleavings and reset points, all random numbers",
  "main.cpp is only compiled; without the image files it cannot run.",
  ["src/main.cpp", "src/MNISTReader.cpp"],
  [("MNistGenerator", "main.cpp"), ("validate", "main.cpp")])

p("C29", "Printing a matrix or an image shows every element in its place",
  "Writing a matrix, view or expression of whole or floating-point numbers to any output stream, whatever precision and floating-point notation is set on it, gives an empty line and then one line per row, each line holding for every layer a bracketed, comma-separated group with the row's elements in column order, each element as a sign (or blank) and its magnitude right-aligned, floating-point numbers rounded to two decimals; the number format of the stream, and of std::cout, is afterwards what it was. "
  "printImage writes one line per row with one coloured cell per column: grey from black for the smallest element to white for the largest (255 for whole numbers, at least 1 for floating-point ones; all white if the smallest is that large), or the red, green and blue of three layers in proportion to the largest element. "
  "Printing changes no element.",
  ["inputs", "configurations"], "all shapes with at least one column, all finite values (the limits of the integer types included), all element types, any output stream with any precision and floating-point notation set on it; images of any elements (of non-negative ones if they have three layers), also when all are equal",
  "No test prints a matrix or an image.",
  [H+"Matrix/SimpleMatrix.h", H+"imageUtil.h"],
  [("operator<<", "SimpleMatrix.h"), ("printImage", "imageUtil.h")])

p("C30", "Shapes and indices are exact tuples, and iteration follows the flat index",
  "A shape or index made from given numbers holds exactly these (numbers left out are zero, a single number is used for all), and copying, assigning, moving, setting a component by name or position, adding and subtracting give exactly the component-wise result whatever the memory held before. "
  "Two of them are equal exactly when all their components are; size is the product of the components, and the flat index of an index is its position in storage order (first component fastest). "
  "Iterating over a shape visits each of its indices exactly once in the order of the flat index and ends at the first index of a further layer; both forms of increment report the right index, and iterators are equal exactly when shape and index are. Printing lists the components in order.",
  ["inputs", "histories"], "tuples of one to four components, all small values, all histories of operations on several tuples; shapes with positive sides for iteration",
  "No test compares two-component shapes, leaves components out, or uses DimIterator directly.",
  [H+"Matrix/dim.h"],
  [("constructors, copy and move", "dim.h Dim"), ("operator==, +, -, size, getFlatIdx", "dim.h Dim"), ("odometer", "dim.h DimIterator")])

p("C31", "A data point that cannot be used ends training cleanly",
  "If training meets a data point that cannot be processed (a layer refuses its shape, its label is not an output label, or the data source itself throws), runEpoch and train throw an exception in the thread that called them (the source's own exception if that is the reason), for any number of threads and any schedule, after all workers have finished. "
  "The parameters are then exactly those after the batches before that of the first such point; nothing of the interrupted batch is applied, neither then nor by a later update, and the model goes on training afterwards as if that batch had not been begun. "
  "Until then the data source is used as in any other epoch, and its calls never overlap.",
  ["schedules", "faults", "inputs"], "all models, thread counts, batch sizes, data sets, positions and kinds of unusable points, and interleavings",
  "No test trains at all; unit tests throw in the calling thread only.",
  ["src/ModelDescription.tpp"],
  [("runEpoch", "ModelDescription.tpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
