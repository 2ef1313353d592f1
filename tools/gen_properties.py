#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
T='src/tensor/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe or [], hook_needed=None)))

p('P01','Every tensor holds exactly as many elements as its shape says',
 'Every tensor that a public constructor, conversion or operation returns holds exactly as many elements as the product of its dimensions (one for a scalar). Asking for a tensor whose data does not fit the requested shape, or nesting rows of unequal shape, is refused instead of yielding a tensor.',
 ['inputs'],'all shapes of every rank, all data lengths, all operations',
 'Tests build about twenty well-formed tensors; the mismatch paths and the internally constructed results are never checked for length.',
 [T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_view.rs',T+'tensor_like.rs',T+'functional/misc.rs',T+'functional/element_wise_ops.rs'],
 [('length assertion in RawTensor::new',T+'raw_tensor.rs'),('equal-shape assertion in From<Vec<U>>',T+'raw_tensor.rs'),('element count assertion in TensorView::reshape',T+'tensor_view.rs')],
 [('RawTensor.array / RawTensor.shape','row-major data and dimensions',T+'raw_tensor.rs')])

p('P02','Addition and subtraction follow numpy broadcasting',
 'Adding or subtracting two tensors yields a tensor whose shape is the broadcast of the two shapes (aligned at the trailing dimension, the larger of two extents), and whose element at every index is the sum or difference of the operands\' elements at that index, an extent of one being repeated. Operands whose shapes cannot be broadcast are refused.',
 ['inputs'],'all pairs of shapes of any ranks, all element values, any mix of tensors and views',
 'Tests add a handful of shape pairs (same shape, scalar, one leading dimension); rejection of incompatible shapes is not tested at all (the source says "TODO: test this!").',
 [T+'functional/element_wise_ops.rs',T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_like.rs'],
 [('generic_binop_raw, max_shape',T+'functional/element_wise_ops.rs'),('broadcastable',T+'tensor_like.rs'),('Add/Sub impls',T+'rc_tensor.rs')])

p('P03','Element-wise operations compute their function at every position',
 'Negation, absolute value, tanh, ReLU, multiplication by a scalar and the element-wise product yield a tensor of the operand\'s shape whose element at every index is that function of the operands\' elements at the same index. The element-wise product of two non-scalar tensors of different shapes is refused.',
 ['inputs'],'all shapes, all element values, tensors and views',
 'Tests check a few hand-picked values in one or two shapes.',
 [T+'functional/element_wise_ops.rs',T+'functional/misc.rs',T+'raw_tensor.rs',T+'tensor_like.rs'],
 [('generic_unary_op and its op closures',T+'functional/element_wise_ops.rs'),('element_wise_multiplication',T+'functional/misc.rs'),('left/right_scalar_multiplication',T+'tensor_like.rs')])

p('P04','Matrix product, dot product and sum compute the defining sums',
 'The matrix product of a matrix, or a batch of matrices, with a matrix has at every output position the sum over the whole shared dimension of the products of the corresponding elements, with the batch, row and column extents in order. The dot product is the sum of the products of all corresponding elements and the sum is the total of all elements; operands whose dimensions do not agree are refused.',
 ['inputs'],'all conforming and non-conforming shapes, all element values, tensors and views',
 'Tests multiply 2x2 integer matrices and only run larger ones without looking at the result; batches, views and rejection are untested.',
 [T+'functional/misc.rs',T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_view.rs'],
 [('bmm_raw, dot_raw',T+'functional/misc.rs'),('sum',T+'raw_tensor.rs')])

p('P05','An index selects its row-major element or is reported as an error',
 'Reading a tensor at an index with one in-range coordinate per dimension yields the element at the row-major position of that index; a dimension of extent one accepts any coordinate and surplus leading coordinates are ignored, as broadcasting needs. An index with a coordinate out of range, or too short for the dimensions it omits, is reported as an error value and never yields another element or aborts the program.',
 ['inputs'],'all shapes of all ranks, all indices of all lengths',
 'Tests read in-range corners of three small tensors; no test reads an out-of-range or too-short index.',
 [T+'utils.rs',T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_view.rs'],
 [('global_index',T+'utils.rs'),('get',T+'raw_tensor.rs')])

p('P06','Iterating a shape visits every index exactly once in row-major order',
 'Enumerating the indices or elements of a tensor or view yields every index of its shape exactly once, in row-major order with the last coordinate varying fastest, starts at the all-zero index, and yields nothing when a dimension is empty. Converting a position back to an index is the inverse of that order, and a position past the end is an error.',
 ['inputs'],'all shapes of all ranks',
 'Tests enumerate 2x2x2, 2x3x2 and a flat vector.',
 [T+'utils.rs',T+'tensor_like.rs'],
 [('increment_index, IndexIterator, ElementIterator, tensor_index',T+'utils.rs')])

p('P07','A view behaves as the window of its base tensor that it selects',
 'A view created by slicing shows, in row-major order, exactly the elements of the base tensor between the start and the end of each range, and every operation on the view (reading, iterating, summing, copying, products, slicing again, comparing) sees those elements and no others. Reshaping a view keeps that sequence of elements; slices that reach outside the sliced tensor, have the wrong number of ranges, or reshapes to a different number of elements are refused.',
 ['inputs','programs'],'all base shapes, ranges, reshapes and chains of slices, and every operation taking a tensor-like operand',
 'One test slices three views and compares them; no test reshapes, re-slices or computes with a view apart from one sum.',
 [T+'tensor_view.rs',T+'tensor_like.rs',T+'raw_tensor.rs',T+'functional/misc.rs'],
 [('TensorView::new/reshape/get/to_tensor/slice',T+'tensor_view.rs'),('operations read their operand through TensorLike::get',T+'functional/misc.rs')])

p('P08','No operation changes the elements or shape of an existing tensor',
 'Once a tensor exists, its elements and its shape never change: no operation, backward pass or optimiser step alters those of its operands or of any tensor reachable from them, and every other handle to the same tensor keeps seeing the same values. Only the accumulated gradient may change, and tensors can be shared and sent freely between threads.',
 ['programs','histories','schedules'],'all programs using the public API from any number of threads',
 'A test sees one operation at a time; it cannot show that no operation in any program writes through a shared handle.',
 [T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_view.rs'],
 [('restricted field visibility, Arc without interior mutability other than the gradient lock',T+'raw_tensor.rs'),('no unsafe code','src')])

p('P09','Tensors compare equal exactly when shapes and all elements agree',
 'Two tensors, or a view and a tensor or view, are equal if and only if they have the same shape and equal elements at every index. Gradients and the history of how a tensor was computed play no part.',
 ['inputs'],'all pairs of shapes and element values',
 'Almost every test relies on equality, so a comparison that ignores some elements would silently weaken them all.',
 [T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_view.rs'],
 [('PartialEq impls',T+'raw_tensor.rs')])

p('P10','Differentiable results remember every operand they were computed from',
 'The result of adding, subtracting, negating, taking the absolute value, tanh, ReLU, sum, dot product or matrix product of reference-counted tensors remembers each operand that contributed to its value - the caller\'s own tensor, not a copy - so that a backward pass deposits a gradient on every one of them. No contribution is attributed to a different operand.',
 ['programs','inputs'],'all operations, operand orders and all ways (by value, by reference) of passing operands',
 'Tests look at the gradient of some operands of some operations; the by-reference and by-value variants are separate implementations.',
 [T+'rc_tensor.rs',T+'functional/element_wise_ops.rs',T+'functional/misc.rs'],
 [('Derivative::new at every operation',T+'rc_tensor.rs')],
 [('grad_fn','the recorded operands and gradient rule',T+'raw_tensor.rs')])

p('P11','Element-wise gradient rules are the derivatives of their operations',
 'For negation, absolute value, tanh, ReLU, addition and subtraction, the gradient delivered to an operand element is the sum, over the result elements computed from it, of the incoming gradient of that result element times the partial derivative there (at a kink, one of the one-sided derivatives). This holds for every shape, including operands repeated by broadcasting, whose contributions are all added up.',
 ['inputs'],'all shapes and broadcasts, all element values, all incoming gradients',
 'Tests compare a few gradients with finite differences or hand calculation, mostly with an incoming gradient of one and without broadcasting.',
 [T+'functional/element_wise_ops.rs',T+'rc_tensor.rs'],
 [('generic_unary_jvp, generic_binop_jvp, jvp_from_diagonal_broadcast, tanh_derivative',T+'functional/element_wise_ops.rs')])

p('P12','Gradients of matrix product, dot product and sum are exact adjoints',
 'For the (batched) matrix product, the dot product and the sum, the gradient delivered to each operand element is the sum over all result elements of the incoming gradient times the coefficient with which that operand element enters the result. This holds for every size, however the work is divided among threads, and for every incoming gradient.',
 ['inputs','schedules'],'all conforming shapes including sizes beyond any internal block size, all incoming gradients, all thread schedules',
 'Tests check gradients of 2x2 and 3x2 products with an incoming gradient of one; nothing larger than one internal block was ever compared.',
 [T+'functional/misc.rs',T+'autograd/jvp.rs'],
 [('bmm_jvp, SplitArrayWriter, dot_jvp',T+'functional/misc.rs'),('ones',T+'autograd/jvp.rs')])

p('P13','A backward pass applies the chain rule along every path',
 'Calling backward on a single-element result starts from a gradient of one and, for every recorded operand of every operation reachable from it, adds that operation\'s gradient, in the operand\'s shape, to the operand and passes the same gradient on to the operand\'s own operation. Nothing reachable is skipped, visited with another gradient, or cut off early, also when a tensor is used several times or already has a gradient; results with more than one element, or without history, are refused.',
 ['programs','histories'],'all computation graphs, including shared sub-expressions and repeated backward passes',
 'Tests use graphs of depth three or less without shared sub-expressions.',
 [T+'autograd/jvp.rs',T+'rc_tensor.rs'],
 [('Derivative::compute_jvp',T+'autograd/jvp.rs'),('RcTensor::backward',T+'rc_tensor.rs')])

p('P14','Gradient accumulation adds up and never loses a contribution',
 'Depositing a gradient on a tensor makes its accumulated gradient the previous one plus the new one (or the new one if there was none), and clearing leaves it with none. When several threads deposit gradients on the same tensor at the same time, every contribution is included in the result.',
 ['schedules','histories'],'all interleavings of concurrent backward passes over shared tensors, all sequences of backward and clear',
 'Tests are single-threaded here and deposit one gradient.',
 [T+'raw_tensor.rs',T+'rc_tensor.rs'],
 [('update_grad, zero_grad and the gradient RwLock',T+'raw_tensor.rs')],
 [('grad','accumulated gradient behind a lock',T+'raw_tensor.rs')])

p('P15','No operation can block forever, whatever the threads',
 'Every operation and backward pass finishes regardless of the number of worker threads, of how tasks are scheduled on them, and of whether it is called from the main thread or from inside a worker. In particular no task waits for values that another task on the same workers must still produce, and no thread waits for a lock that it, or a thread waiting on it, already holds.',
 ['schedules','configurations'],'all thread pool sizes, all calling contexts, all task schedules',
 'Tests run with the default pool from a test thread, where the dangerous schedules do not occur.',
 [T+'functional/misc.rs',T+'raw_tensor.rs'],
 [('two-phase scopes in bmm_jvp, start_then_join',T+'functional/misc.rs'),('gradient lock guards',T+'raw_tensor.rs')])

p('P16','Results do not depend on thread scheduling, time or chance',
 'Given the same operands, every operation, backward pass and optimiser step gives the same result, bit for bit, on every run: nothing depends on the order in which parallel tasks happen to run, the number of threads, the clock, the environment or random numbers.',
 ['schedules','configurations'],'all thread schedules, pool sizes and environments',
 'A test sees one schedule per run.',
 [T+'functional/misc.rs',T+'functional/element_wise_ops.rs','src/optim/sgd.rs'],
 [('each output slot is written by one task with a sequential sum',T+'functional/misc.rs')])

p('P17','Gradients start empty; clearing and copying detach',
 'A newly constructed or computed tensor has no accumulated gradient until a backward pass deposits one. A deep copy has the same shape and elements as the original but no gradient and no history, and shares nothing with it; a tensor\'s accumulated gradient itself carries no history.',
 ['programs','histories'],'all constructors and operations, all sequences of them',
 'Tests read gradients only after a backward pass.',
 [T+'raw_tensor.rs',T+'rc_tensor.rs',T+'tensor_like.rs',T+'autograd/jvp.rs'],
 [('Default for RawTensor, deep_clone, zero_grad',T+'raw_tensor.rs')])

p('P18','Layers compute activation(x W + b) and an MLP chains them in order',
 'A linear layer maps a batch x to its activation applied to x times its weights plus its bias (no activation meaning identity), and a multi-layer perceptron applies its layers in the order given, feeding each layer\'s output to the next. The result remains connected to the layers\' own weights and biases, so a backward pass reaches all of them.',
 ['inputs','programs'],'all layer counts, sizes, parameters, activations and batches',
 'Tests evaluate one single-layer case without activation and only construct an MLP.',
 ['src/nn/linear.rs','src/nn/feed_foward.rs'],
 [('Module::forward for Linear and Mlp','src/nn')])

p('P19','Reading and replacing a module\'s parameters are inverse',
 'A module lists each layer\'s weights and bias exactly once, layers in order, and replacing its parameters with a list in that same order puts every entry into exactly the slot it was listed from: handing back the unchanged list leaves the module unchanged. The listed parameters are the module\'s own tensors, not copies.',
 ['inputs','programs'],'all layer counts and parameter lists',
 'No test reads or replaces parameters (the only one that trains is ignored).',
 ['src/nn/linear.rs','src/nn/feed_foward.rs'],
 [('params / update_params','src/nn')])

p('P20','An SGD step moves every parameter by minus step size times gradient',
 'An SGD step replaces every parameter of the module, each by its old value minus the step size times its own accumulated gradient. The new parameters have no gradient and no history, so that later backward passes stop at them.',
 ['inputs','histories'],'all modules, step sizes, parameter values and gradients, any number of steps',
 'Only an ignored test trains a network, and it checks the loss after 500 steps.',
 ['src/optim/sgd.rs'],
 [('sgd_step','src/optim/sgd.rs')])

p('N01','Results are numerically accurate',
 'Sums, products and activations agree with the exact real-number result up to the rounding error of a sequential evaluation in the element type, for element values of any magnitude.',
 ['inputs'],'all element values', 'Tests use small well-conditioned values.',
 [T+'functional/misc.rs'],[('sequential accumulation',T+'functional/misc.rs')])
p('N02','Training converges',
 'Training the example network with SGD reduces the loss on a fixed data set below any threshold that the network can represent.',
 ['histories'],'all data sets and initialisations','The only training test is ignored for being slow and uses one seed.',
 ['src/main.rs','src/nn/feed_foward.rs'],[('training loop','src/main.rs')])
p('N03','Backward passes stay within time and memory proportional to the graph',
 'A backward pass visits each operation a number of times, and uses an amount of memory and stack, bounded by the size of the computation graph.',
 ['programs'],'all computation graphs','Tests use graphs of depth three.',
 [T+'autograd/jvp.rs'],[('recursion over operands',T+'autograd/jvp.rs')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
