"""Which obligation families decide which property."""
import importlib
import json
import os

BUDGET = 60
HERE = os.path.dirname(os.path.abspath(__file__))

CASES = 60          # seconds per shard for case distinctions
LIMIT = 540         # seconds for a quick check; what is undecided then stays so
FAMILY = {
    "p01": "ob_basic:p01", "p02": "obligations:p02", "p03": "obligations:p03", "p04": "ob_basic:p04", "p05": "obligations:p05",
    "p06": "obligations:p06", "p07": "ob_basic:p07", "p09": "ob_basic:p09",
    "p10": "ob_grad:p10", "p11": "ob_grad:p11", "p12": "ob_grad:p12", "p13": "ob_grad:p13", "p14": "ob_grad:p14", "p17": "ob_grad:p17",
    "p18": "ob_nn:p18", "p19": "ob_nn:p19", "p20": "ob_nn:p20",
    "p08": "structural:p08", "p15": "structural:p15", "p16": "structural:p16",
    "contract_global_index": "obligations:contract_global_index", "contract_increment_index": "obligations:contract_increment_index",
    "contract_tensor_index": "obligations:contract_tensor_index", "contract_max_shape": "obligations:contract_max_shape",
}
SHARDS = {"p01": 2, "p02": 3, "p03": 4, "p04": 16, "p07": 3, "p09": 2, "p10": 5, "p11": 2, "p12": 6, "p13": 16, "p14": 6, "p17": 10, "p18": 10, "p20": 3}

# family of obligations -> the primitives whose contract it establishes
CONTRACTS = {
    "contract_global_index": ["global_index"],
    "contract_increment_index": ["increment_index"],
    "contract_tensor_index": ["tensor_index"],
    "contract_max_shape": ["max_shape"],
    "p05": ["TensorView::get"],
    "p06": ["IndexIterator::new", "ElementIterator::new"],
}


def family(name):
    m, f = FAMILY[name].split(":")
    return getattr(importlib.import_module(m), f)


def hook_of(fam, row):
    """the primitive that an obligation of a contract family is about"""
    hs = CONTRACTS[fam]
    for h in hs:
        if h.split("::")[0] in row and (len(hs) > 1 or "::" in h) and h.split("::")[0] + "::get" * h.endswith("::get") in row:
            return h
    return hs[0] if len(hs) == 1 and "::" not in hs[0] else None


RULE = ("Each obligation names a function of the source. Its type-checked body (THIR of this run's extraction) is evaluated over symbolic operands "
        "of any shape, calls followed, loops replaced by closed-form recurrences, giving a closed form of the result and the exact condition "
        "of normal return. PROVED: that form and the specified one normalise to the same term. AGREE: they are different terms that no valuation tried "
        "separates. VIOLATED: a valuation satisfying the stated facts separates them. UNKNOWN: part of the form could not be determined (no alarm).")

ASSUMPTIONS = [
    "elements form a commutative ring with an order (wrap-around and rounding of machine numbers are not modelled)",
    "the standard library, rayon and std::sync behave as documented; they are modelled, not analysed",
    "allocation succeeds and products of extents fit in usize",
]

_T = {}
for _l in open(os.path.join(os.path.dirname(HERE), "properties.jsonl")):
    _d = json.loads(_l)
    _T[_d["id"]] = _d["title"]

VF = "Value-flow obligations: "
PROPS = {
    "P01": dict(families=["p01"], explain=VF + "closed forms of elements and shape of every public constructor, conversion and copy, against the specified ones, and the exact condition under which each refuses."),
    "P02": dict(families=["p02"], explain=VF + "every Add/Sub implementation on symbolic operands of any rank against numpy broadcasting."),
    "P03": dict(families=["p03"], explain=VF + "every element-wise operation on a symbolic operand of any shape against its function at every position."),
    "P04": dict(families=["p04"], explain=VF + "bmm, dot and sum of every tensor kind against the defining sums."),
    "P05": dict(families=["p05", "contract_global_index"], explain=VF + "every reading path against the row-major position or the error value."),
    "P06": dict(families=["p06", "contract_increment_index", "contract_tensor_index"], explain=VF + "the index and element iterators as sequences, and index arithmetic."),
    "P07": dict(families=["p07", "p02", "p03", "p04", "p05", "p06", "p09"], keep=lambda n: n.startswith("P07") or "TensorView" in n,
                explain=VF + "slicing, reshaping and everything that reads a view against the window it selects."),
    "P09": dict(families=["p09"], explain=VF + "every equality implementation against 'same shape and equal elements'."),
    "P10": dict(families=["p10"], explain=VF + "every differentiable operation on tensors without history, followed by a backward pass from an arbitrary incoming gradient: each operand's own gradient lock must hold a gradient, and not the other operand's."),
    "P11": dict(families=["p11"], explain=VF + "the gradient that a backward pass leaves in each operand's lock, as a closed form in the incoming gradient and the operands, against the derivative of the operation (element-wise operations)."),
    "P12": dict(families=["p12"], explain=VF + "the gradient that a backward pass leaves in each operand's lock, as a closed form in the incoming gradient and the operands, against the adjoint of the operation (matrix product, dot product, sum)."),
    "P13": dict(families=["p13"], explain=VF + "backward passes through every operation applied to computed operands, through chains, shared operands and existing gradients, started at results of one element and refused otherwise."),
    "P14": dict(families=["p14"], explain=VF + "deposits and clearing, alone and with every lock acquisition finding an arbitrary content left by other threads; the sum of what the acquisitions change must be the deposited gradient."),
    "P17": dict(families=["p17"], explain=VF + "gradient and history of every constructed or computed tensor, of deep copies, and of accumulated gradients."),
    "P18": dict(families=["p18"], explain=VF + "the forward pass of a linear layer for any batch, weights and bias with no, library and user activations; an MLP of 0-4 layers as the composition of its layers, and the gradients a backward pass leaves on all of their parameters."),
    "P19": dict(families=["p19"], explain=VF + "the parameter lists of layers and MLPs of 0-6 layers by tensor identity, and where every entry of a replacing list ends up."),
    "P20": dict(families=["p20"], explain=VF + "an SGD step on layers and MLPs of 0-6 layers with parameters of any shape: elements, shape, gradient, history and identity of every parameter afterwards."),
}
ST = "Rules over MIR and items: "
PROPS["P08"] = dict(families=["p08"], rule="structural", contracts=False, explain=ST + "every field of the tensor types for interior mutability, every pointer conversion and write through it, Send and Sync of every tensor and layer type (asked of the trait solver), every static.")
PROPS["P15"] = dict(families=["p15"], rule="structural", contracts=False, explain=ST + "every lock acquisition and every call made while a guard is alive (interprocedural access paths), every region of pool tasks with what its tasks await and produce, every drained channel and the senders still owned around it, bounded channels, spinning, functions without an end.")
PROPS["P16"] = dict(families=["p16"], rule="structural", explain=ST + "every call that reads randomness, clock, environment, thread identity, pool size, hash order or addresses and where its result goes; every parallel reduction; every update through a lock or atomic by a task; every use of values in the order in which they arrive; and, by value-flow, that the keys by which arriving values are sorted are all different.")
STRULE = ("Each rule enumerates the constructs of this run's MIR it applies to (call sites, guards alive at them, task closures, fields, pointer conversions); "
          "one obligation each: PROVED when the rule holds there, VIOLATED with file and line otherwise.")
for _k in ("P08", "P15", "P16"):
    PROPS[_k]["technique"] = "interprocedural MIR analysis (call graph, access paths, guard liveness, taint) and type queries" + (" with value-flow closed forms of the sort keys" if _k == "P16" else "")
    PROPS[_k]["note"] = ("Rules decided on the MIR and types of the current source for all inputs, schedules and pool sizes. Over-approximates which locks meet and which calls run; "
                         "does not see what dependencies do inside, and termination of loops is only judged by the existence of an exit.")
for _k, _v in PROPS.items():
    _v["title"] = _T[_k]

TECH = "value-flow abstract interpretation of type-checked Rust (THIR) to closed forms, compared with specified closed forms"
NOTE = ("Symbolic over all shapes and elements (exact ring arithmetic): each obligation compares the closed form derived from the current source with the specified one. "
        "Identical normal forms are proofs relative to the analysis; forms that differ are tested for equality by valuations of the terms (no code is run), so that a violation is only "
        "reported with a valuation that separates them, and a form that cannot be determined raises no alarm. Trusts the models of std, rayon and locks, and the analysis itself.")
