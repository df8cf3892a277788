"""Which units, harnesses and searches decide which property."""
TRUST = ['Verus (VIR and its encoding), Z3, vstd', 'rustc macro expansion; the extractor (/verif/extract), whose rewrites DESIGN.md lists']
NOT_YET = {}
NODES = 'the user\'s node, identity, index and comparison types are lawful: methods are functions of an abstract node (contract of trait Node in units/node.vrs)'
COLLS = 'vstd\'s specifications of Vec, VecDeque, Option, Result; the specification of VecDeque::front_mut (assumed)'
INTER = [('inter', f'FN={f}', f'F={x}') for f in ('cycle_safe', 'robust') for x in ('equiv', 'precheck_equiv')]
CUSTOM = [('inter', 'FN=custom', 'F=both', f'WRM={m}') for m in ('CallStack', 'RecurQueue', 'RecurStack')]
MIXED = [('inter', 'FN=custom', 'F=both', 'WRM=CallStack', f'WRM2={m}') for m in ('RecurQueue', 'RecurStack')]
PROTO = [('proto', f'FN={f}', f'F={x}') for f in ('basic', 'deep_safe', 'wide_safe') for x in ('equiv', 'limited_equiv')] + [('proto', f'FN={f}', f'F={x}') for f in ('cycle_safe', 'robust') for x in ('equiv', 'precheck_equiv')] + [('proto', 'FN=custom', 'F=precheck_equiv')]
ENUM = [('enum', 'FN=custom', 'F=x')] + [('enum', f'FN={f}', 'F=equiv') for f in ('basic', 'deep_safe', 'wide_safe')]
ANYN = 'a node\'s identity is lawful and does not change, and Less and Greater make non-equivalent results (C14); nothing else is assumed of nodes, which may have cycles and change'
CELLS = 'heap cells: core\'s Cell and alloc\'s Rc are modelled by a ghost-threaded heap (units/heap.vrs), std\'s HashMap by a map of lawful keys'
IDS = 'nodes of the same identity have edges to nodes of the same identities, and identity implies equivalent values transitively (law_id, law_val in the units)'
ACC = 'a configuration whose constants do not evaluate is rejected by the compiler (FAST_LIMIT_MAX + 1 fits u16)'
RNGA = 'the random-number generator returns numbers below the given end (unit rng proves it of the provided wrappers)'
PROPS = {
    'C01': {'title': 'Cycle-safe verdicts are exactly graph equivalence', 'units': INTER + CUSTOM,
            'note': 'Verus proves of the four real premade functions, and of a comparison and a precheck-first comparison with any table, generator and limits over each provided recursion mode, with all they call, that the verdict is equivalence exactly when all counterparts match, and that a difference is that of a real pair of counterparts, for all finite graphs, limits and random numbers.',
            'assume': [NODES, COLLS, CELLS, IDS, ACC, RNGA]},
    'C02': {'title': 'Cycle-safe comparisons terminate with work linear in graph size', 'units': INTER + CUSTOM,
            'note': 'Verus proves total correctness of the four real premade functions, and of those with any other limits over each provided recursion mode, on finite graphs, and by a lemma over the mode\'s contract the bound of the number of descents.',
            'assume': [NODES, COLLS, CELLS, ACC, RNGA]},
    'C06': {'title': 'The precheck never changes the verdict and stays within its limit', 'units': [u for u in INTER if 'F=precheck_equiv' in u] + CUSTOM + MIXED + [('plain', f'FN={f}', 'F=limited_equiv') for f in ('basic', 'deep_safe', 'wide_safe')],
            'note': 'Verus proves of the generic precheck-first comparison, over each provided recursion mode and each provided pair of modes that converts, that the result is the completed precheck\'s, else that of the full comparison from the roots with nothing pending.',
            'assume': [NODES, COLLS, CELLS, IDS, ACC, RNGA]},
    'C11': {'title': 'Phase lengths and random limits follow the configuration', 'units': [('inter', 'FN=cycle_safe', 'F=equiv'), ('rng',)],
            'note': 'Verus proves the transition of the mode of descending in every state, the default limits, and each generator\'s request.',
            'assume': [CELLS, ACC, 'contracts of fastrand, oorandom and wyhash (units/rng.vu)']},
    'C19': {'title': 'No panic or arithmetic overflow for any input or configuration',
            'units': INTER + CUSTOM + MIXED + [('rng',), ('values', 'W=step')] + [('plain', f'FN={f}', f'F={x}') for f in ('basic', 'deep_safe', 'wide_safe') for x in ('equiv', 'limited_equiv')],
            'note': 'Verus proves the absence of overflow, failing assertions, unreachable code reached and failed unwrapping in every function the premade functions call.',
            'assume': [NODES, COLLS, CELLS, ACC, RNGA, 'memory and the call stack suffice']},
    'C03': {'title': 'Depth-first comparisons return the first difference in preorder',
            'units': [('plain', f'FN={f}', 'F=equiv', 'WANT=true') for f in ('basic', 'wide_safe')],
            'note': 'Verus proves of the real premade functions, with all they call, that the result is the first difference in depth-first preorder (a structural recursion over the graphs), for all finite acyclic graphs; total correctness.',
            'assume': [NODES, COLLS]},
    'C04': {'title': 'Breadth-first comparison returns the first difference in level order',
            'units': [('plain', 'FN=deep_safe', 'F=equiv', 'WANT=false')],
            'note': 'Verus proves of the real premade function, with all it calls, that the result is that of the abstract breadth-first traversal, for all finite acyclic graphs; total correctness.',
            'assume': [NODES, COLLS]},
    'C05': {'title': 'Limited comparisons are exact about their limit', 'units': [('plain', f'FN={f}', 'F=limited_equiv') for f in ('basic', 'deep_safe', 'wide_safe')],
            'assume': [NODES, COLLS, 'the identity conversion of u8 is core\'s (the Kani harness c05_u8 exercises it)'],
            'kani': [f'c05_{t}' for t in 'u8 u16 u32 u64 u128 usize'.split()],
            'note': 'Verus proves of the three real premade functions, with all they call and for every limit type, that the result is that of the abstract traversal with a budget of exactly L visits; Kani proves the countdown of every limit type over its full domain.'},
    'C07': {'title': 'The equivalence store computes exactly the union of recorded pairs', 'units': [('classes',)],
            'note': 'Verus proves, for every history, that the answer and the new relation are those of the mathematical equivalence closure; heap cells (Cell, Rc) are modelled by a ghost-threaded heap, table and Rc by their contracts.'},
    'C08': {'title': 'Equivalence-class chains stay logarithmic', 'units': [('classes', 'HEIGHT=1')],
            'assume': [CELLS, 'the number of class records fits a machine word (memory could not hold more)', 'the user\'s table of classes and pointer are lawful (contracts of Table and Rc in units/classes_env.vrs; the provided ones are proved to meet them)'],
            'note': 'Verus proves, for every history, that a chain of d links needs 2^d records, by an invariant on the heap of records which every operation keeps; following a chain terminates within its length.'},
    'C12': {'title': 'Reference identities are lawful and exact', 'units': [('ref_id',)], 'kani': ['c12_thin', 'c12_slice', 'c12_rc'],
            'assume': ['core\'s comparisons and hash of raw pointers are those of address and metadata (contract of Ptr in units/ref_id.vu; Kani runs the real ones on symbolic thin and slice references)'],
            'note': 'Verus proves every operator of RefId, for every type of reference, over core\'s operations on raw pointers; Kani runs the real ones with core\'s on symbolic thin and slice references into one array.'},
    'C13': {'title': 'Index stepping is exact and never wraps', 'units': [('values', 'W=step')], 'kani': [f'c13_{t}' for t in 'u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize'.split()],
            'note': 'Verus and Kani each prove the step of every value of all twelve integer types.'},
    'C14': {'title': 'Provided comparison results are faithful', 'units': [('values', 'W=cmp')], 'kani': ['c14_bool', 'c14_ordering'],
            'note': 'Verus and Kani each prove it for every value.'},
    'C09': {'title': 'Edges are enumerated in index order, once, in lock step', 'units': ENUM,
            'note': 'Verus proves it as the precondition of the user\'s get_edge over a ghost record of the requests made, for nodes that may answer anything and every index type, of the enumeration and of every function that uses one (each recursion mode, and the generic functions over any).',
            'assume': [ANYN, COLLS, 'index types step exactly (C13; contract of Step in units/base.vrs)', 'a custom recursion mode begins no further enumeration of a pair']},
    'C10': {'title': 'Pending work never retains exhausted edge sequences',
            'units': [('plain', f'FN={f}', 'F=equiv', 'TIDY=1') for f in ('deep_safe', 'wide_safe')],
            'note': 'Verus proves that between visits every sequence in the stack or queue has an item left, and that the items come out complete and in order.',
            'assume': [NODES, COLLS]},
    'C15': {'title': 'Identical nodes are never inspected; inspection follows the protocol', 'units': PROTO,
            'note': 'Verus proves it as preconditions of the user\'s node methods over a ghost record of what was inspected, of every provided function and recursion mode and of the generic functions over any recursion mode and any mode of descending.',
            'assume': [ANYN, COLLS, 'a custom recursion mode keeps to its contract (units/proto_equiv.vrs, Custom)']},
    'C16': {'title': 'Errors abort at once and arrive converted', 'units': PROTO,
            'note': 'Verus proves it as pre- and postconditions over a ghost record of the first error met, of every provided function and recursion mode and of the generic functions over any recursion mode and any mode of descending.',
            'assume': [ANYN, COLLS, 'a custom recursion mode keeps to its contract (units/proto_equiv.vrs, Custom)', 'the conversion of an error type to itself is core\'s identity']},
    'C17': {'title': 'Deep-safe variations never grow the call stack with depth', 'no_recursion': True, 'profile': 'dev',
            'units': [('plain', f'FN={f}', f'F={x}', 'STACK=1') for f in ('deep_safe', 'wide_safe') for x in ('equiv', 'limited_equiv')] + [('inter', 'FN=robust', f'F={x}', 'STACK=1') for x in ('equiv', 'precheck_equiv')],
            'note': 'Verus, given no measure for any function, accepts none that calls itself through any chain of calls; so each of the six real premade functions, with all it calls, uses a number of frames fixed at compile time. Dropping a chain of class records nests as deep as the chain, which C08 bounds by the logarithm.',
            'assume': [NODES, COLLS, CELLS, ACC, RNGA, 'the user\'s methods and the dropping of the user\'s nodes use bounded stack', 'the size of a frame is fixed by the compiler']},
    'C18': {'title': 'Ordering results of the plain variations obey the order laws',
            'units': [('plain', f'FN={f}', f'F={x}', 'LAWS=1') for f in ('basic', 'deep_safe', 'wide_safe') for x in ('equiv', 'limited_equiv')],
            'note': 'Verus proves that each real premade function returns what the abstract traversal of its order does, and by a lemma over that traversal that this is reflexive, antisymmetric and transitive, for all finite acyclic graphs.',
            'assume': [NODES, COLLS, 'the node-local comparison is a total preorder consistent with identity (law_ord)', 'nodes of the same identity have edges to nodes of the same identities']},
    'C20': {'title': 'All variations agree on finite inputs',
            'units': INTER + [('plain', f'FN={f}', f'F={x}') for f in ('basic', 'deep_safe', 'wide_safe') for x in ('equiv', 'limited_equiv')],
            'note': 'Verus proves of each real premade function that it reports equivalence exactly when all counterparts reached by the same path match.',
            'assume': [NODES, COLLS, 'nodes of the same identity have edges to nodes of the same identities']},
    'C21': {'title': 'Descent control is obeyed exactly',
            'units': [('control', f'WRM={m}') for m in ('CallStack', 'RecurQueue', 'RecurStack')],
            'note': 'Verus proves of the real comparison over each provided recursion mode, for every component that controls descending (its answers any function of all it was asked), that results, questions and their order are those of the abstract traversal; lemmas state what that asks and what an answer does.',
            'assume': [NODES, COLLS, 'the component\'s answers depend only on its own state and the nodes it is given (contract of trait DescendMode in units/machine.vrs)']},
}
