"""Texts that go into evidence and MANIFEST."""

FLOOR = {}

ASSUMPTIONS = [
    'exact real arithmetic; floating-point rounding is not modelled',
    'TensorFlow/NumPy/Keras operations behave as summarised in t3fsa/tfmodel.py, npmodel.py and library.py',
    'the number of cores is specialised to the values listed in the contexts; sizes, ranks, batch sizes and contents '
    'are symbolic',
]

VALUE = ('Abstract interpretation of the entry points over the syntax tree of /repo: one obligation per operand-kind '
         'context, sizes, ranks and core contents symbolic; the canonical tensor-network form of the result is compared '
         'with the canonical form of the specification.')

_CROSS = ('Abstract interpretation of every catalogued call of the public operations (one obligation per call and '
          'operand-kind context, sizes, ranks and contents symbolic). ')
_REJECT = ('Exception-flow by abstract interpretation: one obligation per way of violating exactly one requirement while all '
           'others hold; every path of the call has to end in ValueError. Calls that meet all requirements have to return.')

EXPLAIN = {
    'C10': _CROSS + 'Every TT-object in a result is asked for its shape, ranks, batch size, kind and dtype through the static '
           'and the dynamic queries, analysed in the same way, and the answers are compared with the shapes of its cores; '
           'again with sizes that are unknown while tracing and with shapes beyond machine integers.',
    'C11': _REJECT,
    'C12': _REJECT,
    'C20': 'Abstract interpretation of the initialisers with independent random atoms per entry; the expectation of the '
           'represented entries and of their squares is computed on the canonical forms.',
    'C21': _REJECT,
    'C24': _CROSS + 'The state of all arguments, of default values, of class attributes and of module variables is compared '
           'before and after the call; a difference is reported with the statement that wrote it. A second call with other '
           'contents, or after assigning to the variables of the operands, has to meet the specification as well.',
    'C25': _CROSS + 'Operands carry an unspecified floating dtype; the result has to carry the same one, and no conversion on '
           'the way may go through a fixed narrower dtype. Casts are analysed for all target dtypes.',
    'C26': _CROSS + 'In the canonical form of a batched result every batch index of an operand has to be the batch index of '
           'the result, also inside the arguments of factorisations and elementwise functions.',
    'C29': 'Resolution of every name, attribute chain, import and call signature in the syntax trees against the repository '
           'and the sources of the installed packages; exports and documented names are resolved in the same way.',
    'C30': _CROSS + 'The symbolic size of every tensor created on the way may contain the mode sizes of one core only; products '
           'of mode sizes that are bounded by a TT-rank in the analysed partition count as a TT-rank.',
    'C31': _CROSS + 'The batched calls are analysed again in graph mode with a batch size that has no static value, against the '
           'same specification.',
    'C32': _CROSS + 'The calls are analysed again in graph mode with sizes, TT-ranks and batch sizes that have no static value, '
           'against the same specification.',
    'C33': 'Abstract interpretation of the replacement, then of the SVD call forms and of all decompositions with the replacement '
           'in place; results are compared with the same specification as without it.',
    'C34': _CROSS + 'The cores of the operands are renamed to unknowns; an operation that leaves the recorded computation '
           '(conversion to NumPy or Python numbers, stopped gradients) maps them back. No original core may occur in a result.',
    'C43': 'Abstract interpretation of the operations with a documented complexity; the symbolic number of multiplications of '
           'every contraction (best pairwise order), factorisation and elementwise step is compared monomial by monomial with '
           'the documented one, and the number of steps for 2, 4 and 8 cores with linear growth.',
    'C36': 'Abstract interpretation of the description methods with pairwise distinct concrete sizes; the numbers and words in '
           'the text are compared with the object.',
}
RULE_TEXT = {}


def explain(pid):
  return EXPLAIN.get(pid, VALUE)

_T = 'abstract interpretation of the syntax tree: '
TECHNIQUE = {
    'C10': _T + 'metadata rule on every returned object',
    'C11': _T + 'exception-flow rule',
    'C12': _T + 'exception-flow rule',
    'C20': _T + 'moments of independent random atoms',
    'C21': _T + 'exception-flow rule',
    'C22': _T + 'typestate of variables',
    'C24': _T + 'effect analysis of arguments, defaults and module state',
    'C25': _T + 'dtype typing with an unspecified dtype',
    'C26': _T + 'dependence analysis of batch indices',
    'C29': 'name, attribute and signature resolution over the syntax trees',
    'C30': _T + 'size typing of all intermediates',
    'C31': _T + 'value rule with a statically unknown batch size',
    'C32': _T + 'value rule with statically unknown sizes',
    'C33': _T + 'value rule with the replaced library function',
    'C43': _T + 'cost typing of contractions and factorisations',
    'C34': _T + 'dependence analysis of detached values',
    'C36': _T + 'constant propagation into the description text',
}
VALUE_TECHNIQUE = 'abstract interpretation of the syntax tree, value numbering modulo tensor-network algebra'
VALUE_NOTE = ('Holds for all sizes, ranks, batch sizes and contents in the analysed operand-kind contexts, in exact '
              'arithmetic, for the numbers of cores the contexts list; library operations are trusted summaries.')
NOTE = {
    'C43': 'Holds for all sizes, ranks and batch sizes; growth with the number of cores is decided from 2, 4 and 8 cores. That '
           'the library performs a contraction of several tensors in a good pairwise order is trusted.',
}

NOT_APPLICABLE = {
    'C40': 'Quantifies over floating-point rounding of arbitrary contents; bounding it needs numerical error analysis of '
           'library kernels (QR, SVD, matmul), which no static argument over this source can bound.',
    'C41': 'The truncation rank is chosen from runtime singular values against a tolerance; the error bound depends on '
           'those values and no static abstraction in reach decides it. (Rank bounds and exactness without truncation are C09.)',
    'C42': 'The NumPy replacement leaves the recorded computation, its gradient is a numeric matter of runtime singular '
           'vectors; equality with the native kernel gradient is a numeric fact about library code outside the source.',
}


def technique(pid):
  return TECHNIQUE.get(pid, VALUE_TECHNIQUE)


def note(pid):
  return NOTE.get(pid, VALUE_NOTE)
