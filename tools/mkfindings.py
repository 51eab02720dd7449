"""Writes /verif/known_findings.json (the human-edited source of the list)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
KNOWN = [
    ("C04", "star|unmarked", "'from torch import *' is removed and the uses of the names it provides are neither converted nor marked"),
    ("C18", "unbound|Logic", "the helper code of torch.onnx.export calls an undefined class Logic (the text is asserted by tests/test_onnx_export.py, so it can not be repaired here)"),
    ("C18", "unbound|filename", "the helper code of torch.onnx.export uses an undefined variable filename (text asserted by tests/test_onnx_export.py)"),
    ("C18", "helper-unbound|onnx_export.Logic", "as before, in paddle_utils.py of a directory conversion"),
    ("C18", "helper-unbound|onnx_export.filename", "as before, in paddle_utils.py of a directory conversion"),
]
FIXED = """9009b80 C03 a block whose only statement is a removed import or call was left empty: the output does not compile
6c79401 C03 generated imports and helper code were put before the docstring and 'from __future__' imports
74506a6 C03 the converted file was read back in the locale encoding and split at form feeds and other separators
acd1019 C08 helper statements of a use in a lambda, comprehension or loop condition were put into the wrong scope
bdd5c11 C08 helper statements were inserted at a shifted position after an earlier statement was removed
b507156 C05 strings, f-strings and quotes could hide a mark or cause one
2a407c9 C10 names after a local module in the same import statement were dropped
2616877 C13 the order of generated imports and of the files depended on the hash seed and the directory order
2d8d17c C14 the helper file of an earlier conversion in the same process was written again
dfe7efd C02 an output directory inside the input was converted into itself
508e68c C06 one misidentified use removed all uses of that API from the list of APIs
66473cf C17 min mode repeated the attribute name of an aligned class
196021c C11 of several **kwargs in one call only one was kept
db8738b C14 generated names depended on earlier conversions and could clash with the user's names
37727bd C08 temporary variables of generated code overwrote the user's variables
c699c96 C14 the import of a C++ extension of an earlier project was removed from a later one
6390885 C11 an unsupported keyword after one with the value None was silently accepted
af1c22a C03 a call shape a rule does not expect aborted the whole conversion
294ce55 C03 a user variable called other_packages or torch_packages aborted the conversion
d631332 C09 an imported name was converted only in some expression positions
8fdeb82 C04 a reference to the package itself stayed unconverted and unmarked
a33e7d2 C11 the value of requires_grad, non_blocking, some or size lost quotes and parentheses inside it
58db9c8 C03 syntax that astor can not print (match, except*, walrus...) aborted or changed the program
c541a33 C03 the default device of decode_jpeg was inserted without quotes
60e5669 C10 excluding a package that is not in the table aborted the program
f5a15ae C08 match cases and except* were not treated as blocks
c2ab82c C09 'import torch.nn' did not bind torch
c3dfe3e C04 torch.distributed.Backend as value was rewritten to a name that does not exist
17e2b87 C08 uses inside an expression whose attribute is taken were not converted
f80d467 C09 aliases of other packages than torch were neither converted nor marked
a074e1f C01 an output location naming the input (or a parent of it) overwrote or deleted input files
126af30 C03 sources with a byte order mark or a declared encoding aborted the conversion
249c06e C10 packages whose dotted name contains 'audiotools' were rewritten
af07d5e C02 the project's own paddle_utils.py was overwritten by the helper code
cdc7599 C09 a use above the import of its name (in a function) was not converted
d3b74a5 C11 arguments after a leading '*' were accepted by position
4c02250 C12 a positional return_complex of Tensor.stft was passed on as the name parameter
b68fd93 C13 an output path with a quote made every API that needs helper code unsupported
c13ee49 C13 the order and grouping of imports depended on the modules found in the current directory
74ddd13 C17 an alias of torch.utils counted an extra unsupported API for alias.data.*
651bc1a C17 an attribute of an aligned class was kept and marked in min mode
82aca3d C18 helper functions whose name starts with '_' were not visible through 'from paddle_utils import *'
ebe75c8 C19 the default dim of softmin was derived from minus the number of dimensions; a compound argument was negated in part only
2a7e828 C18 helper code of get_enum used warnings without importing it
e8c3338 C18 helper code of PreTrainedModel used paddle without importing it
681aa15 C18 the default dtype of make_tensor was inserted without quotes
d748450 C18 np_str_obj_array_pattern was converted to re.compile without importing re
2457601 C20 an argument that merely contains 'None' was taken for None (OneCycleLR, sparse.sum)
c617f0f C20 backslashes in the receiver of a method call were dropped
55a6a57 C19 torch.autograd.Variable(expr, requires_grad=...) set the flag on another object than it returned
ae661a8 C21 --show_unalign_api aborted the run for an aligned API of another package than torch
d6909e1 C10 'from operator import add' (any name of another package) left torch.add and x.add() unconverted and uncounted
a8e478d C10 a method of a value was not converted when an argument of the value called a function of another package; (1 + np.array(x)).max(1) was taken for a tensor method
b983893 C19 Tensor.split returned wrong pieces when the size does not divide the dimension
1b206fe C19 bidirectional of RNN, LSTM and RNNBase was dropped unless it is a literal
b4e525c C19 return_complex of stft was ignored unless it is a literal
a770e73 C11 Tensor.qr(some) was passed on with the two values exchanged
81305a2 C19 lu and lu_unpack with out= guessed a flag that is only known at run time
a341f09 C19 InstanceNorm without affine got trainable scale and bias (results differ in stop_gradient)
fca1fd5 C03 torch.is_nonzero.zz (an attribute of an API without a Paddle name) ended the conversion with TypeError
0981df3 C04 a name broken over two lines (torch<newline>.zz) was left unmarked, paddleformers.<newline>transformers was marked (C05)
97e35f8 C03 assignment to an attribute that becomes a call (a.real = b, torchvision...DEFAULT = b) gave invalid Python""".split("\n")
d = dict(known=[dict(property=p, key=k, what=w) for p, k, w in KNOWN],
         fixed=["fixed: property=%s %s %s" % (l.split(" ", 2)[1], l.split(" ", 2)[0], l.split(" ", 2)[2]) for l in FIXED])
json.dump(d, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
