"""A set of small projects that together use every kind of generated artefact: replacement packages, helper code, extra imports,
temporaries, marks, C++ extensions, local modules, copied files. Shared by the checks on environments and histories."""
ALLPKG = """import torch
import torch.nn as nn, torch.nn.functional as F, torchvision
from torch import optim, Tensor as T
from torchvision import transforms, models
import transformers
from transformers import BertModel
import os, helper, numpy as np
import einops.layers.torch
def f(x: T, m=nn.Linear(1, 2)):
    y = F.relu(x).max()
    z = x.split(2)
    w = torch.autograd.Variable(x, requires_grad=True)
    u, s, v = torch.svd(y)
    a = torch.rand(2, 3, requires_grad=True, pin_memory=True)
    return torch.foo(x), y, z, w, u, s, v, a, torch.get_num_threads()
t = transforms.ToTensor()
r = models.resnet18()
o = optim.SGD([1], lr=torch.tensor(0.1))
b = BertModel()
"""
HELPERS = """import torch
x = torch.float_power(a, 2)
y = torch.can_cast(torch.int32, torch.float32)
z = torch.nn.LogSoftmax()
w = a.max()
torch.backends.cudnn.benchmark = True
torch.set_num_threads(4)
g = torch.nn.GRUCell(2, 3)
"""
HELPERS2 = """import torch
y = torch.can_cast(torch.int32, torch.float32)
v = a.min()
w = a.max()
k = torch.nn.Softmin()
"""
MARKS = """import torch
from torch.foo import bar as baz, qux
from torch import package
def f(a):
    '''torch doc'''
    b = a.view(2).fooz()
    a.backward(inputs=[1])
    torch.storage_thing(a)
    qux(baz)
    return torch.add(a, out=b), package.x
"""
LOCALS = """import datasets, torch
from datasets import load
from transformers import AutoModel
import helper
x = datasets.load('torch')
y = load(torch.abs(a))
"""
TEMPS = """import torch
def f(out_0, a):
    p = torch.ones(2, requires_grad=True)
    q = torch.zeros(2, dtype=torch.float64, requires_grad=True)
    r = torch.svd(a), torch.slogdet(a)
    return p, q, r, out_0
"""
SETUP = """from setuptools import setup
from torch.utils.cpp_extension import BuildExtension, CppExtension
setup(name='my_ext', ext_modules=[CppExtension('my_ext', ['a.cpp'])], cmdclass={'build_ext': BuildExtension})
"""
EXTUSE = """import torch
import my_ext
class F(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x):
        y = my_ext.forward(x)
        ctx.save_for_backward(y)
        return y
    @staticmethod
    def backward(ctx, g):
        return my_ext.backward(g, ctx.saved_tensors[0])
"""
PLAIN = "import os\nimport helper\nimport numpy\n\n\ndef f(x):\n    return os.path.join(x, 'torch')\n"
MODEL = """import torch.nn as nn
from torch.nn import functional as F
class M(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Conv2d(1, 2, 3, padding_mode='zeros')
        self.n = nn.BatchNorm2d(2, momentum=0.9)
    def forward(self, x):
        if self.training and x.requires_grad:
            return F.softmax(self.l(x), dim=1).size(0)
        return self.n(x).permute(0, 1)
"""
UNICODE = """# \u4e2d\u6587
import torch
\u540d = '\u4e2d\u6587 torch.x'
def f(\u00e4, b='\u00e9'):
    "torch \U0001f600"
    return torch.float_power(\u00e4, b), torch.zzz(\u540d), a.max(), torch.can_cast(b, c)
"""
TREES = {
    "unicode": {"a.py": UNICODE, "l1.py": "# -*- coding: latin-1 -*-\nimport torch\nx = '\xe9'\ny = torch.float_power(x, 2)\n".encode("latin-1"), "bom.py": b"\xef\xbb\xbf" + UNICODE.encode("utf-8"),
                "\u4e2d.py": UNICODE, "requirements.txt": "torch==1.8  # \u4e2d\nnumpy\n", "sub/\u00e9.txt": "\u4e2d"},
    "allpkg": {"a.py": ALLPKG, "helper.py": PLAIN},
    "helpers": {"a.py": HELPERS, "b.py": HELPERS2, "sub/c.py": HELPERS2, "d.py": MODEL},
    "marks": {"a.py": MARKS, "b.py": MARKS.replace("baz", "baz2"), "sub/m.py": "from torch import nn\nnn.Foo(1)\n"},
    "locals": {"a.py": LOCALS, "datasets.py": "def load(x):\n    return x\n", "sub/a.py": LOCALS, "helper.py": "import torch\nX = torch.Size([1])\n"},
    "temps": {"a.py": TEMPS, "b.py": TEMPS.replace("out_0", "out_1")},
    "ext": {"a_use.py": EXTUSE, "setup.py": SETUP, "z_use.py": EXTUSE, "my_ext.cpp": "#include <torch/extension.h>\n"},
    "files": {"requirements.txt": "torch==1.8\nnumpy\n", "data.bin": bytes(range(256)), "sub/x.yaml": "torch: 1\n", "plain.py": PLAIN, "m.py": MODEL},
    "plain": {"a.py": PLAIN, "empty.py": "", "sub/__init__.py": "from . import x\n", "sub/x.py": "y = 1\n"},
}
