"""What the documentation promises, written down independently of the code: the recognised packages and their
replacements, and small AST/text oracles shared by the checks."""
import ast, re
from . import core

# README / docs: packages whose APIs are converted one by one, and what replaces them
PACKAGES = {
    "torch": "paddle", "mmseg": "paddle", "mmcv": "paddle", "mmdet": "paddle", "mmdet3d": "paddle", "mmengine": "paddle",
    "detectron": "paddle", "timm": "paddle", "torchvision": "paddle", "torchaudio": "paddlespeech", "kornia": "paddle",
    "fasttext": "paddle", "pytorch_lightning": "paddle", "lightning": "paddle", "jieba": "paddle", "NLTK": "paddle",
    "fairscale": "paddle", "transformers": "paddleformers", "datasets": "paddle", "accelerate": "paddle",
    "diffusers": "paddle", "torch_xla": "paddle", "flash_attn": "paddle",
}
# packages of which only some APIs are converted, the import stays
MAYBE = ["setuptools", "os", "einops"]
# packages replaced as a whole
WHOLE = {"audiotools": "paddlespeech.audiotools"}
ANNOTATION = ("Not Support auto convert", "C++ Custom OP: only convert")


def imported_packages(tree):
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            r |= {a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom) and not n.level:
            r.add((n.module or "").split(".")[0])
    return r & set(PACKAGES)


def leftovers(tree, pkgs):
    """(line, what) of every reference to one of pkgs; imports included."""
    r = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in pkgs:
            r.append((n.lineno, "name " + n.id))
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] in pkgs:
                    r.append((n.lineno, "import " + a.name))
        elif isinstance(n, ast.ImportFrom) and not n.level and (n.module or "").split(".")[0] in pkgs:
            r.append((n.lineno, "from %s import" % n.module))
    return sorted(r)


def annotations(tree):
    """lines (first, last) of annotation strings the tool adds before a statement it could not convert"""
    r = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) \
                and n.value.value.startswith(ANNOTATION):
            r.append((n.lineno, n.end_lineno, n.value.value))
    return r


def strings(tree):
    """all string constants outside annotations, as a sorted list"""
    skip = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
            and isinstance(n.value.value, str) and n.value.value.startswith(ANNOTATION)}
    return sorted(n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in skip)
