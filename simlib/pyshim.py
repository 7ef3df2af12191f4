"""Python 3.12.3 lacks the 3.12.4 fix that lets inspect.get_annotations(eval_str=True) see PEP 695 type
parameters; the project requires 3.12.5.  This supplies exactly that, in the harness process only."""

import inspect
import sys

_orig = inspect.get_annotations


def install() -> None:
    if sys.version_info >= (3, 12, 5) or getattr(inspect.get_annotations, "_sim", False):
        return

    def get_annotations(obj, *, globals=None, locals=None, eval_str=False):
        if eval_str:
            tp = getattr(obj, "__type_params__", ())
            if tp:
                if locals is None:
                    base = dict(vars(obj)) if isinstance(obj, type) else {}
                    base = {p.__name__: p for p in tp} | base
                else:
                    base = dict(locals)
                return _orig(obj, globals=globals, locals=base, eval_str=True)
        return _orig(obj, globals=globals, locals=locals, eval_str=eval_str)

    get_annotations._sim = True
    inspect.get_annotations = get_annotations
