"""Lets the project be imported on Python 3.12.3 (it needs 3.12.5 for PEP 695 type parameters in annotations)."""
import inspect, os, sys
_o = inspect.get_annotations
if sys.version_info < (3, 12, 5):
    def get_annotations(obj, *, globals=None, locals=None, eval_str=False):
        if eval_str and getattr(obj, "__type_params__", ()):
            base = (dict(vars(obj)) if isinstance(obj, type) else {}) if locals is None else dict(locals)
            if locals is None:
                base = {p.__name__: p for p in obj.__type_params__} | base
            return _o(obj, globals=globals, locals=base, eval_str=True)
        return _o(obj, globals=globals, locals=locals, eval_str=eval_str)
    inspect.get_annotations = get_annotations
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
sys.path.insert(0, os.environ.get("DEMO_REPO", os.getcwd()))
