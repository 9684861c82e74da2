"""Deliberate breakage of the source, to test the verifier itself: python3-vt tools/mutants.py FILE CLASS [max]."""
import ast, copy, sys, os, shutil, subprocess, tempfile, random
def mutants(src, clsname, seed=1):
    tree = ast.parse(src); out = []
    for c in tree.body:
        if not (isinstance(c, ast.ClassDef) and c.name == clsname): continue
        for f in c.body:
            if not isinstance(f, ast.FunctionDef): continue
            for n in ast.walk(f):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                    for d in (1, -1): out.append((f.name, n.lineno, n.col_offset, n.end_col_offset, str(n.value + d)))
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and n.lineno == n.end_lineno:
                    alt = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "Is": "is not", "IsNot": "is"}.get(type(n.ops[0]).__name__)
                    if alt: out.append((f.name, n.lineno, n.left.end_col_offset, n.comparators[0].col_offset, f" {alt} "))
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and n.lineno == n.end_lineno:
                    out.append((f.name, n.lineno, n.left.end_col_offset, n.right.col_offset, " - " if isinstance(n.op, ast.Add) else " + "))
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.append((f.name, n.lineno, n.col_offset, n.end_col_offset, "return self.copy() if hasattr(self, 'persistent') else type(self)(list(self))"))
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and n.lineno == n.end_lineno:
                    out.append((f.name, n.lineno, n.col_offset, n.end_col_offset, "pass"))
                if isinstance(n, (ast.AugAssign,)) and n.lineno == n.end_lineno:
                    out.append((f.name, n.lineno, n.col_offset, n.end_col_offset, "pass"))
    return out
def apply(src, m):
    lines = src.split("\n"); l = lines[m[1] - 1]
    lines[m[1] - 1] = l[:m[2]] + m[4] + l[m[3]:]
    return "\n".join(lines)
