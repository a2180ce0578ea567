"""Integer constants of a source read as other values (size thresholds scaled down)."""


def rescale(src, path, consts):
    """the source with comparisons against the constants (size thresholds) scaled down"""
    import ast

    class T(ast.NodeTransformer):
        def visit_Constant(self, n):
            if type(n.value) is int and n.value in consts:
                return ast.copy_location(ast.Constant(consts[n.value]), n)
            return n
    return compile(ast.fix_missing_locations(T().visit(ast.parse(src))), path, "exec")
