"""AST nodes and expressions of the library as syntax trees for the specification."""

OPS = ("and", "and_then", "or", "or_else", "max", "min", "minus", "add", "sub", "mul", "div", "fdiv_q", "pdiv_q",
       "pdiv_r", "zdiv_r", "cond", "select", "eq", "le", "lt", "ge", "gt", "call", "access", "member", "address_of")


def name_of(lib, id):
    n = lib.id_get_name(id)
    lib.id_free(id)
    return n.decode() if isinstance(n, bytes) else n or ""


def expr(lib, e, free=True):
    """consumes e"""
    try:
        t = lib.ast_expr_get_type(e)
        if t == 2:
            v = lib.ast_expr_int_get_val(e)
            k = lib.val_get_num_si(v)
            lib.val_free(v)
            return dict(t="int", v=k)
        if t == 1:
            return dict(t="id", n=name_of(lib, lib.ast_expr_id_get_id(e)))
        if t == 0:
            o = lib.ast_expr_op_get_type(e)
            n = lib.ast_expr_op_get_n_arg(e)
            return dict(t="op", o=OPS[o], a=[expr(lib, lib.ast_expr_op_get_arg(e, i)) for i in range(n)])
        return dict(t="bad")
    finally:
        if free:
            lib.ast_expr_free(e)


def node(lib, n, ann=None):
    """consumes n"""
    try:
        t = lib.ast_node_get_type(n)
        if t == 1:
            it = expr(lib, lib.ast_node_for_get_iterator(n))
            d = dict(t="for", it=it.get("n", "?"), init=expr(lib, lib.ast_node_for_get_init(n)))
            d["deg"] = bool(lib.ast_node_for_is_degenerate(n))
            if not d["deg"]:
                d["cond"] = expr(lib, lib.ast_node_for_get_cond(n))
                d["inc"] = expr(lib, lib.ast_node_for_get_inc(n))
            d["body"] = node(lib, lib.ast_node_for_get_body(n), ann)
            return d
        if t == 2:
            d = dict(t="if", cond=expr(lib, lib.ast_node_if_get_cond(n)),
                     then=node(lib, lib.ast_node_if_get_then_node(n), ann))
            if lib.ast_node_if_has_else_node(n):
                d["els"] = node(lib, lib.ast_node_if_get_else_node(n), ann)
            return d
        if t == 3:
            l = lib.ast_node_block_get_children(n)
            k = lib.ast_node_list_size(l)
            d = dict(t="block", l=[node(lib, lib.ast_node_list_get_at(l, i), ann) for i in range(k)])
            lib.ast_node_list_free(l)
            return d
        if t == 4:
            return dict(t="mark", n=name_of(lib, lib.ast_node_mark_get_id(n)), body=node(lib, lib.ast_node_mark_get_node(n), ann))
        if t == 5:
            d = dict(t="user", e=expr(lib, lib.ast_node_user_get_expr(n)))
            if ann is not None:
                id = lib.ast_node_get_annotation(n)
                if id:
                    a = ann.get(name_of(lib, id))
                    if a is not None:
                        d["acc"] = a
            return d
        return dict(t="bad")
    finally:
        lib.ast_node_free(n)
