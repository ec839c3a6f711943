"""Which generator drives which property."""


def get(prop, part=""):
    if prop in ("C01", "C02", "C03"):
        import prof_rel
        return lambda lib, R, out, prog, p, i, tier: prof_rel.run(lib, R, out, prog, p, i, 40)
    if prop == "C07":
        import prof_fun
        return lambda lib, R, out, prog, p, i, tier: prof_fun.run(lib, R, out, prog, p, i)
    if prop == "C04":
        import prof_opt
        return lambda lib, R, out, prog, p, i, tier: prof_opt.run(lib, R, out, prog, p, i)
    if prop == "C05":
        import prof_hull
        return lambda lib, R, out, prog, p, i, tier: prof_hull.run(lib, R, out, prog, p, i)
    if prop == "C06":
        import prof_scan
        return lambda lib, R, out, prog, p, i, tier: prof_scan.run(lib, R, out, prog, p, i)
    if prop == "C18":
        import prof_num
        return lambda lib, R, out, prog, p, i, tier: prof_num.run(lib, R, out, prog, p, i)
    if prop == "C10":
        import prof_text
        return lambda lib, R, out, prog, p, i, tier: prof_text.run(lib, R, out, prog, p, i)
    if prop == "C12":
        import prof_flow
        return lambda lib, R, out, prog, p, i, tier: prof_flow.run(lib, R, out, prog, p, i)
    if prop == "C11":
        import prof_ast
        return lambda lib, R, out, prog, p, i, tier: prof_ast.run(lib, R, out, prog, p, i)
    if prop == "C13":
        import prof_sched
        return lambda lib, R, out, prog, p, i, tier: prof_sched.run(lib, R, out, prog, p, i)
    if prop == "C14":
        import prof_tree
        return lambda lib, R, out, prog, p, i, tier: prof_tree.run(lib, R, out, prog, p, i)
    if prop in ("C15", "C16", "C17"):
        import prof_api
        return lambda lib, R, out, prog, p, i, tier: prof_api.run(lib, R, out, prog, p, i)
    if prop == "C08":
        import prof_poly
        return lambda lib, R, out, prog, p, i, tier: prof_poly.run(lib, R, out, prog, p, i)
    if prop == "C09":
        import prof_clos
        return lambda lib, R, out, prog, p, i, tier: prof_clos.run(lib, R, out, prog, p, i)
    if prop == "C25":
        import prof_mat
        return lambda lib, R, out, prog, p, i, tier: prof_mat.run(lib, R, out, prog, p, i)
    if prop == "C19":
        import prof_cont
        return lambda lib, R, out, prog, p, i, tier: prof_cont.run(lib, R, out, prog, p, i)
    if prop == "C21":
        import prof_aexpr
        return lambda lib, R, out, prog, p, i, tier: prof_aexpr.run(lib, R, out, prog, p, i)
    if prop == "C23":
        import prof_vert
        return lambda lib, R, out, prog, p, i, tier: prof_vert.run(lib, R, out, prog, p, i)
    if prop == "C24" and part == "align":
        import gen, prof_rel, session
        gen.ALIGN, session.AS = True, prop
        return lambda lib, R, out, prog, p, i, tier: prof_rel.run(lib, R, out, prog, "C01", i, 40)
    if prop == "C24":
        import prof_space
        return lambda lib, R, out, prog, p, i, tier: prof_space.run(lib, R, out, prog, p, i)
    if prop == "C26":
        import prof_conf
        return lambda lib, R, out, prog, p, i, tier: prof_conf.run(lib, R, out, prog, p, part, i)
    raise SystemExit("no profile for %s" % prop)
