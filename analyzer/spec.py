"""The reference: PDDL 3.1 grammar elements as the crate documents them, with the value each part goes to.

A production is written once, here, as parser values of the same abstract domain the extraction uses
(absnom.py), so reference and extracted productions are compared in one representation.  Result values are
*views*: ('V', 'Type::Variant', (fields...)) for enums, ('W', 'Type', ((accessor, value), ...)) for structs.
"""
from absnom import P, some, NONE, OPT
from absstd import split_adt

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DIGIT = "0123456789"
NAMECH = "".join(sorted(ALPHA + DIGIT + "-_"))

# ---------------------------------------------------------------- structs: which accessor reports which part
STRUCTS = {
    "ActionDefinition": ["symbol", "parameters", "precondition", "effect"],
    "EqualityAtomicFormula": ["first", "second"],
    "PredicateAtomicFormula": ["predicate", "values"],
    "AtomicFormulaSkeleton": ["predicate", "variables"],
    "AtomicFunctionSkeleton": ["symbol", "variables"],
    "BasicFunctionTerm": ["symbol", "names"],
    "ForallCEffect": [".variables", ".effects"],
    "WhenCEffect": [".condition", ".effect"],
    "DurativeActionDefinition": ["symbol", "parameters", "duration", "condition", "effect"],
    "DerivedPredicate": ["predicate", "expression"],
    "Domain": ["name", "extends", "requirements", "types", "constants", "predicates", "functions", "constraints", "structure", ".timeless:Timeless"],
    "DomainConstraintsDef": ["value"],
    "FAssignDa": ["operation", "function", "function_expr"],
    "FComp": ["comparison", "first", "second"],
    "FunctionTerm": ["symbol", "terms"],
    "FunctionTyped": ["value_ref", "type_ref"],
    "FunctionTypedList": ["values"],
    "Functions": ["values"],
    "GoalDef": ["value"],
    "InitElements": ["values"],
    "LengthSpec": ["serial", "parallel"],
    "MetricSpec": ["optimization", "expression"],
    "Objects": ["values"],
    "Preference": ["name", "goal"],
    "PredicateDefinitions": ["values"],
    "Problem": ["name", "domain", "requirements", "objects", "init", "goals", "constraints", "metric_spec", "length_spec"],
    "ProblemConstraintsDef": ["value"],
    "StructureDefs": ["values"],
    "Timeless": ["values"],
    "Typed": ["value", "type_"],
    "TypedList": ["value"],
    "Types": ["values"],
    # one part, no accessor of their own (they dereference to it or iterate over it)
    "ActionSymbol": ["*"], "DurativeActionSymbol": ["*"], "FunctionSymbol": ["*"], "PreferenceName": ["*"], "Predicate": ["*"],
    "PrimitiveType": ["*"], "Variable": ["*"], "FunctionType": ["*"], "Constants": ["*"], "Effects": ["*"], "Requirements": ["*"],
    "PreconditionGoalDefinitions": ["*"], "PrefConGDs": ["*"], "Number": ["*"],
}


def strip_acc(a):
    return a.lstrip(".").split(":")[0]


def field_ix(F, fields, a):
    """positions of the field a part ".name" stands for; ".name:Type" is the only field of that type, whatever its name"""
    if ":" in a:
        ix = [i for i, f in enumerate(fields) if F.tys[f["ty"]]["k"] == "adt" and F.tys[f["ty"]]["def"].split("::")[-1] == a.split(":")[1]]
        return ix if len(ix) == 1 else []
    return [i for i, f in enumerate(fields) if f["name"] == a[1:]]


# ---------------------------------------------------------------- parser values
def lit(t):
    return ("P", "lit", (t, False))


def cls(chars, lo, hi):
    return ("P", "cls", (("in", "".join(sorted(set(chars)))), lo, hi))


def notcls(chars, lo, hi):
    return ("P", "cls", (("not", "".join(sorted(set(chars)))), lo, hi))


COMMENT = P("recognize", P("seq", (lit(";"), P("opt", notcls("\r\n", 1, None))), "tuple"), False)
L1 = P("value", ("T", ()), P("many", P("alt", (cls(" \t\r\n", 1, None), COMMENT)), 1, None, "count"))
L0 = P("value", ("T", ()), P("many", P("alt", (cls(" \t\r\n", 1, None), COMMENT)), 0, None, "count"))
BOUND = P("not", cls(NAMECH, 1, 1))


def seq(*ps):
    return P("seq", tuple(ps), "tuple")


def sel(i, *ps):
    return P("seq", tuple(ps), i)


def alt(*ps):
    return P("alt", tuple(ps))


def opt(p):
    return P("opt", p)


def kw(t):
    """keyword: the whole word"""
    return sel(0, lit(t), BOUND)


def l0(p):
    return sel(1, L0, p)


def l1(p):
    return sel(1, L1, p)


def list0(p):
    return l0(P("seplist", L1, p, 0))


def list1(p):
    return l0(P("seplist", L1, p, 1))


def many(p, lo=0):
    return P("many", p, lo, None, "list")


def V(name, *fields):
    return ("V", name, tuple(fields))


def S(name, /, **parts):
    return ("W", name, tuple((strip_acc(a), parts[strip_acc(a)]) for a in STRUCTS[name]))


def W(name, x):
    return ("W", name, (("*", x),))


def subst(t, env):
    if isinstance(t, str) and t[:1] == "$":
        return env[t[1:]]
    if callable(t):
        return t(env)
    if isinstance(t, tuple):
        return tuple(subst(x, env) for x in t)
    return t


def to(tmpl, *names):
    """map function: the tuple (or the single value) of results, named, put into a template"""

    def f(I, args, st):
        v = I.deref(args[0], st)
        vals = v[1] if len(names) > 1 else (args[0],)
        env = dict((n, I.freeze(x, st)) for n, x in zip(names, vals))
        return [("ret", subst(tmpl, env), st)]

    return ("PyF", f)


def mp(p, tmpl, *names):
    return P("map", p, to(tmpl, *names))


def parens(*items):
    """'(' items ')' : layout is optional just inside"""
    xs = [lit("(")]
    ix = []
    for n, it in items:
        if n:
            ix.append(len(xs))
        xs.append(it)
    xs += [L0, lit(")")]
    return P("seq", tuple(xs), tuple(ix) if len(ix) != 1 else ix[0])


def form(head, tmpl, *args):
    """(head arg ...): args are (label, parser); every argument is preceded by layout.  head None: first arg leads."""
    items = []
    names = []
    first = True
    if head is not None:
        items.append((None, l0(head)))
        first = False
    for n, p in args:
        if n and n[0] == "~":  # layout optional before this one
            n, first = n[1:], True
        names.append(n)
        items.append((n, p if p[1] == "opt" else l0(p) if first or any(p is x for x in NOGAP) else l1(p)))
        first = False
    body = parens(*items)
    real = [n for n in names if n]
    return mp(body, tmpl, *real)


NOGAP = []


def ng(p):
    """an argument that may be empty: no mandatory layout before it"""
    NOGAP.append(p)
    return p


# ---- typed lists
def parts_map(parts, f):
    out = []
    for p in parts:
        if p[0] == "e":
            out.append(("e", f(p[1])))
        else:
            out.append(("sp", p[1], tuple((c, parts_map(sub, f)) for c, sub in p[2])))
    return tuple(out)


def parts_flat(parts):
    out = []
    for p in parts:
        if p[0] == "e":
            out.extend(p[1][1])
        else:
            out.append(("sp", p[1], tuple((c, parts_flat(sub)) for c, sub in p[2])))
    return tuple(out)


OBJECT = V("Type::Exactly", W("PrimitiveType", ("Nm", ("S", "object"))))
NUMBER = V("Type::Exactly", W("PrimitiveType", ("Nm", ("S", "number"))))


def typed(inner, ty, item, default, whole):
    group = P("map", seq(list1(inner), l0(sel(2, lit("-"), L0, ty))), ("PyF", lambda I, a, st: [
        ("ret", ("L", parts_map(I.freeze(a[0], st)[1][0][1], lambda x: item(x, I.freeze(a[0], st)[1][1]))), st)]))

    def fin(I, a, st):
        v = I.freeze(a[0], st)
        g, r = v[1]
        return [("ret", whole(("L", parts_flat(g[1]) + parts_map(r[1], lambda x: item(x, default)))), st)]

    return P("map", seq(many(group), list0(inner)), ("PyF", fin))


def elem(fact):
    """builds the elements given nt(key) -> parser value"""
    nt = fact
    name, num, var, term = nt("Name"), nt("Number"), nt("Variable"), nt("Term")

    def tlist(inner):
        return ng(typed(inner, nt("Type"), lambda x, t: S("Typed", value=x, type_=t), OBJECT, lambda l: S("TypedList", value=l)))

    def ftlist(inner):
        return ng(typed(inner, nt("Type"), lambda x, t: S("FunctionTyped", value_ref=x, type_ref=W("FunctionType", t)),
                        NUMBER, lambda l: S("FunctionTypedList", values=l)))

    def l0s(p):
        r = P("seplist", L1, p, 0)
        NOGAP.append(r)
        return r

    def l1s(p):
        return P("seplist", L1, p, 1)

    def atomic(t):
        return alt(
            form(lit("="), V("AtomicFormula::Equality", S("EqualityAtomicFormula", first="$a", second="$b")), ("~a", t), ("~b", t)),
            form(None, V("AtomicFormula::Predicate", S("PredicateAtomicFormula", predicate=W("Predicate", "$p"), values="$v")), ("p", name), ("v", l0s(t))),
        )

    def literal(t):
        return alt(
            form(kw("not"), V("Literal::NotAtomicFormula", "$a"), ("a", atomic(t))),
            mp(atomic(t), V("Literal::AtomicFormula", "$a"), "a"),
        )

    vars_ = parens(("v", l0(tlist(var))))

    def optional(p):
        return opt(p)

    def pref_name_opt(then):
        """[name layout] part"""
        return opt(sel(0, name, L1)), then

    gd, pgd, con, con2 = nt("GoalDefinition"), nt("PreconditionGoalDefinitions"), nt("ConGD"), None
    G = {}

    # ------------------------------------------------------------ tokens
    def word(*tables):
        return alt(*[mp(lit(t), V(v), "_") for t, v in tables])

    G["AssignOp"] = word(("assign", "AssignOp::Assign"), ("change", "AssignOp::Assign"), ("scale-up", "AssignOp::ScaleUp"), ("scale-down", "AssignOp::ScaleDown"), ("increase", "AssignOp::Increase"), ("decrease", "AssignOp::Decrease"))
    G["AssignOpT"] = word(("increase", "AssignOpT::Increase"), ("decrease", "AssignOpT::Decrease"))
    G["BinaryComp"] = word((">=", "BinaryComp::GreaterOrEqual"), ("<=", "BinaryComp::LessThanOrEqual"), (">", "BinaryComp::GreaterThan"), ("<", "BinaryComp::LessThan"), ("=", "BinaryComp::Equal"))
    G["BinaryOp"] = word(("*", "BinaryOp::Multiplication"), ("+", "BinaryOp::Addition"), ("-", "BinaryOp::Subtraction"), ("/", "BinaryOp::Division"))
    G["DOp"] = word((">=", "DOp::GreaterOrEqual"), ("<=", "DOp::LessThanOrEqual"), ("=", "DOp::Equal"))
    G["Interval"] = word(("all", "Interval::All"))
    G["MultiOp"] = word(("*", "MultiOp::Multiplication"), ("+", "MultiOp::Addition"))
    G["Optimization"] = word(("minimize", "Optimization::Minimize"), ("maximize", "Optimization::Maximize"))
    G["TimeSpecifier"] = word(("start", "TimeSpecifier::Start"), ("end", "TimeSpecifier::End"))
    G["Requirement"] = word(*[(":" + k, "Requirement::" + v) for k, v in REQUIREMENTS])
    G["Name"] = P("map", P("recognize", seq(cls(ALPHA, 1, 1), cls(NAMECH, 0, None)), False), to(("Nm", "$t"), "t"))
    G["Variable"] = mp(sel(1, lit("?"), name), W("Variable", "$n"), "n")
    G["Number"] = P("map", P("recognize", seq(cls(DIGIT, 1, None), opt(seq(lit("."), cls(DIGIT, 1, None)))), False), to(W("Number", ("Num", "$t")), "t"))
    for k in ("ActionSymbol", "DurativeActionSymbol", "FunctionSymbol", "PreferenceName", "PrimitiveType", "Predicate"):
        G[k] = mp(name, W(k, "$n"), "n")
    prim = mp(name, W("PrimitiveType", "$n"), "n")
    G["Type"] = alt(mp(prim, V("Type::Exactly", "$n"), "n"), form(kw("either"), V("Type::EitherOf", "$ns"), ("ns", l1s(prim))))
    G["FunctionType"] = mp(nt("Type"), W("FunctionType", "$t"), "t")
    u64 = P("float", "u64")

    # ------------------------------------------------------------ terms, formulas
    fsym = mp(name, W("FunctionSymbol", "$n"), "n")
    pname = mp(name, W("PreferenceName", "$n"), "n")
    G["FunctionTerm"] = form(None, S("FunctionTerm", symbol="$s", terms="$t"), ("s", fsym), ("t", l0s(term)))
    G["Term"] = alt(mp(var, V("Term::Variable", "$x"), "x"), mp(name, V("Term::Name", "$x"), "x"), mp(nt("FunctionTerm"), V("Term::Function", "$x"), "x"))
    G["BasicFunctionTerm"] = alt(
        mp(fsym, S("BasicFunctionTerm", symbol="$s", names=("L", ())), "s"),
        form(None, S("BasicFunctionTerm", symbol="$s", names="$n"), ("s", fsym), ("n", l0s(name))))
    G["AtomicFormulaSkeleton"] = form(None, S("AtomicFormulaSkeleton", predicate=W("Predicate", "$p"), variables="$v"), ("p", name), ("v", tlist(var)))
    G["AtomicFunctionSkeleton"] = form(None, S("AtomicFunctionSkeleton", symbol="$s", variables="$v"), ("s", fsym), ("v", tlist(var)))
    G["FHead"] = alt(
        mp(fsym, V("FHead::Simple", "$s"), "s"),
        form(None, V("FHead::Simple", "$s"), ("s", fsym)),
        form(None, V("FHead::WithTerms", "$s", "$t"), ("s", fsym), ("t", P("seplist", L1, term, 0))))

    # ------------------------------------------------------------ numeric expressions
    def operation(key, ty):
        e = nt(key)
        body = parens(("op", l0(nt("BinaryOp"))), ("a", l0(e)), ("r", opt(seq(l1(e), opt(l1(list1(e)))))))

        def f(I, a, st):
            v = I.deref(a[0], st)
            op, lhs, rest = v[1]
            out = []
            r = I.deref(rest, st)
            if r[2] == 1:
                rhs, more = I.deref(r[3][0], st)[1]
                more = I.deref(more, st)
                if more[2] == 0:
                    return [("ret", some(V(ty + "::BinaryOp", op, lhs, rhs)), st)]
            for o, s in split_adt(I, op, st):
                opn = I.F.adts[o[1]]["variants"][o[2]]["name"]
                if r[2] == 0:
                    res = some(V(ty + "::Negative", lhs)) if opn == "Subtraction" else NONE
                elif opn in ("Multiplication", "Addition"):
                    res = some(V(ty + "::MultiOp", V("MultiOp::" + opn), lhs, ("L", (("e", rhs),) + I.deref(more[3][0], s)[1])))
                else:
                    res = NONE
                out.append(("ret", res, s))
            return out

        return P("map_opt", body, ("PyF", f), 1)

    G["FExp"] = alt(mp(num, V("FExp::Number", "$n"), "n"), operation("FExp", "FExp"), mp(nt("FHead"), V("FExp::Function", "$h"), "h"))
    G["FExpDa"] = alt(mp(kw("?duration"), V("FExpDa::Duration"), "_"), operation("FExpDa", "FExpDa"), mp(nt("FExp"), V("FExpDa::FExp", "$e"), "e"))
    G["MetricFExp"] = alt(
        mp(num, V("MetricFExp::Number", "$n"), "n"), operation("MetricFExp", "MetricFExp"),
        mp(kw("total-time"), V("MetricFExp::TotalTime"), "_"),
        form(kw("is-violated"), V("MetricFExp::IsViolated", "$p"), ("p", pname)),
        form(None, V("MetricFExp::Function", "$s", "$n"), ("s", fsym), ("n", l0s(name))),
        mp(fsym, V("MetricFExp::Function", "$s", ("L", ())), "s"))
    fe = nt("FExp")
    G["FExpT"] = alt(
        form(lit("*"), V("FExpT::Scaled", "$e"), ("e", alt(sel(2, lit("#t"), L1, fe), sel(0, fe, L1, kw("#t"))))),
        mp(kw("#t"), V("FExpT::Now"), "_"))
    G["FComp"] = form(None, S("FComp", comparison="$c", first="$a", second="$b"), ("c", nt("BinaryComp")), ("a", fe), ("b", fe))
    G["FAssignDa"] = form(None, S("FAssignDa", operation="$o", function="$f", function_expr="$e"), ("o", nt("AssignOp")), ("f", nt("FHead")), ("e", nt("FExpDa")))

    # ------------------------------------------------------------ goals
    G["GoalDefinition"] = alt(
        form(kw("and"), V("GoalDefinition::And", "$g"), ("g", l0s(gd))),
        form(kw("or"), V("GoalDefinition::Or", "$g"), ("g", l0s(gd))),
        form(kw("not"), V("GoalDefinition::Not", "$g"), ("g", gd)),
        form(kw("imply"), V("GoalDefinition::Imply", "$a", "$b"), ("a", gd), ("b", gd)),
        form(kw("exists"), V("GoalDefinition::Exists", "$v", "$g"), ("v", vars_), ("g", gd)),
        form(kw("forall"), V("GoalDefinition::ForAll", "$v", "$g"), ("v", vars_), ("g", gd)),
        mp(atomic(term), V("GoalDefinition::AtomicFormula", "$a"), "a"),
        mp(literal(term), V("GoalDefinition::Literal", "$a"), "a"),
        mp(nt("FComp"), V("GoalDefinition::FComp", "$c"), "c"))
    G["PreferenceGD"] = alt(
        form(kw("preference"), V("PreferenceGD::Preference", S("Preference", name=some("$n"), goal="$g")), ("n", pname), ("g", gd)),
        form(kw("preference"), V("PreferenceGD::Preference", S("Preference", name=NONE, goal="$g")), ("g", gd)),
        mp(gd, V("PreferenceGD::Goal", "$g"), "g"))

    def elems(label, ty):
        """concatenation of the element lists of each nested occurrence"""
        def f(env):
            def fl(parts):
                out = []
                for p in parts:
                    if p[0] == "e":
                        k = ("part", p[1][1], ty, "*")
                        out.append(("sp", k, ((frozenset(), (("e", ("Sym", ("elt", k), None)),)),)))
                    else:
                        out.append(("sp", p[1], tuple((c, fl(sub)) for c, sub in p[2])))
                return tuple(out)
            return ("L", fl(env[label][1]))
        return f

    G["PreconditionGoalDefinitions"] = alt(
        form(kw("forall"), W("PreconditionGoalDefinitions", ("L", (("e", V("PreconditionGoalDefinition::Forall", "$v", "$g")),))), ("v", vars_), ("g", pgd)),
        form(kw("and"), W("PreconditionGoalDefinitions", elems("g", "PreconditionGoalDefinitions")), ("g", l0s(pgd))),
        mp(nt("PreferenceGD"), W("PreconditionGoalDefinitions", ("L", (("e", V("PreconditionGoalDefinition::Preference", "$g")),))), "g"))
    G["Con2GD"] = c2 = alt(mp(con, V("Con2GD::Nested", "$g"), "g"), mp(gd, V("Con2GD::Goal", "$g"), "g"))
    G["ConGD"] = alt(
        form(kw("and"), V("ConGD::And", "$g"), ("g", l0s(con))),
        form(kw("forall"), V("ConGD::Forall", "$v", "$g"), ("v", vars_), ("g", con)),
        form(kw("at"), V("ConGD::AtEnd", "$g"), (None, kw("end")), ("g", gd)),
        form(kw("always"), V("ConGD::Always", "$g"), ("g", c2)),
        form(kw("sometime"), V("ConGD::Sometime", "$g"), ("g", c2)),
        form(kw("within"), V("ConGD::Within", "$n", "$g"), ("n", num), ("g", c2)),
        form(kw("at-most-once"), V("ConGD::AtMostOnce", "$g"), ("g", c2)),
        form(kw("sometime-after"), V("ConGD::SometimeAfter", "$a", "$b"), ("a", c2), ("b", c2)),
        form(kw("sometime-before"), V("ConGD::SometimeBefore", "$a", "$b"), ("a", c2), ("b", c2)),
        form(kw("always-within"), V("ConGD::AlwaysWithin", "$n", "$a", "$b"), ("n", num), ("a", c2), ("b", c2)),
        form(kw("hold-during"), V("ConGD::HoldDuring", "$m", "$n", "$g"), ("m", num), ("n", num), ("g", c2)),
        form(kw("hold-after"), V("ConGD::HoldAfter", "$n", "$g"), ("n", num), ("g", c2)))
    pcon = nt("PrefConGDs")
    G["PrefConGDs"] = alt(
        form(kw("and"), W("PrefConGDs", elems("g", "PrefConGDs")), ("g", l0s(pcon))),
        form(kw("forall"), W("PrefConGDs", ("L", (("e", V("PrefConGD::Forall", "$v", "$g")),))), ("v", vars_), ("g", pcon)),
        form(kw("preference"), W("PrefConGDs", ("L", (("e", V("PrefConGD::Preference", some("$n"), "$g")),))), ("n", pname), ("g", con)),
        form(kw("preference"), W("PrefConGDs", ("L", (("e", V("PrefConGD::Preference", NONE, "$g")),))), ("g", con)),
        mp(con, W("PrefConGDs", ("L", (("e", V("PrefConGD::Goal", "$g")),))), "g"))
    G["TimedGD"] = alt(
        form(kw("at"), V("TimedGD::At", "$t", "$g"), ("t", nt("TimeSpecifier")), ("g", gd)),
        form(kw("over"), V("TimedGD::Over", "$i", "$g"), ("i", nt("Interval")), ("g", gd)))
    tgd = nt("TimedGD")
    G["PrefTimedGD"] = alt(
        form(kw("preference"), V("PrefTimedGD::Preference", "$n", "$g"), ("n", opt(l1(pname))), ("g", tgd)),
        mp(tgd, V("PrefTimedGD::Required", "$g"), "g"))
    dgd = nt("DurativeActionGoalDefinition")
    G["DurativeActionGoalDefinition"] = alt(
        form(kw("forall"), V("DurativeActionGoalDefinition::Forall", "$v", "$g"), ("v", vars_), ("g", dgd)),
        form(kw("and"), V("DurativeActionGoalDefinition::And", "$g"), ("g", l0s(dgd))),
        mp(nt("PrefTimedGD"), V("DurativeActionGoalDefinition::Timed", "$g"), "g"))

    # ------------------------------------------------------------ effects
    op, fh = nt("AssignOp"), nt("FHead")
    ft = nt("FunctionTerm")
    at_ = atomic(term)
    G["PEffect"] = alt(
        form(kw("not"), V("PEffect::NotAtomicFormula", "$a"), ("a", at_)),
        form(kw("assign"), V("PEffect::AssignObjectFluent", "$f", NONE), ("f", ft), (None, kw("undefined"))),
        form(kw("assign"), V("PEffect::AssignObjectFluent", "$f", some("$t")), ("f", ft), ("t", term)),
        form(None, V("PEffect::AssignNumericFluent", "$o", "$f", "$e"), ("o", op), ("f", fh), ("e", fe)),
        mp(at_, V("PEffect::AtomicFormula", "$a"), "a"))
    pe = nt("PEffect")
    G["ConditionalEffect"] = alt(
        form(kw("and"), V("ConditionalEffect::All", "$e"), ("e", l0s(pe))),
        mp(pe, V("ConditionalEffect::Single", "$e"), "e"))
    ce, effs = nt("CEffect"), nt("Effects")
    G["ForallCEffect"] = form(kw("forall"), S("ForallCEffect", variables="$v", effects="$e"), ("v", vars_), ("e", effs))
    G["WhenCEffect"] = form(kw("when"), S("WhenCEffect", condition="$g", effect="$e"), ("g", gd), ("e", nt("ConditionalEffect")))
    G["CEffect"] = alt(
        mp(nt("ForallCEffect"), V("CEffect::Forall", "$e"), "e"),
        mp(nt("WhenCEffect"), V("CEffect::When", "$e"), "e"),
        mp(pe, V("CEffect::Effect", "$e"), "e"))
    G["Effects"] = alt(
        form(kw("and"), W("Effects", "$e"), ("e", l0s(ce))),
        mp(ce, W("Effects", ("L", (("e", "$e"),))), "e"))
    ts = nt("TimeSpecifier")
    G["TimedEffect"] = alt(
        form(kw("at"), V("TimedEffect::NumericFluent", "$t", "$f"), ("t", ts), ("f", nt("FAssignDa"))),
        form(kw("at"), V("TimedEffect::Conditional", "$t", "$e"), ("t", ts), ("e", nt("ConditionalEffect"))),
        form(None, V("TimedEffect::ContinuousEffect", "$o", "$f", "$e"), ("o", nt("AssignOpT")), ("f", fh), ("e", nt("FExpT"))))
    de, te = nt("DurativeActionEffect"), nt("TimedEffect")
    G["DurativeActionEffect"] = alt(
        form(kw("and"), V("DurativeActionEffect::All", "$e"), ("e", l0s(de))),
        form(kw("forall"), V("DurativeActionEffect::Forall", "$v", "$e"), ("v", vars_), ("e", de)),
        form(kw("when"), V("DurativeActionEffect::When", "$g", "$e"), ("g", dgd), ("e", te)),
        mp(te, V("DurativeActionEffect::Timed", "$e"), "e"))

    # ------------------------------------------------------------ durations
    sdc = nt("SimpleDurationConstraint")
    G["DurationValue"] = alt(mp(num, V("DurationValue::Number", "$n"), "n"), mp(fe, V("DurationValue::FExp", "$e"), "e"))
    G["SimpleDurationConstraint"] = alt(
        form(None, V("SimpleDurationConstraint::Op", "$o", "$v"), ("o", nt("DOp")), (None, lit("?duration")), ("v", nt("DurationValue"))),
        form(kw("at"), V("SimpleDurationConstraint::At", "$t", "$c"), ("t", ts), ("c", sdc)))
    G["Option<DurationConstraint>"] = alt(
        mp(parens(), NONE, "_"),
        mp(sdc, some(V("DurationConstraint::Single", "$c")), "c"),
        form(kw("and"), some(V("DurationConstraint::All", "$c")), ("c", l1s(sdc))))

    # ------------------------------------------------------------ structures
    def part(k, p):
        return l0(sel(2, lit(k), L1, p))

    def empty_or(p):
        return alt(mp(parens(), NONE, "_"), mp(p, some("$x"), "x"))

    def some_or_none(x):
        def f(env):
            v = env[x]
            return NONE if v[2] == 0 else v[3][0]
        return f

    def goals_or_empty(x):
        def f(env):
            v = env[x]
            if v[2] == 0 or v[3][0][2] == 0:
                return W("PreconditionGoalDefinitions", ("L", ()))
            return v[3][0][3][0]
        return f

    G["ActionDefinition"] = form(kw(":action"), S("ActionDefinition", symbol=W("ActionSymbol", "$s"), parameters="$v", precondition=goals_or_empty("p"), effect=some_or_none("e")),
                                 ("s", name), ("v", sel(2, lit(":parameters"), L1, vars_)), ("p", opt(part(":precondition", empty_or(pgd)))), ("e", opt(part(":effect", empty_or(effs)))))
    G["DurativeActionDefinition"] = form(
        kw(":durative-action"), S("DurativeActionDefinition", symbol=W("DurativeActionSymbol", "$s"), parameters="$v", duration="$d", condition="$c", effect="$e"),
        ("s", name), ("v", sel(2, lit(":parameters"), L1, vars_)), ("d", sel(2, lit(":duration"), L1, nt("Option<DurationConstraint>"))),
        ("c", sel(2, lit(":condition"), L1, empty_or(dgd))), ("e", sel(2, lit(":effect"), L1, empty_or(de))))
    G["DerivedPredicate"] = form(kw(":derived"), S("DerivedPredicate", predicate="$p", expression="$g"), ("p", nt("AtomicFormulaSkeleton")), ("g", gd))
    G["StructureDef"] = alt(
        mp(nt("DerivedPredicate"), V("StructureDef::Derived", "$d"), "d"),
        mp(nt("ActionDefinition"), V("StructureDef::Action", "$d"), "d"),
        mp(nt("DurativeActionDefinition"), V("StructureDef::DurativeAction", "$d"), "d"))

    # ------------------------------------------------------------ sections
    G["Requirements"] = form(kw(":requirements"), W("Requirements", "$r"), ("r", l1s(nt("Requirement"))))
    G["Types"] = form(kw(":types"), S("Types", values="$l"), ("l", tlist(name)))
    G["Constants"] = form(kw(":constants"), W("Constants", "$l"), ("l", tlist(name)))
    G["Objects"] = form(kw(":objects"), S("Objects", values="$l"), ("l", tlist(name)))
    G["PredicateDefinitions"] = form(kw(":predicates"), S("PredicateDefinitions", values="$l"), ("l", l1s(nt("AtomicFormulaSkeleton"))))
    G["Functions"] = form(kw(":functions"), S("Functions", values="$l"), ("l", ftlist(nt("AtomicFunctionSkeleton"))))
    G["DomainConstraintsDef"] = form(kw(":constraints"), S("DomainConstraintsDef", value="$g"), ("g", con))
    G["ProblemConstraintsDef"] = form(kw(":constraints"), S("ProblemConstraintsDef", value="$g"), ("g", pcon))
    lname = literal(name)
    G["Timeless"] = form(kw(":timeless"), S("Timeless", values="$l"), ("l", l1s(lname)))
    G["GoalDef"] = form(kw(":goal"), S("GoalDef", value="$g"), ("g", pgd))
    bft = nt("BasicFunctionTerm")
    G["InitElement"] = alt(
        mp(lname, V("InitElement::Literal", "$l"), "l"),
        form(kw("at"), V("InitElement::At", "$n", "$l"), ("n", num), ("l", lname)),
        form(kw("="), V("InitElement::IsValue", "$f", "$n"), ("f", bft), ("n", num)),
        form(kw("="), V("InitElement::IsObject", "$f", "$n"), ("f", bft), ("n", name)))
    G["InitElements"] = form(kw(":init"), S("InitElements", values="$l"), ("l", l0s(nt("InitElement"))))
    G["MetricSpec"] = form(kw(":metric"), S("MetricSpec", optimization="$o", expression="$e"), ("o", nt("Optimization")), ("e", nt("MetricFExp")))
    G["LengthSpec"] = form(kw(":length"), S("LengthSpec", serial="$s", parallel="$p"),
                           ("s", opt(l0(form(kw(":serial"), "$n", ("n", u64))))), ("p", opt(l0(form(kw(":parallel"), "$n", ("n", u64))))))

    # ------------------------------------------------------------ whole texts
    def default(x, dv, part=None):
        def f(env):
            v = env[x]
            if v[2] == 0:
                return dv
            v = v[3][0]
            return ("Sym", ("part", v[1]) + part, None) if part else v
        return f

    def inner(x, ty):
        return lambda env: ("Sym", ("part", env[x][1], ty, "value"), None)

    empty = ("L", ())
    et = S("TypedList", value=empty)

    def sect(k):
        return opt(l0(nt(k)))

    sds = P("map", l1(l1s(nt("StructureDef"))), to(S("StructureDefs", values="$l"), "l"))
    G["Domain"] = sel(1, L0, form(
        kw("define"),
        S("Domain", name="$n", extends=default("x", empty), requirements=default("r", W("Requirements", empty)), types=default("t", S("Types", values=et)),
          constants=default("k", W("Constants", et)), predicates=default("p", S("PredicateDefinitions", values=empty)),
          functions=default("f", S("Functions", values=S("FunctionTypedList", values=empty))),
          constraints=default("c", V("ConGD::And", empty), ("DomainConstraintsDef", "value")), structure=default("s", S("StructureDefs", values=empty)), timeless=S("Timeless", values=empty)),
        ("n", form(kw("domain"), "$n", ("n", name))), ("x", opt(l0(form(kw(":extends"), "$l", ("l", l1s(name)))))), ("r", sect("Requirements")), ("t", sect("Types")),
        ("k", sect("Constants")), ("p", sect("PredicateDefinitions")), ("f", sect("Functions")), ("c", sect("DomainConstraintsDef")), ("s", opt(sds))), L0)
    G["Problem"] = sel(1, L0, form(
        kw("define"),
        S("Problem", name="$n", domain="$d", requirements=default("r", W("Requirements", empty)), objects=default("o", S("Objects", values=et)), init="$i", goals=inner("g", "GoalDef"),
          constraints=default("c", W("PrefConGDs", empty), ("ProblemConstraintsDef", "value")), metric_spec="$m", length_spec="$l"),
        ("n", form(kw("problem"), "$n", ("n", name))), ("d", form(kw(":domain"), "$n", ("n", name))), ("r", sect("Requirements")), ("o", sect("Objects")),
        ("i", nt("InitElements")), ("g", nt("GoalDef")), ("c", sect("ProblemConstraintsDef")), ("m", sect("MetricSpec")), ("l", sect("LengthSpec"))), L0)

    # ------------------------------------------------------------ parser combinators (inner parser arbitrary)
    par = ("P", "nt", ("param", ("inner", 0)), None)
    C = {
        "typed_list": tlist(par), "function_typed_list": ftlist(par), "atomic_formula": atomic(par), "literal": literal(par),
    }
    return G, C


REQUIREMENTS = [
    ("strips", "Strips"), ("typing", "Typing"), ("negative-preconditions", "NegativePreconditions"), ("disjunctive-preconditions", "DisjunctivePreconditions"),
    ("equality", "Equality"), ("existential-preconditions", "ExistentialPreconditions"), ("universal-preconditions", "UniversalPreconditions"),
    ("quantified-preconditions", "QuantifiedPreconditions"), ("conditional-effects", "ConditionalEffects"), ("fluents", "Fluents"),
    ("numeric-fluents", "NumericFluents"), ("object-fluents", "ObjectFluents"), ("adl", "Adl"), ("durative-actions", "DurativeActions"),
    ("duration-inequalities", "DurationInequalities"), ("continuous-effects", "ContinuousEffects"), ("derived-predicates", "DerivedPredicates"),
    ("timed-initial-literals", "TimedInitialLiterals"), ("preferences", "Preferences"), ("constraints", "Constraints"), ("action-costs", "ActionCosts"),
]
