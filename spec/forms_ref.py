"""Reference meaning of the special forms: which parts are evaluated, in what order, under which condition, with which
variables bound, and what the form yields.  Only analysed, never run.  A bare name is one part of the form (element
numbers appended; every list has two elements); d("x") is a non-code field; anything() is any other value."""


def Cond(state, scope):
    if ifthens_0_predicate:
        ifthens_0_thenClause_0; ifthens_0_thenClause_1
    elif ifthens_1_predicate:
        ifthens_1_thenClause_0; ifthens_1_thenClause_1
    return None


def Cond__elseClause(state, scope):
    if ifthens_0_predicate:
        ifthens_0_thenClause_0
        return ifthens_0_thenClause_1
    if ifthens_1_predicate:
        ifthens_1_thenClause_0
        return ifthens_1_thenClause_1
    elseClause_0
    return elseClause_1


def If(state, scope):
    if predicate:
        thenClause_0; thenClause_1
    return None


def If__elseClause(state, scope):
    if predicate:
        thenClause_0
        return thenClause_1
    else:
        elseClause_0
        return elseClause_1


def Do(state, scope):
    body_0
    return body_1


def Let(state, scope):
    return scope.let({"k0": values_0, "k1": values_1})


def SetVar(state, scope):
    return scope.set({"k0": values_0, "k1": values_1})


def While(state, scope):
    while predicate:
        state.checkTime()
        body_0; body_1
    return None


def DoUntil(state, scope):
    while True:
        state.checkTime()
        body_0; body_1
        if predicate:
            return None


def For(state, scope):
    scope = DynamicScope(scope)
    scope.let({"k0": init_0, "k1": init_1})
    while predicate:
        state.checkTime()
        body_0; body_1
        scope.set({"k0": step_0, "k1": step_1})
    return None


def Foreach(state, scope):
    seq = array
    scope = DynamicScope(scope)
    for x in seq:
        state.checkTime()
        scope.let({d("name"): x})
        body_0; body_1
    return None


def Forkeyval(state, scope):
    m = map
    scope = DynamicScope(scope)
    for k, v in m.items():
        state.checkTime()
        scope.let({d("forkey"): k, d("forval"): v})
        body_0; body_1
    return None


def CastCase(state, scope):
    return closure(0)


def CastCase__called(state, scope):
    body_0
    return body_1


def CastBlock(state, scope):
    expr
    a, b = castCases_0, castCases_1
    scope = DynamicScope(scope)
    if anything():
        scope.let({anything(): anything()})
        return a[2](state, scope)
    if anything():
        scope.let({anything(): anything()})
        return b[2](state, scope)
    return None


def CastBlock__partial(state, scope):
    expr
    a, b = castCases_0, castCases_1
    scope = DynamicScope(scope)
    if anything():
        scope.let({anything(): anything()})
        a[2](state, scope)
    elif anything():
        scope.let({anything(): anything()})
        b[2](state, scope)
    return None


def IfNotNull(state, scope):
    a = exprs_0
    b = exprs_1
    if a is not None and b is not None:
        scope = DynamicScope(scope)
        scope.let(anything({"k0": a, "k1": b}))
        thenClause_0; thenClause_1
    return None


def IfNotNull__elseClause(state, scope):
    a = exprs_0
    b = exprs_1
    if a is not None and b is not None:
        scope = DynamicScope(scope)
        scope.let(anything({"k0": a, "k1": b}))
        thenClause_0
        return thenClause_1
    elseClause_0
    return elseClause_1


def Unpack(state, scope):
    bytes
    if anything():
        thenClause_0; thenClause_1
    return None


def Unpack__elseClause(state, scope):
    bytes
    if anything():
        thenClause_0
        return thenClause_1
    elseClause_0
    return elseClause_1


def Try(state, scope):
    try:
        exprs_0
        return exprs_1
    except (PFARuntimeException, PFAUserException):
        if anything():
            return None
        raise


def FcnDef__called(state, scope):
    body_0
    return body_1
