From 66e7b9303dd4a86316d4efddb52d865b38f50dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 01/56] fix: model.reg.updateChi2 modified its state argument
 in place

---
 titus/lib/model/reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..ab64cae 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -498,6 +498,7 @@ class UpdateChi2(LibFcn):
             return update(sum([y**2 for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
+    state_ = dict(state_)
     state_["chi2"] = float(state_["chi2"] + x)
     state_["DOF"]  = float(state_["DOF"] + 1)
     return state_
-- 
2.43.0


From 97f1c48195dae925e916b5ec862d66a507502b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 02/56] fix: pass error code and function name to the
 distribution classes in the declared order

---
 titus/lib/model/reg.py |  2 +-
 titus/lib/prob/dist.py | 40 ++++++++++++++++++++--------------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index ab64cae..9b3b624 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -516,7 +516,7 @@ class Chi2Prob(LibFcn):
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.chi2Prob instead"))
     errcodeBase = 31070
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(Chi2Distribution(state_["DOF"], self.name, self.errcodeBase, pos).CDF(state_["chi2"]))
+        return float(Chi2Distribution(state_["DOF"], self.errcodeBase, self.name, pos).CDF(state_["chi2"]))
 provide(Chi2Prob())
 
 
diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 6dd22e6..53ea168 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -874,7 +874,7 @@ provide(NegativeBinomialQF())
 
 ################### Gaussian
 class GaussianDistribution(object):
-    def __init__(self, mu, sigma, name, errcodeBase, pos):
+    def __init__(self, mu, sigma, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -932,7 +932,7 @@ class GaussianDistribution(object):
 
 ################### Exponential
 class ExponentialDistribution(object):
-    def __init__(self, rate, name, errcodeBase, pos):
+    def __init__(self, rate, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -975,7 +975,7 @@ class ExponentialDistribution(object):
 ################### Chi2
 # from: http://www.stat.tamu.edu/~jnewton/604/chap3.pdf
 class Chi2Distribution(object):
-    def __init__(self, DOF, name, errcodeBase, pos):
+    def __init__(self, DOF, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -995,7 +995,7 @@ class Chi2Distribution(object):
         elif (x < 0.0):
             return 0.0
         else:
-            return GammaDistribution(self.DOF/2.0, 2.0, self.name, self.errcodeBase, self.pos).PDF(x)
+            return GammaDistribution(self.DOF/2.0, 2.0, self.errcodeBase, self.name, self.pos).PDF(x)
 
     def CDF(self,x):
         if math.isnan(x):
@@ -1007,7 +1007,7 @@ class Chi2Distribution(object):
         elif (x <= 0.0):
             return 0.0
         else:
-            return GammaDistribution(self.DOF/2.0, 2.0, self.name, self.errcodeBase, self.pos).CDF(x)
+            return GammaDistribution(self.DOF/2.0, 2.0, self.errcodeBase, self.name, self.pos).CDF(x)
 
     def QF(self,p):
         if (p > 1.0) or (p < 0.0):
@@ -1019,11 +1019,11 @@ class Chi2Distribution(object):
         elif (p == 0.0):
             return 0.0
         else:
-            return GammaDistribution(self.DOF/2.0, 2.0, self.name, self.errcodeBase, self.pos).QF(p)
+            return GammaDistribution(self.DOF/2.0, 2.0, self.errcodeBase, self.name, self.pos).QF(p)
 
 ################### Poisson
 class PoissonDistribution(object):
-    def __init__(self, lamda, name, errcodeBase, pos):
+    def __init__(self, lamda, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1077,7 +1077,7 @@ class PoissonDistribution(object):
 
 ################### Gamma
 class GammaDistribution(object):
-    def __init__(self, shape, scale, name, errcodeBase, pos):
+    def __init__(self, shape, scale, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1148,7 +1148,7 @@ class GammaDistribution(object):
 
 ################### Beta
 class BetaDistribution(object):
-    def __init__(self, alpha, beta, name, errcodeBase, pos):
+    def __init__(self, alpha, beta, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1202,7 +1202,7 @@ class BetaDistribution(object):
 
 ################### Cauchy
 class CauchyDistribution(object):
-    def __init__(self, location, scale, name, errcodeBase, pos):
+    def __init__(self, location, scale, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1232,7 +1232,7 @@ class CauchyDistribution(object):
 ################### F
 # from: http://www.stat.tamu.edu/~jnewton/604/chap3.pdf
 class FDistribution(object):
-    def __init__(self, upperDOF, lowerDOF, name, errcodeBase, pos):
+    def __init__(self, upperDOF, lowerDOF, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1292,7 +1292,7 @@ class FDistribution(object):
 
 ################### Lognormal
 class LognormalDistribution(object):
-    def __init__(self, meanlog, sdlog, name, errcodeBase, pos):
+    def __init__(self, meanlog, sdlog, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1315,7 +1315,7 @@ class LognormalDistribution(object):
         if x <= 0.0:
             return 0.0
         else:
-            return GaussianDistribution(0.0, 1.0, self.name, self.errcodeBase, self.pos).CDF((math.log(x) - self.mu)/self.sigma)
+            return GaussianDistribution(0.0, 1.0, self.errcodeBase, self.name, self.pos).CDF((math.log(x) - self.mu)/self.sigma)
 
     def QF(self, p):
         if math.isnan(p):
@@ -1359,7 +1359,7 @@ class LognormalDistribution(object):
 
 ################### Student's T
 class TDistribution(object):
-    def __init__(self, DOF, name, errcodeBase, pos):
+    def __init__(self, DOF, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1429,7 +1429,7 @@ class TDistribution(object):
 
 ################### Binomial
 class BinomialDistribution(object):
-    def __init__(self, size, p_success, name, errcodeBase, pos):
+    def __init__(self, size, p_success, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1486,7 +1486,7 @@ class BinomialDistribution(object):
 
 ################### Uniform
 class UniformDistribution(object):
-    def __init__(self, minimum, maximum, name, errcodeBase, pos):
+    def __init__(self, minimum, maximum, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1523,7 +1523,7 @@ class UniformDistribution(object):
 
 ################### Geometric
 class GeometricDistribution(object):
-    def __init__(self, p_success, name, errcodeBase, pos):
+    def __init__(self, p_success, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1561,7 +1561,7 @@ class GeometricDistribution(object):
 
 ################### Hypergeometric
 class HypergeometricDistribution(object):
-    def __init__(self, n_white, n_black, n_drawn, name, errcodeBase, pos):
+    def __init__(self, n_white, n_black, n_drawn, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1623,7 +1623,7 @@ class HypergeometricDistribution(object):
 
 ################### Weibull
 class WeibullDistribution(object):
-    def __init__(self, shape, scale, name, errcodeBase, pos):
+    def __init__(self, shape, scale, errcodeBase, name, pos):
         self.name = name
         self.errcodeBase = errcodeBase
         self.pos = pos
@@ -1736,7 +1736,7 @@ class NegativeBinomialDistribution(object):
             mu = self.n * (1.0 - self.prob)/self.prob
             sigma = math.sqrt(self.n * P * Q)
             gamma = (Q + P)/sigma
-            z = GaussianDistribution(0.0, 1.0, self.name, self.errcodeBase, self.pos).QF(p)
+            z = GaussianDistribution(0.0, 1.0, self.errcodeBase, self.name, self.pos).QF(p)
 
             # CF approximation gets us close
             w = math.ceil(mu + sigma * (z + gamma * (z*z - 1.0)/6.0))
-- 
2.43.0


From a22a260a14a67b3dee80aca8995319a9633864cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 03/56] fix: EngineConfig.collect and replace skipped the merge
 expressions

---
 titus/pfaast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..42f70d9 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -845,6 +845,7 @@ class EngineConfig(Ast):
                titus.util.flatten(x.collect(pf) for x in self.action) + \
                titus.util.flatten(x.collect(pf) for x in self.end) + \
                titus.util.flatten(x.collect(pf) for x in list(self.fcns.values())) + \
+               (titus.util.flatten(x.collect(pf) for x in self.merge) if self.merge is not None else []) + \
                titus.util.flatten(x.collect(pf) for x in list(self.cells.values())) + \
                titus.util.flatten(x.collect(pf) for x in list(self.pools.values()))
 
@@ -870,7 +871,7 @@ class EngineConfig(Ast):
                                 [x.replace(pf) for x in self.end],
                                 dict((k, v.replace(pf)) for k, v in list(self.fcns.items())),
                                 self.zero,
-                                self.merge,
+                                [x.replace(pf) for x in self.merge] if self.merge is not None else None,
                                 dict((k, v.replace(pf)) for k, v in list(self.cells.items())),
                                 dict((k, v.replace(pf)) for k, v in list(self.pools.items())),
                                 self.randseed,
-- 
2.43.0


From 999b07a2a16c1fd3bd38ecc6c3b715c5e9153297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 04/56] fix: calls of an attribute base, pool initializer and
 call selector expression were left out of the call graph

---
 titus/pfaast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 42f70d9..b277672 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1841,6 +1841,7 @@ class CallUserFcn(Expression):
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
         calls = set("u." + x for x in fcnNames)
+        calls = calls.union(nameContext.calls)
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3262,6 +3263,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
         context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
@@ -3374,6 +3376,7 @@ class AttrTo(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         setType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
@@ -3851,6 +3854,7 @@ class PoolTo(Expression, HasPath):
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
         initContext, initResult = self.init.walk(task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(initContext.calls)
 
         if not poolType.accepts(initContext.retType):
             raise PFASemanticException("pool has type {0} but attempting to init with type {1}".format(ts(poolType), ts(initContext.retType)), self.pos)
-- 
2.43.0


From 351c622b76df217b6d09f434d9ec1024c4310196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 05/56] fix: try does not swallow timeouts, and its filter
 tolerates exceptions without message and code

---
 titus/genpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..5401e66 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1293,8 +1293,10 @@ def tryCatch(state, scope, exprs, filter):
     """
     try:
         return exprs(state, scope)
+    except PFATimeoutException:
+        raise
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", None) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From 0e84ef86b7808b362291b6402d457d8a115295b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 06/56] fix: set assigns each variable in its own scope

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 62966e453cb8477b91d7a0f9ea77701e2c78dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 07/56] fix: library functions called by reference get no
 position instead of an unrelated function

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index 7d30c59..0e222b8 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -176,7 +176,7 @@ def callfcn(state, scope, fcn, args):
         callScope.let(args)
         return fcn(state, callScope)
     else:
-        return fcn(state, scope, pos, None, *args)
+        return fcn(state, scope, None, None, *args)
 
 def negativeIndex(length, index):
     """Helper function for interpreting negative array indexes as counting from the end of the array (just like Python).
-- 
2.43.0


From a3c70c56d9ecda4356350a48954aa220ab6d940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 08/56] fix: ifnotnull with a type whose JSON text contains a
 quote or an escape

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 5401e66..4eae711 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -440,9 +440,9 @@ class GeneratePython(titus.pfaast.Task):
 
         elif isinstance(context, IfNotNull.Context):
             if context.elseClause is None:
-                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
+                return "ifNotNull(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "))"
             else:
-                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": '" + repr(t) + "'" for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
+                return "ifNotNullElse(state, scope, {" + ", ".join(repr(n) + ": " + e for n, t, e in context.symbolTypeResult) + "}, {" + ", ".join(repr(n) + ": " + repr(repr(t)) for n, t, e in context.symbolTypeResult) + "}, lambda state, scope: do(" + ", ".join(context.thenClause) + "), lambda state, scope: do(" + ", ".join(context.elseClause) + "))"
 
         elif isinstance(context, Pack.Context):
             return "pack(state, scope, [" + ", ".join("(" + str(d.value) + ", " + str(d) + ")" for d in context.exprsDeclareRes) + "], " + repr(context.pos) + ")"
-- 
2.43.0


From be46a6a66b9e23d97c20679e690f595cc0d019d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 09/56] fix: generated code did not define the JSON and
 floating-point constants it uses

---
 titus/genpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 4eae711..005983e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1499,6 +1499,12 @@ class PFAEngine(object):
                    "checkData": titus.datatype.checkData,
                    # Python libraries
                    "math": math,
+                   # names in type descriptions (JSON) and in floating-point literals
+                   "null": None,
+                   "true": True,
+                   "false": False,
+                   "inf": float("inf"),
+                   "nan": float("nan"),
                    }
 
         exec(code, sandbox)
-- 
2.43.0


From e0855c2e8c8d9418b2882bf9b2e9b1971300d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 10/56] fix: reject engine names that are not identifiers, and
 names with a trailing newline

---
 titus/pfaast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index b277672..7e192f8 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -112,7 +112,7 @@ def validSymbolName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_][A-Za-z0-9_]*$", test) is not None
+    return re.match("^[A-Za-z_][A-Za-z0-9_]*\\Z", test) is not None
 
 class SymbolTable(object):
     """Represents the symbols (variables) and their data types in a lexical scope."""
@@ -311,7 +311,7 @@ def validFunctionName(test):
     :rtype: bool
     :return: ``True`` if valid; ``False`` otherwise
     """
-    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*$", test) is not None
+    return re.match("^[A-Za-z_]([A-Za-z0-9_]|\\.[A-Za-z][A-Za-z0-9_]*)*\\Z", test) is not None
 
 class UserFcn(Fcn):
     """Represents a user-defined function."""
@@ -899,6 +899,9 @@ class EngineConfig(Ast):
         :rtype: (titus.pfaast.AstContext, titus.pfaast.TaskResult)
         :return: (information about this abstract syntax tree node after type-checking, result of the generic task)
         """
+        if not validSymbolName(self.name):
+            raise PFASemanticException("\"{0}\" is not a valid engine name".format(self.name), self.pos)
+
         topWrapper = SymbolTable(symbolTable, {}, self.cells, self.pools, True, False)
 
         userFunctions = {}
-- 
2.43.0


From 60e5450fc63b04b89a7dd52c8b0106df2bcff194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 11/56] fix: unrecognized binary formats are reported as
 semantic errors

---
 titus/pfaast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 7e192f8..12611ce 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5695,9 +5695,9 @@ class BinaryFormatter(object):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From c94c194e62b5e747a04b1818dc63eb4e3ad7b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 12/56] fix: binary format names are matched in full (int64 and
 float64 were packed in four bytes)

---
 titus/pfaast.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 12611ce..62b4573 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5497,22 +5497,22 @@ class IfNotNull(Expression):
 class BinaryFormatter(object):
     """Helper class for ``pack`` and ``unpack`` that checks format strings."""
 
-    formatPad = re.compile("""\s*(pad)\s*""")
-    formatBoolean = re.compile("""\s*(boolean)\s*""")
-    formatByte = re.compile("""\s*(byte|int8)\s*""")
-    formatUnsignedByte = re.compile("""\s*unsigned\s*(byte|int8)\s*""")
-    formatShort = re.compile("""\s*(<|>|!|little|big|network)?\s*(short|int16)\s*""")
-    formatUnsignedShort = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*short|unsigned\s*int16)\s*""")
-    formatInt = re.compile("""\s*(<|>|!|little|big|network)?\s*(int|int32)\s*""")
-    formatUnsignedInt = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*int|unsigned\s*int32)\s*""")
-    formatLong = re.compile("""\s*(<|>|!|little|big|network)?\s*(long|long\s+long|int64)\s*""")
-    formatUnsignedLong = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*long|unsigned\s*long\s+long|unsigned\s*int64)\s*""")
-    formatFloat = re.compile("""\s*(<|>|!|little|big|network)?\s*(float|float32)\s*""")
-    formatDouble = re.compile("""\s*(<|>|!|little|big|network)?\s*(double|float64)\s*""")
-    formatRaw = re.compile("""\s*raw\s*""")
-    formatRawSize = re.compile("""\s*raw\s*([0-9]+)\s*""")
-    formatToNull = re.compile("""\s*(null\s*)?terminated\s*""")
-    formatPrefixed = re.compile("""\s*(length\s*)?prefixed\s*""")
+    formatPad = re.compile("""\s*(pad)\s*\Z""")
+    formatBoolean = re.compile("""\s*(boolean)\s*\Z""")
+    formatByte = re.compile("""\s*(byte|int8)\s*\Z""")
+    formatUnsignedByte = re.compile("""\s*unsigned\s*(byte|int8)\s*\Z""")
+    formatShort = re.compile("""\s*(<|>|!|little|big|network)?\s*(short|int16)\s*\Z""")
+    formatUnsignedShort = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*short|unsigned\s*int16)\s*\Z""")
+    formatInt = re.compile("""\s*(<|>|!|little|big|network)?\s*(int|int32)\s*\Z""")
+    formatUnsignedInt = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*int|unsigned\s*int32)\s*\Z""")
+    formatLong = re.compile("""\s*(<|>|!|little|big|network)?\s*(long|long\s+long|int64)\s*\Z""")
+    formatUnsignedLong = re.compile("""\s*(<|>|!|little|big|network)?\s*(unsigned\s*long|unsigned\s*long\s+long|unsigned\s*int64)\s*\Z""")
+    formatFloat = re.compile("""\s*(<|>|!|little|big|network)?\s*(float|float32)\s*\Z""")
+    formatDouble = re.compile("""\s*(<|>|!|little|big|network)?\s*(double|float64)\s*\Z""")
+    formatRaw = re.compile("""\s*raw\s*\Z""")
+    formatRawSize = re.compile("""\s*raw\s*([0-9]+)\s*\Z""")
+    formatToNull = re.compile("""\s*(null\s*)?terminated\s*\Z""")
+    formatPrefixed = re.compile("""\s*(length\s*)?prefixed\s*\Z""")
     
     class Declare(object):
         """Trait for binary format declaration."""
-- 
2.43.0


From 31ae3d73793fc138a1ff28ad5ac5cbacf301729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 13/56] fix: locks of shared cells and pools were not released
 when an update failed

---
 titus/genpy.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 005983e..833defa 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -539,9 +539,11 @@ class Cell(PersistentStorageItem):
         result = None
         if self.shared:
             self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            try:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
+            finally:
+                self.lock.release()
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -584,12 +586,14 @@ class Pool(PersistentStorageItem):
                 self.locks[head].acquire()
             self.locklock.release()
 
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            try:
+                if head not in self.value:
+                    self.value[head] = init
+                self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
 
-            result = self.value[head]
-            self.locks[head].release()
+                result = self.value[head]
+            finally:
+                self.locks[head].release()
 
         else:
             if head not in self.value:
-- 
2.43.0


From bce51ca4603e36271e79ef1f1243fdb5616ea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 14/56] fix: a loop in merge failed because merge had no
 timeout

---
 titus/genpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 833defa..e6afa3c 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -491,7 +491,7 @@ class ExecutionState(object):
 
         if routine == "begin":
             self.timeout = options.timeout_begin
-        elif routine == "action":
+        elif routine in ("action", "merge"):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
-- 
2.43.0


From d41665c414be85b12bc3febd8fcde2fc0f446c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 15/56] fix: an option value of a wrong type is an
 initialization error

---
 titus/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/options.py b/titus/options.py
index 38030e9..c5091b7 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -37,7 +37,7 @@ class EngineOptions(object):
             out = combinedOptions.get(name, default)
             try:
                 return int(out)
-            except ValueError:
+            except (TypeError, ValueError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-- 
2.43.0


From 7ed589f016dd3d483d459c354a747992d20ff64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 16/56] fix: deadlock check missed pool-del and functions
 passed by reference inside inline updaters

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index e6afa3c..ec045e7 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1344,13 +1344,13 @@ def checkForDeadlock(engineConfig, engine):
 
     class CellToOrPoolTo(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
+            return isinstance(ast, (CellTo, PoolTo, PoolDel))
         def __call__(self, slotTo):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
 
     class SideEffectFunction(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
+            return isinstance(ast, (Call, FcnRef, FcnRefFill)) and engine.hasSideEffects(ast.name)
         def __call__(self, call):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
 
-- 
2.43.0


From a3eb704a5da6608e9fb118f8412607c49c26a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 17/56] fix: pool-del removed items of shared pools without
 taking their lock

---
 titus/genpy.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index ec045e7..0f7533f 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].remove(item)
         return None
 """)
 
@@ -603,6 +599,22 @@ class Pool(PersistentStorageItem):
 
         return result
 
+    def remove(self, item):
+        if self.shared:
+            self.locklock.acquire()
+            if item not in self.locks:
+                self.locks[item] = threading.Lock()
+            self.locks[item].acquire()
+            self.locklock.release()
+
+            try:
+                self.value.pop(item, None)
+            finally:
+                self.locks[item].release()
+
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From a0737466c8d5fac9f382b35ca8eb6fedd504c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 18/56] fix: JSON encoding, decoding and comparison accept the
 bytes that checkData produces

---
 titus/datatype.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..0fd9f40 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, bytesToString, stringToBytes
 
 ######################################################### the most general types
 
@@ -908,10 +908,10 @@ def jsonDecoder(avroType, value):
         except (ValueError, TypeError):
             pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
@@ -937,7 +937,7 @@ def jsonDecoder(avroType, value):
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
                 else:
-                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
             return out
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
@@ -950,7 +950,7 @@ def jsonDecoder(avroType, value):
             return None
     else:
         raise Exception
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def jsonEncoder(avroType, value, tagged=True):
     """Encode an object as JSON, given titus.datatype.AvroType.
@@ -977,11 +977,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
+    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
         if len(value) == avroType.size:
-            return value
+            return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -998,7 +998,7 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
@@ -1025,7 +1025,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.name: out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
@@ -1073,9 +1073,9 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
-        return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, (AvroBytes, AvroFixed)) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        x = bytesToString(x) if isinstance(x, bytes) else x
+        y = bytesToString(y) if isinstance(y, bytes) else y
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
@@ -1153,7 +1153,7 @@ def compare(avroType, x, y):
             else:
                 return 0
     else:
-        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x), json.dumps(y), ts(avroType)))
+        raise titus.errors.AvroException("{0} or {1} does not match schema {2}".format(json.dumps(x, default=repr), json.dumps(y, default=repr), ts(avroType)))
 
 ########################### check data value against type
 
-- 
2.43.0


From 7279f0eb47047211b774e847d1b8a815be57c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 19/56] fix: snapshot covers this document's own cells and
 pools, bytes included

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 0f7533f..89c7b8b 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1659,8 +1659,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, AstCell(c.avroPlaceholder, json.dumps(self.cells[k].value, default=titus.util.bytesToString), self.cells[k].shared, self.cells[k].rollback, self.cells[k].source)) for k, c in list(self.config.cells.items()))
+        newPools = dict((k, AstPool(p.avroPlaceholder, dict((kk, json.dumps(vv, default=titus.util.bytesToString)) for kk, vv in list(self.pools[k].value.items())), self.pools[k].shared, self.pools[k].rollback, self.pools[k].source)) for k, p in list(self.config.pools.items()))
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 5f1bb0ded7be9bf74f52259b06084ba095ce9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 20/56] fix: cells and pools are written with their value, so
 not with an external source

---
 titus/pfaast.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 62b4573..e8ce1cd 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1202,8 +1202,6 @@ class Cell(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
         return out
 
     @titus.util.case
@@ -1302,8 +1300,6 @@ class Pool(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
         return out
             
     @titus.util.case
-- 
2.43.0


From 7ed27452fe57e9a72b7db3e860c16fb3ed2cda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 21/56] fix: comparing float values handles NaN as comparing
 double values does

---
 titus/datatype.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 0fd9f40..d581411 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1051,7 +1051,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
-- 
2.43.0


From a182d894a55c6b166e6d40668682d901bf0d03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 22/56] fix: encoding a tagged union value prefers the type
 named by its tag

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d581411..be06ea7 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1004,8 +1004,8 @@ def jsonEncoder(avroType, value, tagged=True):
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
-            val, = list(value.values())
-            for t in avroType.types:
+            (tag, val), = list(value.items())
+            for t in sorted(avroType.types, key=lambda t: t.name != tag):   # the tagged type first
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
-- 
2.43.0


From 0583955aab7d38e9b64e28f63b34542156bd227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 23/56] fix: booleans are not numbers and a fixed value has the
 declared size in checked input

---
 titus/datatype.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index be06ea7..981cb1c 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1210,7 +1210,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1223,7 +1223,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
@@ -1236,7 +1236,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1251,7 +1251,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1259,7 +1259,9 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
+        if isinstance(avroType, AvroFixed) and isinstance(data, (str, bytes)) and len(data) != avroType.size:
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        elif isinstance(data, bytes):
             return data
         elif isinstance(data, str):
             return stringToBytes(data)
-- 
2.43.0


From b29f79548b852b94a9cad6ed81795e2fa640d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 24/56] fix: a function type is only accepted against function
 types

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 981cb1c..861abd3 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -50,7 +50,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
-- 
2.43.0


From 4b1d1469e78fede56cc870e6579bea374a88dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 25/56] fix: ifnotnull, unpack and cast whose branches all end
 in errors have type null, as if and cond do

---
 titus/pfaast.py    | 34 ++++++++++++++++++++++------------
 titus/signature.py |  4 ++--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index e8ce1cd..ad67085 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5188,10 +5188,14 @@ class CastBlock(Expression):
                 if not any(t.accepts(mustFind) and mustFind.accepts(t) for t in types):
                     raise PFASemanticException("\"cast\" of expression with type {0} does not contain a case for {1}".format(ts(exprType), ts(mustFind)), self.pos)
 
-            try:
-                retType = LabelData.broadestType([x[0].retType for x in cases])
-            except IncompatibleTypes as err:
-                raise PFASemanticException(str(err), self.pos)
+            caseTypes = [x[0].retType for x in cases]
+            if all(isinstance(x, ExceptionType) for x in caseTypes):
+                retType = AvroNull()
+            else:
+                try:
+                    retType = LabelData.broadestType(caseTypes)
+                except IncompatibleTypes as err:
+                    raise PFASemanticException(str(err), self.pos)
 
         context = self.Context(retType, calls.union(set([self.desc])), exprType, exprResult, cases, self.partial)
         return context, task(context, engineOptions)
@@ -5452,10 +5456,13 @@ class IfNotNull(Expression):
 
             thenType = thenResults[-1][0].retType
             elseType = elseResults[-1][0].retType
-            try:
-                retType = LabelData.broadestType([thenType, elseType])
-            except IncompatibleTypes as err:
-                raise PFASemanticException(str(err), self.pos)
+            if isinstance(thenType, ExceptionType) and isinstance(elseType, ExceptionType):
+                retType = AvroNull()
+            else:
+                try:
+                    retType = LabelData.broadestType([thenType, elseType])
+                except IncompatibleTypes as err:
+                    raise PFASemanticException(str(err), self.pos)
 
             retType, elseTaskResults, elseSymbols = retType, [x[1] for x in elseResults], elseScope.inThisScope
         else:
@@ -5928,10 +5935,13 @@ class Unpack(Expression):
 
             thenType = thenResults[-1][0].retType
             elseType = elseResults[-1][0].retType
-            try:
-                retType = LabelData.broadestType([thenType, elseType])
-            except IncompatibleTypes as err:
-                raise PFASemanticException(str(err), self.pos)
+            if isinstance(thenType, ExceptionType) and isinstance(elseType, ExceptionType):
+                retType = AvroNull()
+            else:
+                try:
+                    retType = LabelData.broadestType([thenType, elseType])
+                except IncompatibleTypes as err:
+                    raise PFASemanticException(str(err), self.pos)
 
             retType, elseTaskResults, elseSymbols = retType, [x[1] for x in elseResults], elseScope.inThisScope
         else:
diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..8b98365 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -203,9 +203,9 @@ class LabelData(object):
         realCandidates = [x for x in candidates if not isinstance(x, ExceptionType)]
 
         if len(candidates) == 0:
-            return ValueError("empty list of types")
+            raise IncompatibleTypes("empty list of types")
         elif len(realCandidates) == 0:
-            return ValueError("list of types consists only of exception type")
+            raise IncompatibleTypes("list of types consists only of exception type")
 
         elif all(isinstance(x, AvroNull) for x in realCandidates):
             return realCandidates[0]
-- 
2.43.0


From b7fea545a97dbfc8b4ad990b9fd80482447a1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 26/56] fix: referring to a library function without a plain
 signature is a semantic error, not a NameError or bare Exception

---
 titus/P.py      | 12 ++++++++----
 titus/pfaast.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5e534aa..368881e 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -358,9 +358,11 @@ def toType(pat):
     elif isinstance(pat, Record):
         return AvroRecord([AvroField(k, toType(v)) for k, v in list(pat.fields.items())])
 
-    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params()], toType(pat.ret()))
+    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params], toType(pat.ret))
 
-    else: raise Exception
+    else:
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("wildcards cannot be converted to types")
 
 def fromType(t, memo=None):
     """Convert a type to a pattern.
@@ -402,8 +404,10 @@ def fromType(t, memo=None):
             return Record({}, t.name)
         else:
             return Record(dict((f.name, fromType(f.avroType, memo.union(set([t.name])))) for f in t.fields), t.name)
-    elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params()], fromType(t.ret(), memo))
-    elif isinstance(t, ExceptionType): raise IncompatibleTypes("exception type cannot be used in argument patterns")
+    elif isinstance(t, FcnType): return Fcn([fromType(x, memo) for x in t.params], fromType(t.ret, memo))
+    elif isinstance(t, ExceptionType):
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("exception type cannot be used in argument patterns")
 
 def mustBeAvro(t):
     """Raise a ``TypeError`` if a given titus.datatype.Type is not a titus.datatype.AvroType; otherwise, pass through.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index ad67085..9d46f10 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -62,6 +62,7 @@ from titus.fcn import Fcn
 from titus.signature import IncompatibleTypes
 from titus.signature import LabelData
 from titus.signature import Sig
+from titus.signature import Sigs
 from titus.signature import PFAVersion
 from titus.datatype import *
 import titus.options
-- 
2.43.0


From c41adcfd3c3b98a839dc3f231e1b9156b0c2162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 27/56] fix: enum and fixed wildcards only match enums and
 fixeds

---
 titus/signature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index 8b98365..a7e309c 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -541,13 +541,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
-- 
2.43.0


From 7d35691e19b0065fcd9d4ba7dd1bea157b79d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 28/56] fix: a function argument must take as many parameters,
 of types as wide, as the signature it is passed to asks for

---
 titus/signature.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index a7e309c..a9c5ab9 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -517,7 +517,8 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
@@ -612,6 +613,9 @@ class Sig(Signature):
             return arg
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
+            expected = FcnType([self.assignRet(p, assignments) for p in pat.params], self.assignRet(pat.ret, assignments))
+            if not expected.accepts(arg):
+                raise IncompatibleTypes("function of type {0} cannot be used as {1}".format(arg, expected))
             return arg
 
         elif isinstance(pat, P.Wildcard):
-- 
2.43.0


From 0daf7252a752ac45f139c8dd79a7da9b79ea18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 29/56] fix: reader reports malformed pools, cells, functions
 and pairs as PFA syntax errors

---
 titus/reader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..442f2dd 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -440,7 +440,7 @@ def _readStringExpressionPairs(data, dot, avroTypeBuilder):
             out.extend(list(pair.items()))
         return out
     else:
-        return PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
+        raise PFASyntaxException("expected array of {string: expression} pairs, found " + _trunc(repr(data)), dot)
 
 def _readStringPairs(data, dot):
     if isinstance(data, (list, tuple)):
@@ -818,7 +818,7 @@ def _readFcnDefMap(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid function name".format(k), pos(dot, at))
         return dict((k, _readFcnDef(v, dot + " -> " + k, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of function definitions, not " + _trunc(repr(data)), dot)
 
 def _readFcnDef(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -842,7 +842,7 @@ def _readFcnDef(data, dot, avroTypeBuilder):
         else:
             return FcnDef(_params, _ret, _body, pos(dot, at))
     else:
-        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function definition, not " + _trunc(repr(data)), dot)
 
 def _readParams(data, dot, avroTypeBuilder):
     if isinstance(data, (list, tuple)):
@@ -858,12 +858,12 @@ def _readParam(data, dot, avroTypeBuilder):
             raise PFASyntaxException("function parameter name-type map should have only one pair", pos(dot, at))
         n = list(keys)[0]
         if not validSymbolName(n):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(n), pos(dot, at))
 
         t = _readAvroPlaceholder(data[n], dot + " -> " + n, avroTypeBuilder)
         return {n: t}
     else:
-        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected function parameter name-type singleton map, not " + _trunc(repr(data)), dot)
 
 def _readCells(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -873,7 +873,7 @@ def _readCells(data, dot, avroTypeBuilder):
                 raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(k), pos(dot, at))
         return dict((k, _readCell(data[k], dot, avroTypeBuilder)) for k, v in list(data.items()) if k != "@")
     else:
-        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), dot)
 
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
@@ -992,4 +992,4 @@ def _readPool(data, dot, avroTypeBuilder):
 
             return Pool(_avroType, _init, _shared, _rollback, _source, pos(dot, at))
     else:
-        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), pos(dot, at))
+        raise PFASyntaxException("expected pool, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From cb5b37f8c979fe3d6bfc81e4e602a579316dd3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 30/56] fix: median and ntile compare the element type by value

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..5972f9f 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType in ("float", "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if dataType in ("float", "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From fbf6ed06310f88ae0a996eebc304993f7440df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 31/56] fix: negative binomial quantile with n=0 and the
 message for invalid unpack names

---
 titus/lib/prob/dist.py | 2 --
 titus/pfaast.py        | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 53ea168..1d583d7 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1717,8 +1717,6 @@ class NegativeBinomialDistribution(object):
         # CDF SEEMS MORE ACCURATE NOW, REVISIT
         if math.isnan(p):
             return float("nan")
-        elif (self.n == 0.0) and (x == 0.0):
-            return 0.0
         elif (self.n == 0.0):
             return 0.0
         elif (p == 0.0):
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 9d46f10..202ad9f 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5917,7 +5917,7 @@ class Unpack(Expression):
                 raise PFASemanticException("symbol \"{0}\" may not be redeclared or shadowed".format(s), self.pos)
 
             if not validSymbolName(s):
-                raise PFASemanticException("\"{0}\" is not a valid symbol name", self.pos)
+                raise PFASemanticException("\"{0}\" is not a valid symbol name".format(s), self.pos)
 
             formatter.append(BinaryFormatter.formatToDeclare(s, f, self.pos, False))
             assignmentScope.put(s, formatter[-1].avroType)
-- 
2.43.0


From 7d225bbaf2e990f83158d976d4e370fa1e89afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 32/56] fix: inspector: comparing parsed expressions and
 reporting an unknown option

---
 titus/inspector/jsongadget.py |  2 +-
 titus/inspector/parser.py     | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 88877ef..633feca 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -366,7 +366,7 @@ class FindCommand(Command):
                     except TypeError:
                         raise InspectorError("illegal value for {0}".format(opt.word.text))
                 else:
-                    raise InspectorError("option {1} unrecognized".format(opt.word.text))
+                    raise InspectorError("option {0} unrecognized".format(opt.word.text))
 
             if not isinstance(options["maxDepth"], int) or options["maxDepth"] <= 0:
                 raise InspectorError("maxDepth must be a positive integer")
diff --git a/titus/inspector/parser.py b/titus/inspector/parser.py
index e9aac88..935622b 100644
--- a/titus/inspector/parser.py
+++ b/titus/inspector/parser.py
@@ -264,7 +264,7 @@ class Approx(Ast):
         return "Approx({0}, {1})".format(repr(self.central), repr(self.error))
     def __str__(self):
         return str(self.central) + " +- " + str(self.error)
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Approx) and self.central == other.central and self.error == other.error
     def regex(self):
         return t.Approx(self.central, self.error)
@@ -288,7 +288,7 @@ class Group(Ast):
         return "Group({0}, {1})".format(repr(self.item), self.counter)
     def __str__(self):
         return "(" + str(self.item) + ")"
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Group) and self.item == other.item
     def regex(self):
         return t.Group(**{str(self.counter): self.item.regex()})
@@ -308,7 +308,7 @@ class Range(Ast):
         return "Range({0} {1})".format(self.operator, self.comparator)
     def __str__(self):
         return "# " + self.operator + " " + str(self.comparator)
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, Range) and self.operator == other.operator and self.comparator == other.comparator
     def regex(self):
         if self.operator is None:
@@ -333,7 +333,7 @@ class OrChain(Ast):
         return "OrChain([{0}])".format(", ".join(map(repr, self.chain)))
     def __str__(self):
         return " | ".join(map(str, self.chain))
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, OrChain) and self.chain == other.chain
     def regex(self):
         return t.Or(*[x.regex() for x in self.chain])
@@ -347,7 +347,7 @@ class AndChain(Ast):
         return "AndChain([{0}])".format(", ".join(map(repr, self.chain)))
     def __str__(self):
         return " & ".join(map(str, self.chain))
-    def __eq__(self):
+    def __eq__(self, other):
         return isinstance(other, AndChain) and self.chain == other.chain
     def regex(self):
         return t.And(*[x.regex() for x in self.chain])
-- 
2.43.0


From 180f702873930d4fed028d3da3f576d211e0b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 33/56] fix: malformed PFA documents are refused with
 PFASyntaxException, not with an internal error of the reader

---
 titus/reader.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 442f2dd..2d88b64 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -292,11 +292,10 @@ def _stripAtSigns(data):
         return data
 
 def _readEngineConfig(data, avroTypeBuilder):
-    at = data.get("@")
-
     if not isinstance(data, dict):
-        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), at)
+        raise PFASyntaxException("PFA engine must be a JSON object, not " + _trunc(repr(data)), None)
 
+    at = data.get("@")
     keys = set(x for x in list(data.keys()) if x != "@")
 
     _method = Method.MAP
@@ -494,7 +493,10 @@ def _readStringOrInt(data, dot):
 
 def _readBase64(data, dot):
     if isinstance(data, str):
-        return bytesToString(base64.b64decode(data))
+        try:
+            return bytesToString(base64.b64decode(data))
+        except ValueError:
+            raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
     else:
         raise PFASyntaxException("expected base64 data, not " + _trunc(repr(data)), dot)
 
@@ -532,6 +534,8 @@ def _readCastCase(data, dot, avroTypeBuilder):
                     _body = [_readExpression(data[key], dot + " -> " + key, avroTypeBuilder)]
             else:
                 raise PFASyntaxException("unexpected field in cast-case: {0}".format(key), pos(dot, at))
+    else:
+        raise PFASyntaxException("expected cast-case, not " + _trunc(repr(data)), dot)
 
     if "named" in keys and not validSymbolName(_named):
         raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(_named), pos(dot, at))
@@ -669,7 +673,7 @@ def _readArgument(data, dot, avroTypeBuilder):
 
             elif key == "cond":
                 _cond = _readExpressionArray(data[key], dot + " -> " + key, avroTypeBuilder)
-                if any(x.elseClause is not None for x in _cond):
+                if any(not isinstance(x, If) or x.elseClause is not None for x in _cond):
                     raise PFASyntaxException("cond expression must only contain else-less if expressions", pos(dot, at))
 
             elif key == "cases": _cases = _readCastCaseArray(data[key], dot + " -> " + key, avroTypeBuilder)
@@ -724,13 +728,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["foreach"]), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["forkey"]), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["forval"]), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data["fcn"]), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
@@ -799,7 +803,7 @@ def _readArgument(data, dot, avroTypeBuilder):
         elif keys == set(["call", "args"]):                  return CallUserFcn(_callwith, _callwithargs, pos(dot, at))
 
         elif len(keys) == 1 and list(keys)[0] not in \
-             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "do", "doc", "double", "else",
+             set(["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else",
                   "error", "fcn", "fill", "filter", "float", "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init",
                   "int", "let", "log", "long", "namespace", "new", "pack", "params", "partial", "path", "pool", "ret", "seq",
                   "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while"]):
-- 
2.43.0


From f4686f5ddee0c7245b32bc4024120b9b62d004b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 34/56] fix: a boolean is not read as a number (int, long,
 float, double, randseed, version, code, filter)

---
 titus/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 2d88b64..e18976b 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -396,7 +396,7 @@ def _readBoolean(data, dot):
         raise PFASyntaxException("expected boolean, not " + _trunc(repr(data)), dot)
 
 def _readInt(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -2147483648 <= data <= 2147483647:
             return data
         else:
@@ -405,7 +405,7 @@ def _readInt(data, dot):
         raise PFASyntaxException("expected int, not " + _trunc(repr(data)), dot)
 
 def _readLong(data, dot):
-    if isinstance(data, int):
+    if isinstance(data, int) and not isinstance(data, bool):
         if -9223372036854775808 <= data <= 9223372036854775807:
             return data
         else:
@@ -414,13 +414,13 @@ def _readLong(data, dot):
         raise PFASyntaxException("expected long, not " + _trunc(repr(data)), dot)
 
 def _readFloat(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected float, not " + _trunc(repr(data)), dot)
 
 def _readDouble(data, dot):
-    if isinstance(data, (int, float)):
+    if isinstance(data, (int, float)) and not isinstance(data, bool):
         return float(data)
     else:
         raise PFASyntaxException("expected double, not " + _trunc(repr(data)), dot)
@@ -486,7 +486,7 @@ def _readString(data, dot):
         raise PFASyntaxException("expected string, not " + _trunc(repr(data)), dot)
 
 def _readStringOrInt(data, dot):
-    if isinstance(data, (str, int)):
+    if isinstance(data, (str, int)) and not isinstance(data, bool):
         return data
     else:
         raise PFASyntaxException("expected string or int, not " + _trunc(repr(data)), dot)
-- 
2.43.0


From 61219489671902fffdbc94fe77589a32c912417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 35/56] fix: a dotted reference and a cast-case keep their
 position in the document

---
 titus/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index e18976b..20f4383 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -544,7 +544,7 @@ def _readCastCase(data, dot, avroTypeBuilder):
     if (keys != required):
         raise PFASyntaxException("wrong set of fields for a cast-case: \"{0}\"".format(", ".join(keys)), pos(dot, at))
     else:
-        return CastCase(_as, _named, _body)
+        return CastCase(_as, _named, _body, pos(dot, at))
 
 def _readExpression(data, dot, avroTypeBuilder):
     out = _readArgument(data, dot, avroTypeBuilder)
@@ -594,7 +594,7 @@ def _readArgument(data, dot, avroTypeBuilder):
                     rest[i] = LiteralString(rest[i], dot)
                 else:
                     rest[i] = LiteralInt(asint, dot)
-            return AttrGet(Ref(ref), rest, dot)
+            return AttrGet(Ref(ref, dot), rest, dot)
         elif validSymbolName(data):
             return Ref(data, dot)
         else:
-- 
2.43.0


From 01c88e1f1c230f83913ba37ae97c60f1f969b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 36/56] fix: external sources of pools and Avro sources of
 cells can be read

---
 titus/pfaast.py |  2 +-
 titus/reader.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 202ad9f..080a75f 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1233,7 +1233,7 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
             raise PFASyntaxException("\"init\" must be a string or callable", pos)
 
         if not isinstance(shared, bool):
diff --git a/titus/reader.py b/titus/reader.py
index 20f4383..c406ea9 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -903,8 +903,8 @@ def _readCell(data, dot, avroTypeBuilder):
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    reader = DataFileReader(io.BytesIO(urllib.request.urlopen(url).read()), DatumReader())
+                    return json.dumps(titus.datatype.jsonEncoder(avroType, next(reader)))
                 _init = getit
 
             elif _source == "json":
@@ -953,7 +953,7 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init": _init = data[key]
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
@@ -962,16 +962,16 @@ def _readPool(data, dot, avroTypeBuilder):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
             if _source == "avro":
-                url = json.loads(_init)
+                url = _init
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    reader = DataFileReader(io.BytesIO(urllib.request.urlopen(url).read()), DatumReader())
+                    return json.dumps(titus.datatype.jsonEncoder(avroType, next(reader)))
                 _init = getit
 
             elif _source == "json":
-                url = json.loads(_init)
+                url = _init
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
                 def getit(avroType):
@@ -982,7 +982,7 @@ def _readPool(data, dot, avroTypeBuilder):
                 _init = getit
                 
             elif _source == "embedded":
-                pass
+                _init = _readJsonToStringMap(_init, dot + " -> init")
                 # # which is the equivalent of...
                 # value = {}
                 # for k, v in _init.items():
-- 
2.43.0


From 40edffaeb8176ed0ea78896129d76b7d52cc1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 37/56] fix: a map type was looked up as an array, so casts
 from or to maps never matched

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 861abd3..fe54c81 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -802,7 +802,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From e536cecc2aabfc04525f946ec048798066f9247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 38/56] fix: types given as JSON text could not be looked up

---
 titus/datatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index fe54c81..a52ef51 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -757,7 +757,11 @@ class ForwardDeclarationParser(object):
 
     def getAvroType(self, description):
         if isinstance(description, str):
-            if self.names.has_name(description, None):
+            try:
+                isKnown = self.names.has_name(description, None)
+            except avro.schema.SchemaParseException:       # not a name: may be JSON
+                isKnown = False
+            if isKnown:
                 return schemaToAvroType(self.names.get_name(description, None))
             elif description == "null":
                 return AvroNull()
-- 
2.43.0


From 16ea37764dc1ac4476773eedf9657d150382d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:45 +0000
Subject: [PATCH 39/56] fix: the second time a type was written as JSON its
 definition was left out

---
 titus/datatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a52ef51..ce2dc57 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -663,12 +663,14 @@ class AvroPlaceholder(object):
         """Represent the resolved type as a JSON string."""
         return json.dumps(self.jsonNode())
 
-    def jsonNode(self, memo=set()):
+    def jsonNode(self, memo=None):
         """Represent the resolved type as a Jackson node.
 
         :type memo: set of strings
         :param memo: used to avoid infinite loops with recursive records
         """
+        if memo is None:
+            memo = set()
         return self.avroType.jsonNode(memo)
 
     @property
-- 
2.43.0


From 13e5b5370a3a8aaac382d2d265ec878a69e9bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 40/56] fix: a field whose default is null was taken to have
 none

---
 titus/datatype.py       | 12 ++++++++----
 titus/producer/chain.py |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index ce2dc57..1968cf6 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -187,7 +187,7 @@ class AvroType(Type):
 
     def _recordFieldsOkay(self, other, memo, checkRecord):
         for xf in self.fields:
-            if xf.default is None:
+            if not xf.hasDefault:
                 if not any(xf.name == yf.name and xf.avroType.accepts(yf.avroType, memo, checkRecord) for yf in other.fields):
                     return False
             else:
@@ -608,6 +608,10 @@ class AvroField(object):
         """Get the field type as a titus.datatype.AvroType."""
         return schemaToAvroType(self.schema.type)
     @property
+    def hasDefault(self):
+        """``True`` if the field has a default value (which may be ``null``)."""
+        return self.schema.has_default
+    @property
     def default(self):
         """Get the field default value."""
         if self.schema.has_default:
@@ -621,7 +625,7 @@ class AvroField(object):
     def jsonNode(self, memo):
         """Get the field as a Python-encoded JSON node."""
         out = {"name": self.name, "type": self.avroType.jsonNode(memo)}
-        if self.default is not None:
+        if self.hasDefault:
             out["default"] = self.default
         if self.order is not None:
             out["order"] = self.order
@@ -938,7 +942,7 @@ def jsonDecoder(avroType, value):
             for field in avroType.fields:
                 if field.name in value:
                     out[field.name] = jsonDecoder(field.avroType, value[field.name])
-                elif field.default is not None:
+                elif field.hasDefault:
                     out[field.name] = jsonDecoder(field.avroType, field.default)
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
@@ -1001,7 +1005,7 @@ def jsonEncoder(avroType, value, tagged=True):
         for field in avroType.fields:
             if field.name in value:
                 out[field.name] = jsonEncoder(field.avroType, value[field.name], tagged)
-            elif field.default is not None:
+            elif field.hasDefault:
                 pass
             else:
                 raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=repr), ts(avroType)))
diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..86f0ad5 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -374,7 +374,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 memo[newName] = join(ns, n)
                 for f in avroType.fields:
                     newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
-                    if f.default is not None:
+                    if f.hasDefault:
                         newf["default"] = f.default
                     if f.order is not None:
                         newf["order"] = f.order
-- 
2.43.0


From 43ee58849b5eaa23d70bc6f69ebb8a06e720fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 41/56] fix: a boolean or a text was decoded as a number, and
 an infinite one leaked OverflowError

---
 titus/datatype.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 1968cf6..14781e4 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -898,25 +898,29 @@ def jsonDecoder(avroType, value):
         if value is True or value is False:
             return value
     elif isinstance(avroType, AvroInt):
-        try:
-            return int(value)
-        except (ValueError, TypeError):
-            pass
+        if isinstance(value, (int, float)) and value is not True and value is not False:
+            try:
+                return int(value)
+            except (ValueError, OverflowError):
+                pass
     elif isinstance(avroType, AvroLong):
-        try:
-            return int(value)
-        except (ValueError, TypeError):
-            pass
+        if isinstance(value, (int, float)) and value is not True and value is not False:
+            try:
+                return int(value)
+            except (ValueError, OverflowError):
+                pass
     elif isinstance(avroType, AvroFloat):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
+        if isinstance(value, (int, float)) and value is not True and value is not False:
+            try:
+                return float(value)
+            except OverflowError:
+                pass
     elif isinstance(avroType, AvroDouble):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
+        if isinstance(value, (int, float)) and value is not True and value is not False:
+            try:
+                return float(value)
+            except OverflowError:
+                pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, (str, bytes)):
             return value
-- 
2.43.0


From 4eb5455e223acfaf28bb4ffd71ad04abbc2fa292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 42/56] fix: an integer too big for a float was refused with
 OverflowError

---
 titus/datatype.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 14781e4..9e3b205 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -988,9 +988,15 @@ def jsonEncoder(avroType, value, tagged=True):
     elif isinstance(avroType, AvroLong) and isinstance(value, int) and value is not True and value is not False:
         return value
     elif isinstance(avroType, AvroFloat) and isinstance(value, (int, float)) and value is not True and value is not False:
-        return float(value)
+        try:
+            return float(value)
+        except OverflowError:
+            pass
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
-        return float(value)
+        try:
+            return float(value)
+        except OverflowError:
+            pass
     elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
         return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
@@ -1251,7 +1257,10 @@ def checkData(data, avroType):
         elif isinstance(data, floatTypes):
             data = float(data)
         elif isinstance(data, int) and not isinstance(data, bool):
-            data = float(data)
+            try:
+                data = float(data)
+            except OverflowError:
+                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, float):
             return data
         else:
@@ -1266,7 +1275,10 @@ def checkData(data, avroType):
         elif isinstance(data, floatTypes):
             return float(data)
         elif isinstance(data, int) and not isinstance(data, bool):
-            return float(data)
+            try:
+                return float(data)
+            except OverflowError:
+                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, float):
             return data
         else:
-- 
2.43.0


From 8832f516266b6d0429ee464346d4cd2c24fb6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 43/56] fix: Python code is converted to PFA from the syntax
 trees of Python 3

---
 titus/producer/expression.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index d62ed73..554b207 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -150,8 +150,8 @@ def _statement(stmt, state):
                 raise PythonToPfaException("cannot declare {0} symbols and reassign {1} in the same statement (source line {2})".format(lets, sets, stmt.lineno))
             return _form(state, stmt.lineno, {letset: out})
 
-    elif isinstance(stmt, ast.Print):
-        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.values]})
+    elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print":
+        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.value.args]})
 
     elif isinstance(stmt, ast.For):
         if isinstance(stmt.target, ast.Name):
@@ -186,8 +186,8 @@ def _statement(stmt, state):
             return _form(state, stmt.lineno, OrderedDict([("cond", chain)]))
 
     elif isinstance(stmt, ast.Raise):
-        if isinstance(stmt.type, ast.Str):
-            return _form(state, stmt.lineno, {"error": stmt.type.s})
+        if isinstance(stmt.exc, ast.Str):
+            return _form(state, stmt.lineno, {"error": stmt.exc.s})
 
     elif isinstance(stmt, ast.Expr):
         return _expression(stmt.value, state)
@@ -283,7 +283,7 @@ def _expression(expr, state):
             elif isinstance(x, ast.Gt): return ">"
             elif isinstance(x, ast.GtE): return ">="
             else:
-                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), expr.lineno))
 
         ops = list(reversed(expr.ops))
         cmps = list(reversed(expr.comparators))
@@ -338,6 +338,9 @@ def _expression(expr, state):
     elif isinstance(expr, ast.Str):
         return {"string": expr.s}
 
+    elif isinstance(expr, ast.Constant) and (expr.value is None or isinstance(expr.value, bool)):
+        return expr.value
+
     elif isinstance(expr, ast.Attribute):
         return _unfold(expr, [], state)
 
@@ -369,8 +372,8 @@ def _unfold(x, path, state):
         path.insert(0, {"string": x.attr})
         return _unfold(x.value, path, state)
 
-    elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Index):
-        path.insert(0, _expression(x.slice.value, state))
+    elif isinstance(x, ast.Subscript):
+        path.insert(0, _expression(x.slice, state))
         return _unfold(x.value, path, state)
 
     else:
@@ -399,6 +402,9 @@ def _literal(expr, state):
     elif isinstance(expr, ast.Str):
         return expr.s
 
+    elif isinstance(expr, ast.Constant) and (expr.value is None or isinstance(expr.value, bool)):
+        return expr.value
+
     elif isinstance(expr, ast.Name):
         if expr.id in state["subs"]:
             return state["subs"][expr.id]
-- 
2.43.0


From 28054f94dc49e8dc51e1417169e26f2d6f7309a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 44/56] fix: Negative(x) in Python code stands for the u-
 function

---
 titus/producer/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index 554b207..4949919 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -308,7 +308,7 @@ def _expression(expr, state):
                 raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
 
         specialForms = ["Int", "Long", "Float", "Double", "String", "Base64", "Type", "Value", "New", "Do", "Let", "Set", "Attr", "Path", "To", "Cell", "Pool", "Init", "If", "Then", "Else", "Cond", "While", "Until", "For", "Step", "Foreach", "In", "Forkey", "Forval", "Cast", "Cases", "Partial", "Upcast", "As", "Ifnotnull", "Doc", "Error", "Log", "Namespace", "Params", "Ret", "Fcn"]
-        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "U-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
+        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "u-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
 
         name = unfold(expr.func)
         if name in specialForms:
-- 
2.43.0


From 8b4c6f4a27af70685af28662b536b54c020dc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 45/56] fix: Python code with parts that have no PFA equivalent
 is refused, not converted without them

---
 titus/producer/expression.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index 4949919..5afeed7 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -135,6 +135,8 @@ def _statement(stmt, state):
             out = OrderedDict()
             lets = 0
             sets = 0
+            if len(stmt.targets[0].elts) != len(stmt.value.elts):
+                raise PythonToPfaException("cannot assign {0} values to {1} symbols (source line {2})".format(len(stmt.value.elts), len(stmt.targets[0].elts), stmt.lineno))
             for name, value in zip(stmt.targets[0].elts, stmt.value.elts):
                 if name.id in state["symbols"]:
                     sets += 1
@@ -153,7 +155,7 @@ def _statement(stmt, state):
     elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print":
         return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.value.args]})
 
-    elif isinstance(stmt, ast.For):
+    elif isinstance(stmt, ast.For) and len(stmt.orelse) == 0:
         if isinstance(stmt.target, ast.Name):
             newvar = stmt.target.id
             array = _expression(stmt.iter, _newscope(state))
@@ -167,7 +169,7 @@ def _statement(stmt, state):
             body = _statements(stmt.body, _newscope(state, [keyvar, valvar]))
             return _form(state, stmt.lineno, OrderedDict([("forkey", keyvar), ("forval", valvar), ("in", mapping), ("do", body)]))
             
-    elif isinstance(stmt, ast.While):
+    elif isinstance(stmt, ast.While) and len(stmt.orelse) == 0:
         test = _expression(stmt.test, _newscope(state))
         body = _statements(stmt.body, _newscope(state))
         return _form(state, stmt.lineno, OrderedDict([("while", test), ("do", body)]))
@@ -252,6 +254,8 @@ def _expression(expr, state):
             op = "&"
         elif isinstance(expr.op, ast.FloorDiv):
             op = "//"
+        else:
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
         return _form(state, expr.lineno, {op: [_expression(expr.left, _newscope(state)), _expression(expr.right, _newscope(state))]})
 
     elif isinstance(expr, ast.UnaryOp):
@@ -326,6 +330,8 @@ def _expression(expr, state):
 
         for kwd in expr.keywords:
             kwdarg = kwd.arg
+            if kwdarg is None:
+                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
             if kwdarg in specialForms:
                 kwdarg = kwdarg.lower()
             out[kwdarg] = _expression(kwd.value, _newscope(state))
-- 
2.43.0


From 10b4c34e99c0a221e97ea239904df18b601756cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 46/56] fix: chain.engine passes its options by name

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 86f0ad5..a42da43 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -166,7 +166,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState=sharedState, multiplicity=multiplicity, style=style, debug=debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
-- 
2.43.0


From 94785c6c17d8b8def303be850b40728deb112d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 47/56] fix: the version cell of a chain has a valid initial
 value

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index a42da43..04a42f4 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -417,7 +417,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
-- 
2.43.0


From 927b46af34bfb49dac909c6dbc29581fd9cdc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 48/56] fix: the initial items of a chained pool are converted
 one by one

---
 titus/producer/chain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 04a42f4..0551950 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -611,8 +611,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
                 def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
+                    return dict((k, jsonlib.dumps(jsonEncoder(avroType, jsonDecoder(pool.avroType, jsonlib.loads(v))))) for k, v in list(pool.init.items()))
                 newPool.converter = converter
                 
     # make sure all the types work together
-- 
2.43.0


From 1ca37442e0a3688a0d67eac05a1909f565d7088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 49/56] fix: chaining renames the types of new arrays and the
 pools of pool-del

---
 titus/producer/chain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 0551950..ac80d1a 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -69,6 +69,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -504,6 +505,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,7 +518,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From 2877e1c31b1703817e57b348f0c4f3c1cd855afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 50/56] fix: chaining renames the parameter types of user
 functions

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index ac80d1a..7222c37 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -589,7 +589,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
-- 
2.43.0


From d9159f760c4093a0663a6fa834ba3c9f2d409dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 51/56] fix: records that occur more than once, or in
 themselves, can be chained

---
 titus/producer/chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 7222c37..0f3e3df 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -320,8 +320,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
             return chainPair(i, first.values, second.values, memo)
         elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
+            if (first.fullName, second.fullName) in memo:
+                return True
+            else:
+                memo.add((first.fullName, second.fullName))
                 if len(first.fields) != len(second.fields):
                     return False
                 for f1, f2 in zip(first.fields, second.fields):
-- 
2.43.0


From 4c8fe000a4c9987a53407ea8c3b4ad33918b9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 52/56] fix: chaining converts literal values to the renamed
 types

---
 titus/producer/chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 0f3e3df..2b8d094 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -386,6 +386,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         else:
             return jsonlib.loads(repr(avroType))
 
+    def renameValue(i, oldAvroType, value):
+        newAvroType = avroTypeBuilder.resolveOneType(jsonlib.dumps(rename(i, oldAvroType, {})))
+        return jsonlib.dumps(jsonEncoder(newAvroType, jsonDecoder(oldAvroType, jsonlib.loads(value))))
+
     avroTypeBuilder = AvroTypeBuilder()
     memo = {}
     def newPlaceholder(i, oldAvroType):
@@ -478,7 +482,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               renameValue(i, expr.avroType, expr.value),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
-- 
2.43.0


From f390abdee706f3e6d406fbbaaaa0367f50c40706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 53/56] fix: emit passed as a function in a chained step is the
 next step

---
 titus/producer/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 2b8d094..9eb52d3 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -462,7 +462,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
-- 
2.43.0


From 599cae90f13bc05f59c0ea0a704172275c6e7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 54/56] fix: emit can be passed to another function

---
 titus/genpy.py  | 4 ++++
 titus/pfaast.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 89c7b8b..5415bcb 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1333,6 +1333,10 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     def __init__(self, engine):
         self.engine = engine
 
+    def __call__(self, state, scope, pos, paramTypes, x):
+        """Call the engine's ``emit``, for when the function is passed to another function."""
+        return self.engine.emit(x)
+
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
 
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 080a75f..61e1b5a 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -350,6 +350,7 @@ class EmitFcn(Fcn):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
         """
+        self.name = "emit"
         self.sig = Sig([{"output": P.fromType(outputType)}], P.Null())
 
     def genpy(self, paramTypes, args, pos=None):
-- 
2.43.0


From 349a4ab3df8d88f0a4d36749a8802cc1178fb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 55/56] fix: PrettyPFA syntax errors on the last line are
 reported as such

---
 titus/prettypfa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..13266cb 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1443,11 +1443,11 @@ class Parser(object):
 
         def t_error(t):
             lineno = t.lexer.lineno
-            lines = self.text.split("\n")
+            lines = re.split(r"\r\n?|\n", self.text)
             if len(lines) < 2:
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}: {2}".format(t.value[0], lineno, self.text))
             else:
-                offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                offendingLine = "\n".join(insertArrow(lines, lineno - 1)[max(lineno - 2, 0):(lineno + 1)])
                 raise PrettyPfaException("Tokenizing syntax error: \"{0}\" at PrettyPFA line {1}:\n{2}".format(t.value[0], lineno, offendingLine))
 
         self.lexer = lex.lex()
@@ -2098,11 +2098,11 @@ class Parser(object):
                 raise PrettyPfaException("Parsing syntax error")
             else:
                 lineno = p.lineno
-                lines = self.text.split("\n")
+                lines = re.split(r"\r\n?|\n", self.text)
                 if len(lines) < 2:
                     raise PrettyPfaException("Parsing syntax error on line {0}: {1}".format(p.lineno, self.text))
                 else:
-                    offendingLine = "\n".join(insertArrow(lines[(lineno - 1):(lineno + 2)], 1))
+                    offendingLine = "\n".join(insertArrow(lines, lineno - 1)[max(lineno - 2, 0):(lineno + 1)])
                     raise PrettyPfaException("Parsing syntax error on line {0}:\n{1}".format(p.lineno, offendingLine))
 
         self.yacc = yacc.yacc(debug=False, write_tables=False)
-- 
2.43.0


From aef02e8e2137b8f2b6515a76894ca0fce5ca971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:08 +0000
Subject: [PATCH 56/56] fix: map.zipmap takes maps with the same keys in any
 order

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..f77303e 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -504,7 +504,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +523,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0

