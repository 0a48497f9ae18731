From 63fdd0d0120c0577b6b7a499ec1a6bc448bd5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:49 +0000
Subject: [PATCH 001/125] fix: accept multi-digit denominators in symbolic
 rationals

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..3248736 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 553d94c3ccaf03b54e08ee6a89ce1ac187265ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:07 +0000
Subject: [PATCH 002/125] fix: keep explicit zero coefficients and exponents in
 symbolic operands

---
 src/goats/core/symbolic.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 3248736..27790b6 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,13 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(1 if exponent is None else exponent)
         """The numerical exponent."""
 
     @property
@@ -1015,13 +1017,14 @@ class OperandFactory(PartFactory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
-            for key, attr in updatable.items()
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            ) for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1031,7 +1034,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 10ecd4bc7ef3d54c992967f6583ed4b3b97f46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:37 +0000
Subject: [PATCH 003/125] fix: parse symbolic constants exactly, including
 negative powers of ten

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 27790b6..7520eef 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -856,8 +856,8 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            longer = matches['variable'].end() > matches['constant'].end()
+            key = 'variable' if longer else 'constant'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
@@ -892,7 +892,7 @@ class OperandFactory(PartFactory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return PartMatch(
-            result=Term(coefficient=float(coefficient)),
+            result=Term(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From 9d7ebf49e2867ac45ea6848b8df5ef301dc09a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:53 +0000
Subject: [PATCH 004/125] fix: give equal symbolic terms equal hashes

---
 src/goats/core/symbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 7520eef..6e2c857 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -417,7 +417,9 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        # The numerical attributes need to be floats here because equality
+        # compares them as floats.
+        return hash((float(self.coefficient), self.base, float(self.exponent)))
 
 
 def asterms(these: typing.Iterable[str]):
-- 
2.43.0


From 3c8b8d35b82e63d7c44cb20d040b21bb2949b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:24 +0000
Subject: [PATCH 005/125] fix: apply a symbolic square root that follows
 another operator

---
 src/goats/core/symbolic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 6e2c857..587b765 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1238,8 +1238,14 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
+        exponent = initial.exponent
+        operator = self.operators.parse(current.string)
+        if operator and operator.result == 'sqrt':
+            # A root after another operator is part of the operand.
+            exponent = exponent / 2
+            current.string = operator.remainder
         if parsed := self.operands.parse(current.string):
-            current.operand = parsed.result ** initial.exponent
+            current.operand = parsed.result ** exponent
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From 1f96b07c479574111353b326308aae7adf9b2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:22 +0000
Subject: [PATCH 006/125] fix: correct the defined conversions of
 electromagnetic units

---
 src/goats/core/metric.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..aec5433 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): 1e-1 * C,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): 1e-1 * C,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -749,10 +749,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 9ed378ecdb8c3577d24ebe9f115fceefa99e8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:00 +0000
Subject: [PATCH 007/125] fix: correct the dimension of permittivity and the
 name of illuminance

---
 src/goats/core/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index aec5433..a597b73 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 84b207c15a3fa16c589d8c1d84b784bd34432280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:24 +0000
Subject: [PATCH 008/125] fix: leave the dimension of a named unit undefined
 where its system is

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a597b73..038c2e3 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1354,7 +1354,7 @@ class NamedUnit(iterables.ReprStrMixin, metaclass=_NamedUnitMeta):
         if self._dimensions is None:
             systems = {system for system in self.systems['defined']}
             self._dimensions = {
-                k: symbolic.Expression(v)
+                k: None if v is None else symbolic.Expression(v)
                 for k, v in self._get_dimensions(systems).items()
             }
         return self._dimensions.copy()
-- 
2.43.0


From 63c82b65498817164326156b7e9ea4beb6eb2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:38 +0000
Subject: [PATCH 009/125] fix: never drop terms or scales when converting units
 by dimension

---
 src/goats/core/metric.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 038c2e3..27eb814 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1750,23 +1750,33 @@ class Conversion(iterables.ReprStrMixin):
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
+        scale = 1.0
         decomposed = []
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
-                )
-        if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            try:
+                reduction = NamedUnit(term.base).reduce()
+            except SystemAmbiguityError:
+                reduction = None
+            if not reduction:
+                # There is no known reduction, so this term must find a match
+                # among the other terms.
+                decomposed.append(term)
+                continue
+            scale *= reduction.scale ** float(term.exponent)
+            decomposed.extend(
+                [
+                    symbolic.Term(
+                        base=this.base,
+                        exponent=term.exponent*this.exponent,
+                    )
+                    for this in reduction.units
+                ]
+            )
+        expression = symbolic.Expression(decomposed)
+        if expression == '1':
+            return scale
+        if factor := self._resolve_terms(list(expression)):
+            return scale * factor
 
     def _match_terms(
         self,
-- 
2.43.0


From 2f7ced66995d208c34b30e5568b8730eb6f8a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:51 +0000
Subject: [PATCH 010/125] fix: search for each term of a compound unit
 conversion from scratch

---
 src/goats/core/metric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 27eb814..8362f01 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1792,6 +1792,7 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         dimensions = NamedUnit(u0).dimensions.values()
-- 
2.43.0


From 6e24fb705fbd3e5b8a355d2d422cb8498a49a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:05 +0000
Subject: [PATCH 011/125] fix: include numerical coefficients in unit
 conversions

---
 src/goats/core/metric.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 8362f01..1e29aa5 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1741,11 +1741,15 @@ class Conversion(iterables.ReprStrMixin):
         e0, e1 = (symbolic.Expression(unit) for unit in (u0, u1))
         if e0 == e1:
             return 1.0
-        terms = [term for term in e0 / e1 if term.base not in UNITY]
+        quotient = e0 / e1
+        scale = float(quotient[0]) if quotient[0].base == '1' else 1.0
+        terms = [term for term in quotient if term.base not in UNITY]
+        if not terms:
+            return scale
         if factor := self._resolve_terms(terms):
-            return factor
+            return scale * factor
         if factor := self._convert_by_dimensions(terms):
-            return factor
+            return scale * factor
         raise UnitConversionError(self.u0, self.u1)
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
-- 
2.43.0


From 4cd147b2430aa3c1f3e81ae985f5822e36eba77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:19 +0000
Subject: [PATCH 012/125] fix: scale unmatched dimensionless terms to their
 canonical unit

---
 src/goats/core/metric.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1e29aa5..68742c4 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1799,9 +1799,14 @@ class Conversion(iterables.ReprStrMixin):
             self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
-        dimensions = NamedUnit(u0).dimensions.values()
-        if u0 in named_units and all(d == '1' for d in dimensions):
-            return 1.0, target
+        named = NamedUnit(u0)
+        if all(d == '1' for d in named.dimensions.values()):
+            # A dimensionless unit doesn't need a match, but it may not be the
+            # canonical unit of its quantity (e.g., 'deg').
+            canonical = CANONICAL['units']['mks'][named.quantity]
+            self._checked = []
+            factor = self._convert_as_strings(u0, canonical) or 1.0
+            return factor ** exponent, target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From 7d638d8b556aea6733eff4e7e6c4b8f2db1f3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:22 +0000
Subject: [PATCH 013/125] fix: parse 'cd' as candela rather than centiday

---
 src/goats/core/metric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 68742c4..b64651a 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -915,6 +915,10 @@ finally by physical quantity.
 def build_unit_aliases(prefix, unit):
     """Define all aliases for the given metric prefix and base unit."""
     key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
+    if prefix['symbol'] and any(u['symbol'] == key[1] for u in _units):
+        # The symbol of an unscaled unit takes precedence (e.g., 'cd' means
+        # candela, not centiday).
+        key.pop()
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
     return tuple(key)
@@ -1104,7 +1108,8 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        known = identify(symbol) == (magnitude, reference)
+        cls._instances[(name, symbol) if known else name] = instance
         return instance
 
 
-- 
2.43.0


From 12ebfbbb330b59bbe9786cce27128b36cc87de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:20 +0000
Subject: [PATCH 014/125] fix: keep symbolic exponents exact under roots and
 rational powers

---
 src/goats/core/symbolic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 587b765..443557f 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1293,7 +1293,7 @@ class Parser:
         if operator == 'divide':
             return operand ** -1
         if operator == 'sqrt':
-            return operand ** 0.5
+            return operand ** fractions.Fraction(1, 2)
         raise ValueError(f"Unrecognized operator {operator!r}")
 
     def _update_terms(self, operand: Operand):
@@ -1617,9 +1617,11 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to an exact fraction.
         """
-        exp = float(exp)
+        if not isinstance(exp, numbers.Rational):
+            exp = float(exp)
+        exp = fractions.Fraction(exp)
         if not exp:
             return NotImplemented
         terms = [pow(term, exp) for term in self]
-- 
2.43.0


From d304a70b702c78ccfcd12e392dd63a3d5de13a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:40 +0000
Subject: [PATCH 015/125] fix: convert between scaled units of the same kind in
 several steps

---
 src/goats/core/metric.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index b64651a..08a6b70 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1721,8 +1721,7 @@ class Conversion(iterables.ReprStrMixin):
                 if value := self._convert_as_strings(unit, u1, scale=scale):
                     return weight * value
 
-    @classmethod
-    def _rescale(cls, u0: str, u1: str):
+    def _rescale(self, u0: str, u1: str):
         """Compute a new conversion after rescaling `u0`.
         
         This method will look for a unit, `ux`, in `~metric.CONVERSIONS`
@@ -1734,11 +1733,11 @@ class Conversion(iterables.ReprStrMixin):
         if not u0 in named_units:
             return
         n0 = NamedUnit(u0)
-        for ux in cls.units:
-            if ux in named_units:
+        for ux in self.units:
+            if ux in named_units and ux not in self._checked:
                 nx = NamedUnit(ux)
                 if nx.base == n0.base:
-                    if found := cls._search(ux, u1):
+                    if found := self._convert_as_strings(ux, u1):
                         return (nx // n0) * found
 
     def _convert_as_expressions(self, u0: str, u1: str):
-- 
2.43.0


From 5b55b64e0c39836f8b8ac470bf7ce927395d4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:20 +0000
Subject: [PATCH 016/125] fix: find defined conversions of unit expressions in
 any spelling

---
 src/goats/core/metric.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 08a6b70..a500416 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1674,17 +1674,26 @@ class Conversion(iterables.ReprStrMixin):
         
         The aliases of `unit` comprise the given string, as well as the
         canonical name and symbol of the corresponding named unit, if one
-        exists.
+        exists, or an equivalent unit expression with a defined conversion.
         """
         built = [unit]
         if unit in named_units:
             known = NamedUnit(unit)
             built.extend([known.symbol, known.name])
+        else:
+            canonical = str(symbolic.Expression(unit))
+            if canonical in cls._expressions:
+                built.append(cls._expressions[canonical])
         return built
 
     units = CONVERSIONS.nodes
     """Local copy of `~metric.CONVERSIONS.nodes`."""
 
+    _expressions = {
+        str(symbolic.Expression(unit)): unit
+        for unit in CONVERSIONS.nodes if unit not in named_units
+    }
+
     def _complex_conversion(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to compute a complex conversion from `u0` to `u1`.
 
-- 
2.43.0


From b85ae3fbc9513e16b91dfe8712d813bdb64c45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:33 +0000
Subject: [PATCH 017/125] fix: return one instance for every alias of a named
 unit

---
 src/goats/core/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a500416..057f1da 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1095,6 +1095,9 @@ class _NamedUnitMeta(abc.ABCMeta):
         magnitude, reference = identify(string)
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
+        if available := cls._instances.get(name):
+            # The argument is another alias of an existing unit (e.g., 'um').
+            return available
         symbol = f"{magnitude.symbol}{reference.symbol}"
         cls._attributes[string] = {
             'prefix': magnitude,
-- 
2.43.0


From 1f742291b23590acf947cc483666b8d0a4cb4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:04 +0000
Subject: [PATCH 018/125] fix: don't treat undefined dimensions as consistent
 with dimensionless units

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 057f1da..a9f76f0 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2297,7 +2297,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         that = type(self)(other)
         for system in SYSTEMS:
             defined = self.dimensions[system]
-            given = that.dimensions.values()
+            given = [d for d in that.dimensions.values() if d]
             if defined and any(d == defined for d in given):
                 return True
         if self.quantity == that.quantity:
-- 
2.43.0


From ca7142542ad69b9275f5484dd93855d1e48c4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:44 +0000
Subject: [PATCH 019/125] fix: return one unit for every alias of a named unit

---
 src/goats/core/metric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a9f76f0..cb9c2db 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2017,7 +2017,12 @@ class _UnitMeta(abc.ABCMeta):
             # If `name` corresponds to a named unit register both the name and
             # symbol (e.g., 'centimeter' and 'cm').
             this = NamedUnit(name)
-            key = (this.name, this.symbol)
+            if this.name in cls._instances:
+                # The canonical string is another alias of an existing unit
+                # (e.g., 'um' for 'μm').
+                cls._instances.alias(this.name, name)
+                return cls._instances[this.name]
+            key = tuple({this.name, this.symbol, name})
         except UnitParsingError:
             # If attempting to parse a named unit from `name` failed, register
             # the canonical string and, if applicable, the string argument.
-- 
2.43.0


From d0e03493c8d1eca9da63793922b70cb3c807201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:41 +0000
Subject: [PATCH 020/125] fix: use cgs units for the cgs displacement field

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cb9c2db..a2e607d 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From 7a4f5442167a1b4bc5f780c5348dda8673e2ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:02 +0000
Subject: [PATCH 021/125] fix: find canonical units from dimensions in any
 spelling

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a2e607d..6b55354 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2793,8 +2793,9 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        this = Dimension(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if this == dimension:
                 return Unit(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 06e180f6f8bf72d4e61ebe39d244411b4f9e37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:34 +0000
Subject: [PATCH 022/125] fix: define conversions from lumen and lux to their
 canonical units

---
 src/goats/core/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 6b55354..e4c2ca7 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -744,6 +744,9 @@ _CONVERSIONS = {
     ('Wb', 'Mx'): 1e8,
     ('T', 'G'): 1e4,
     ('A / m', 'Oe'): 4*PI * 1e-3,
+    ('lm', 'cd * sr'): 1.0,
+    ('lx', 'cd * sr / m^2'): 1.0,
+    ('lx', 'cd * sr / cm^2'): 1e-4,
     # ('A * m^2', 'Oe * cm^3'): 1e-3,
     # ('kg', 'g'): 1e3,
     ('nuc', 'kg'): 1.6605e-27,
-- 
2.43.0


From a0ac97fe390db65f544ba8f16054b491fd76009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:02 +0000
Subject: [PATCH 023/125] fix: apply in-place operations to the metadata of a
 quantity

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..3c0d95e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From fc0fa6e9ebf782486a8952c4f2f83a0dc9f105c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 024/125] fix: keep the name of a quantity when changing its
 unit

---
 src/goats/core/measurable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 3c0d95e..832872e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -233,7 +233,9 @@ class Quantity(Quantified):
         object if doing so here would be inefficient.
         """
         data = self._data * (unit // self._unit)
-        return type(self)(data, unit=unit)
+        meta = {k: getattr(self, k) for k in self.meta.parameters}
+        meta['unit'] = unit
+        return type(self)(data, **meta)
 
     def __measure__(self):
         """Create a measurement from this quantity's data and unit."""
-- 
2.43.0


From 0a4a4985675584fe89abe9f5580a36a22632a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:34 +0000
Subject: [PATCH 025/125] fix: keep the unit and name when copying a scalar or
 a vector

---
 src/goats/core/physical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..2820f9b 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,8 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, Quantity):
+            meta = {k: getattr(__data, k) for k in ('unit', 'name')}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -159,9 +161,9 @@ class Vector(Quantity):
 
     def __init__(self, __data, **meta) -> None:
         if isinstance(__data, measurable.Measurement):
-            meta = {'unit': __data.unit}
+            meta = {**meta, 'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From 85480065dc614c38711ff35f7c7f870888710ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:53 +0000
Subject: [PATCH 026/125] fix: accept the name of a metric system in any case
 when changing units

---
 src/goats/core/measurable.py | 2 +-
 src/goats/core/variable.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 832872e..7a1f50b 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -203,7 +203,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..58ceea9 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -579,7 +579,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0


From 3dfbbd077a17fe1bab7d2e51feb17153b89a9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 027/125] fix: keep the scale of the data when copying a
 rescaled array

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 2820f9b..c7b9816 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -242,8 +242,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 58ceea9..724a521 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -40,9 +40,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             else __interface
         )
         # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        self._full_array = getattr(__interface, '_full_array', None)
+        # Carry the internal array scale factor from an existing instance.
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From 21d3364e7d3cebd8d48ff084dfffa391b74bd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 028/125] fix: change the unit of a vector with a unit object

---
 src/goats/core/physical.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index c7b9816..1944edc 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -179,10 +179,8 @@ class Vector(Quantity):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, str):
+        if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
-- 
2.43.0


From 6e8eb504abfba8e88fa4a0c34fda358528ff363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:54 +0000
Subject: [PATCH 029/125] fix: refuse to order arrays with different units

---
 src/goats/core/physical.py | 3 +++
 src/goats/core/variable.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 1944edc..d9aaeca 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -388,6 +388,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _COMPARISONS = {'less', 'less_equal', 'greater', 'greater_equal'}
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -423,6 +424,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare arrays with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 724a521..b847aed 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -174,6 +174,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _COMPARISONS = {'less', 'less_equal', 'greater', 'greater_equal'}
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -209,6 +210,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare arrays with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From 8da7adeb8cac1b0c61c0a9b04bfb4f8e935bdc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 030/125] fix: define inequality of arrays as the negation of
 equality

---
 src/goats/core/physical.py | 5 +++++
 src/goats/core/variable.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d9aaeca..1dc1e85 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -274,6 +274,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return False
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances are not equal."""
+        equal = self == other
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index b847aed..7fe52db 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -73,6 +73,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return NotImplemented
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances are not equal."""
+        equal = self == other
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
-- 
2.43.0


From e3663ffa1efa1113f9169ce6a5b28ef5b8d73b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:19 +0000
Subject: [PATCH 031/125] fix: support functions without a signature in
 metadata operations

---
 src/goats/core/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..ce56db7 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -4,6 +4,7 @@ Objects and functions for operating on metadata.
 
 import abc
 import collections.abc
+import contextlib
 import fractions
 import inspect
 import math
@@ -352,7 +353,8 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
         operator.__name__ = self.name or f'__{method.__name__}__'
         operator.__doc__ = method.__doc__
         if callable(method) and not isinstance(method, type):
-            operator.__text_signature__ = str(inspect.signature(method))
+            with contextlib.suppress(ValueError):
+                operator.__text_signature__ = str(inspect.signature(method))
         return operator
 
     def __eq__(self, __o):
-- 
2.43.0


From be57c48212d4d6401310565b37e6d0f38513ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:45 +0000
Subject: [PATCH 032/125] fix: compare conversion factors between units within
 rounding error

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index e4c2ca7..79e5f2f 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1,6 +1,7 @@
 import abc
 import collections.abc
 import contextlib
+import math
 import numbers
 import typing
 
@@ -2290,7 +2291,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
             # If their numerical conversion factor is unity, they are
             # equivalent; for the purposes of this method (see the justification
             # given in the docstring), they are therefore equal.
-            return self // this == 1.0
+            return math.isclose(self // this, 1.0, rel_tol=1e-12)
         except UnitConversionError:
             # Everything has failed, so we declare them unequal.
             return False
-- 
2.43.0


From cbfc6459602fda8a9e7882834ee6799d3775321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:26 +0000
Subject: [PATCH 033/125] fix: match terms of the same quantity first when
 converting units

---
 src/goats/core/metric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 79e5f2f..534ed31 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1814,6 +1814,10 @@ class Conversion(iterables.ReprStrMixin):
             term for term in terms
             if term != target and term.exponent == -exponent
         ]
+        # Some units of different quantities are inter-convertible (e.g., 'F'
+        # and 'cm'), so units of the same quantity take precedence.
+        quantity = NamedUnit(u0).quantity
+        like_terms.sort(key=lambda t: NamedUnit(t.base).quantity != quantity)
         for term in like_terms:
             u1 = term.base
             self._checked = []
-- 
2.43.0


From 25fb22a5e6f6cd5a795e325003a287618e213776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:42 +0000
Subject: [PATCH 034/125] fix: keep separate instances of each type of unit

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 534ed31..c3e2689 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1978,7 +1978,10 @@ class _UnitMeta(abc.ABCMeta):
     needing to overload `__new__` on that class or its base class(es).
     """
 
-    _instances = aliased.MutableMapping()
+    def __init__(cls, *args, **kwargs) -> None:
+        """Give each class its own instances."""
+        super().__init__(*args, **kwargs)
+        cls._instances = aliased.MutableMapping()
 
     def __call__(
         cls,
-- 
2.43.0


From 08e5d1d3f91ab021c7978f86dc99384c6fca1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:31 +0000
Subject: [PATCH 035/125] fix: extract the requested part of a variable for any
 combination of indices

---
 src/goats/core/variable.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 7fe52db..06cc70f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -117,29 +117,29 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (numbers.Integral, slice, type(...), type(None))
 
     def __getitem__(self, *args):
         """Extract a subarray."""
-        unwrapped = iterables.unwrap(args)
-        indices = self._normalize_indices(unwrapped)
+        user = args[0] if isinstance(args[0], tuple) else args
+        indices = self._normalize_indices(user)
         array = self._get_array(indices)
         result = numpy.array(array, ndmin=self.ndim)
-        if array.ndim != self.ndim:
-            with contextlib.suppress(TypeError):
-                shape = [
-                    self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
-                ]
-                return self._copy_with(data=result.reshape(shape))
+        if array.ndim != self.ndim and all(i is not None for i in indices):
+            shape = [
+                self._get_axis_size(i, v)
+                for i, v in enumerate(self._expand_ellipsis(indices))
+            ]
+            shape.extend(self.shape[len(shape):])
+            return self._copy_with(data=result.reshape(shape))
         return self._copy_with(data=result)
 
     def _get_axis_size(self, i: int, v):
         """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
+        if isinstance(v, numbers.Integral):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def _normalize_indices(self, args):
@@ -153,12 +153,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         """
         if iterables.hastype(args, self._builtin, tuple, strict=True):
             return args
-        if not isinstance(args, (tuple, list)):
-            args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
+            range(self.shape[i])[arg] if isinstance(arg, slice)
+            else [arg] if isinstance(arg, numbers.Integral)
+            else arg
             for i, arg in enumerate(expanded)
         ]
         return numpy.ix_(*list(indices))
@@ -171,11 +170,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = next(i for i, idx in enumerate(user) if idx is Ellipsis)
         return (
-            *user[slice(start)],
+            *user[:start],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 40614fc8f9f1ab6899fc9d26aa8253a8efe4d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:49 +0000
Subject: [PATCH 036/125] fix: extract the requested part of an array for any
 combination of indices

---
 src/goats/core/physical.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 1dc1e85..4f6398b 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -318,7 +318,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (numbers.Integral, slice, type(...), type(None))
 
     @typing.overload
     def __getitem__(
@@ -366,12 +366,13 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         This method handles all cases that don't meet the criteria for
         `_subscript_standard`.
         """
-        if not isinstance(args, (tuple, list)):
-            args = [args]
+        if not isinstance(args, tuple):
+            args = (args,)
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
+            range(self.shape[i])[arg] if isinstance(arg, slice)
+            else [arg] if isinstance(arg, numbers.Integral)
+            else arg
             for i, arg in enumerate(expanded)
         ]
         indices = numpy.ix_(*list(idx))
@@ -385,11 +386,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = next(i for i, idx in enumerate(user) if idx is Ellipsis)
         return (
-            *user[slice(start)],
+            *user[:start],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 4d6d8d0be8e95b972407d36314470d5c3aeebde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:37 +0000
Subject: [PATCH 037/125] fix: refuse to combine variables with different
 lengths of one axis

---
 src/goats/core/variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 06cc70f..67a0980 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -614,7 +614,12 @@ class Quantity(Array):
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
             tmp = {}
             for v in inputs:
-                tmp.update(v.shape_dict)
+                for name, size in v.shape_dict.items():
+                    if tmp.setdefault(name, size) != size:
+                        raise ValueError(
+                            f"Can't combine axes {name!r}"
+                            f" with lengths {tmp[name]} and {size}"
+                        ) from None
             full_shape = tuple(tmp[d] for d in dims)
             indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
-- 
2.43.0


From 8100f0dfb717ae8fef0124a7377bdef32acd984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 038/125] fix: name the remaining axes after squeezing or
 averaging any axes

---
 src/goats/core/variable.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 67a0980..1279641 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -635,26 +635,39 @@ class Quantity(Array):
         return dict(zip(self.dimensions, self.shape))
 
 
+def _normalize_axes(v: Quantity, axis) -> typing.Set[int]:
+    """Convert one or more (possibly negative) axes to non-negative axes."""
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    return {a % v.ndim for a in axes}
+
+
 @Quantity.implements(numpy.squeeze)
-def _squeeze(v: Quantity, **kwargs):
+def _squeeze(v: Quantity, axis=None):
     """Remove singular axes."""
-    data = v._array.squeeze(**kwargs)
+    data = v._array.squeeze(axis=axis)
+    removed = (
+        {i for i, d in enumerate(v.shape) if d == 1} if axis is None
+        else _normalize_axes(v, axis)
+    )
     dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+        a for i, a in enumerate(v.dimensions)
+        if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
 @Quantity.implements(numpy.mean)
-def _mean(v: Quantity, **kwargs):
+def _mean(v: Quantity, axis=None, **kwargs):
     """Compute the mean of the underlying array."""
-    data = v._array.mean(**kwargs)
-    axis = kwargs.get('axis')
+    data = v._array.mean(axis=axis, **kwargs)
+    if numpy.ndim(data) == v.ndim:
+        return Quantity(data, dimensions=v.dimensions, unit=v.unit)
     if axis is None:
         return data
+    removed = _normalize_axes(v, axis)
     dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
+        a for i, a in enumerate(v.dimensions)
+        if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
-- 
2.43.0


From afa6ded6be7f6d7871b2e921d700c7c02e6ddd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:11 +0000
Subject: [PATCH 039/125] fix: tell apart dimensions in different order

---
 src/goats/core/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index ce56db7..fcaca48 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -837,8 +837,8 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
             )
             or (
                 isinstance(other, typing.Iterable)
-                and len(other) == len(self)
-                and all(i in self for i in other)
+                and not isinstance(other, str)
+                and tuple(other) == tuple(self._names)
             )
         )
 
-- 
2.43.0


From 31ed018d6247bfa29420bb76beab9ec9b0a37d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:34 +0000
Subject: [PATCH 040/125] fix: find a value that differs from an extreme of an
 array by rounding

---
 src/goats/core/variable.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 1279641..9162744 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -265,8 +265,6 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         """
         if value in self:
             return True
-        if value < numpy.min(self._array) or value > numpy.max(self._array):
-            return False
         return numpy.any([numpy.isclose(value, self._array, atol=0.0)])
 
     def __contains__(self, __x):
-- 
2.43.0


From 08c1f2c8dcedfc5c240f7359aa634185944559ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:23 +0000
Subject: [PATCH 041/125] fix: keep the numerical factor of a unit in unit
 algebra and equality

---
 src/goats/core/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index c3e2689..1d34bf9 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2162,6 +2162,9 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
     @classmethod
     def _decompose(cls, term: symbolic.Term):
         """Internal logic for `~metric.Unit.decompose`."""
+        if term.base == '1':
+            # This is a numerical factor.
+            return [term]
         try:
             # Possible outcomes
             # - success: returns list of terms
-- 
2.43.0


From 6c3fd1369b9546e49ba45cec240152ab94463770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:55 +0000
Subject: [PATCH 042/125] fix: recognize a ratio of units of one metric system
 as dimensionless

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1d34bf9..f606847 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2091,7 +2091,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
 
     @property
     def dimensionless(self):
-        """True if this unit's dimension is '1' in all metric systems.
+        """True if this unit's dimension is '1' wherever it is defined.
         
         Notes
         -----
@@ -2104,6 +2104,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
             self._dimensionless = all(
                 dimension == '1'
                 for dimension in self.dimensions.values()
+                if dimension is not None
             )
         return self._dimensionless
 
-- 
2.43.0


From 0ef68ee2f9187dde95029925cd06598089e9a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:53 +0000
Subject: [PATCH 043/125] fix: compute the angle between B and V from their
 scalar product

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From d470c6089e1cbc19f8e0cb0193025cafda94cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:08 +0000
Subject: [PATCH 044/125] fix: compute rigidity separately for each species

---
 src/goats/core/computed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..d3c7c86 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,10 +182,11 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
-    total_energy = numpy.array(energy, ndmin=1) + mass*c**2
-    rest_energy = mass*c**2
+    # Align species along the first axis and energy along the second.
+    rest_energy = numpy.reshape(mass, (-1, 1))*c**2
+    total_energy = numpy.array(energy, ndmin=1) + rest_energy
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
-    return p / charge
+    return p / numpy.reshape(charge, (-1, 1))
 
 
 @registry.register
@@ -229,7 +230,7 @@ def acceleration_rate(
     v1 = _ahead(v)
     delta_v = v1 * numpy.abs(1 - v1_dot_v2 / (v1*v1))
     kxx_kpar = numpy.cos(angle)**2 + kper_kpar*numpy.sin(angle)**2
-    vpara = numpy.tensordot(kxx_kpar, vparticle, axes=0)
+    vpara = numpy.tensordot(kxx_kpar, numpy.atleast_2d(vparticle), axes=0)
     kappa = mfp * (vpara / 3.0)
     forward = inverse = (2, 3, 0, 1)
     tmp = kappa.transpose(forward) / v
-- 
2.43.0


From 1bafce9e27d1d0c410ada8e063b53f11e64c06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:21 +0000
Subject: [PATCH 045/125] fix: keep the unit of a runtime parameter in a
 computed quantity

---
 src/goats/eprem/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..a3baaf3 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -23,6 +23,7 @@ from ..core import (
     observed,
     observer,
     observing,
+    operational,
     physical,
     reference,
     symbolic,
@@ -601,7 +602,11 @@ class Context(observing.Context):
     def _compute_value(self, this):
         """Compute a parameter value."""
         # TODO: Generalize beyond scalar parameters.
-        scalar = physical.scalar(this)
+        scalar = (
+            physical.Scalar(float(this), unit=this.unit)
+            if isinstance(this, operational.Argument) and this.unit
+            else physical.scalar(this)
+        )
         unit = self._system.get_unit(unit=scalar.unit)
         return scalar[unit]
 
-- 
2.43.0


From b70d93441ea81c5b788e033f05df07137953437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:34 +0000
Subject: [PATCH 046/125] fix: compute derived quantities in MKS units for
 every metric system

---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a3baaf3..4ad12cc 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -413,8 +413,11 @@ class Context(observing.Context):
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
         """Determine dependencies and compute the result of this function."""
-        dependencies = {p: self.get_dependency(p) for p in q.parameters}
-        return q(**dependencies)
+        # The functions in `~computed` expect values in MKS units.
+        dependencies = {p: self.get_dependency(p)['mks'] for p in q.parameters}
+        unit = metric.System('mks').get_unit(unit=q.unit)
+        mks = computed.Quantity(q.method, dimensions=q.dimensions, unit=unit)
+        return mks(**dependencies)[q.unit]
 
     def get_dependency(self, key: str):
         """Get the named constant or variable quantity."""
-- 
2.43.0


From 5e2036eb43cc8558de0551d1579aac0184a0a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:46 +0000
Subject: [PATCH 047/125] fix: return zero integral flux above the highest
 energy

---
 src/goats/core/computed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index d3c7c86..98c9129 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -374,6 +374,9 @@ def integral_flux(
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            if m >= e[-1]:
+                # There is no flux above this bound.
+                continue
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From ccf940afe551400a070f5aa4079e34bb0418d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:03 +0000
Subject: [PATCH 048/125] fix: select the energies of integral flux separately
 for each species

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 98c9129..1024ba0 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -370,13 +370,13 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
             if m >= e[-1]:
                 # There is no flux above this bound.
                 continue
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From acb3a95ad280ce2325fed763e3c669bd81a925d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:34 +0000
Subject: [PATCH 049/125] fix: list only runtime parameters as the assumptions
 of an observation

---
 src/goats/eprem/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 4ad12cc..8eecad2 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -433,6 +433,7 @@ class Context(observing.Context):
             parameters = [
                 parameter for parameter in quantity.parameters
                 if parameter in self.parameters
+                and parameter not in self.variables
             ]
             return observing.Quantity(data, parameters=parameters)
         if isinstance(quantity, variable.Quantity):
-- 
2.43.0


From 1d52403463cc4dd6c81e56cfef38eb018d24a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:06 +0000
Subject: [PATCH 050/125] fix: report the values of a coordinate axis at the
 requested indices

---
 src/goats/eprem/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 8eecad2..420313a 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -219,7 +219,7 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(indices, values=[symbols[i] for i in indices])
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -237,7 +237,8 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                points = [int(t) for t in targets]
+                return index.Data(points, values=numpy.array(converted)[points])
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 112f5332838fab7bb271dd73326739df53ec758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:19 +0000
Subject: [PATCH 051/125] fix: report and validate the values of the shell axis
 at the requested indices

---
 src/goats/eprem/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 420313a..a75200c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -163,8 +163,10 @@ class Axes(aliased.Mapping):
                 # NOTE: The presence of `unit` is a hack because 'shell'
                 # currently gets a unit of '1' even though it should probably be
                 # None. This hack is due to the design of `axis.Quantity`.
-                return index.Data(targets)
-            self._shell = axis.Indexer(method, len(self.variables['shell']))
+                points = [int(t) for t in targets]
+                return index.Data(points, values=[shells[i] for i in points])
+            shells = range(len(self.variables['shell']))
+            self._shell = axis.Indexer(method, len(shells))
         return self._shell
 
     @property
-- 
2.43.0


From 9d7b33db3e491cc470c5efc62c045b3f81f92480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:38 +0000
Subject: [PATCH 052/125] fix: interpolate to values of one-dimensional energy
 and pitch-angle axes

---
 src/goats/eprem/__init__.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a75200c..3727232 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -454,12 +454,6 @@ class Context(observing.Context):
         ]
         return q[tuple(indices)]
 
-    _axis_indices = {
-        'time': 0,
-        'energy': 1,
-        'mu': 1,
-    }
-
     def _compute_interpolants(self, q: variable.Quantity):
         """Determine the coordinate axes over which to interpolate."""
         coordinates = {}
@@ -476,7 +470,7 @@ class Context(observing.Context):
                         'reference': self.coordinates[dimension],
                     }
         interpolants = {
-            k: {**c, 'axis': self._axis_indices.get(k)}
+            k: {**c, 'axis': c['reference'].ndim - 1}
             for k, c in coordinates.items()
         }
         if 'shell' not in q.dimensions:
-- 
2.43.0


From 5c01ad7e9e07af7fdc890ea8fd858ea90429f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:56 +0000
Subject: [PATCH 053/125] fix: interpolate over radius at each time before
 interpolating over time

---
 src/goats/eprem/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 3727232..0d35fab 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -486,10 +486,14 @@ class Context(observing.Context):
                     floats = [float(values)]
                 else:
                     floats = [float(value) for value in values]
-                interpolants['radius'] = {
-                    'targets': numpy.array(floats),
-                    'reference': self.coordinates['radius'],
-                    'axis': 1,
+                # Radius must come first because its values depend on time.
+                interpolants = {
+                    'radius': {
+                        'targets': numpy.array(floats),
+                        'reference': self.coordinates['radius'],
+                        'axis': 1,
+                    },
+                    **interpolants,
                 }
         return interpolants
 
-- 
2.43.0


From 7898415cdc443e039d8ff9aa612b927d9306408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:16 +0000
Subject: [PATCH 054/125] fix: do not subscript an array after interpolating
 over all of its axes

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 0d35fab..3b1aba3 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -520,7 +520,7 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
-        return self._subscript(base, *dimensions)
+        return self._subscript(base, *dimensions) if dimensions else base
 
     def _interpolate_coordinate(
         self,
-- 
2.43.0


From f4c9e33aa0babee9a16b13f8abeba2f3e977fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:35 +0000
Subject: [PATCH 055/125] fix: interpolate each row of a two-dimensional
 reference array

---
 src/goats/core/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..4234ade 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return arr[:, 0]
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From dc9a246afd676c77cdad389e3f73744ad76c562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:55 +0000
Subject: [PATCH 056/125] fix: multiply factors with different axes in a
 composed observable

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 3b1aba3..4592dfc 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -411,7 +411,7 @@ class Context(observing.Context):
         if len(expression) > 1:
             for term in expression[1:]:
                 result = self.get_observable(term.base)
-                q0 *= result ** term.exponent
+                q0 = q0 * result ** term.exponent
         return q0
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
-- 
2.43.0


From 43d7ed4075ee6e5df38174dfa7c87ba1a5a46968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 057/125] fix: apply the exponent of the first factor to the
 metadata of a composed observable

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..555185f 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -408,7 +408,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         s = str(target)
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
-        built = self.get_attribute(name, term.base)
+        built = self.get_attribute(name, term.base)**term.exponent
         if len(expression) > 1:
             for term in expression[1:]:
                 built *= self.get_attribute(name, term.base)**term.exponent
-- 
2.43.0


From f5a9be42932cd93cb7740ac0902d74c58a6a31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 058/125] fix: collect the parameters of a composed observable

---
 src/goats/core/observing.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 555185f..77e2891 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*names)
 
     __mul__ = merge
     """Called for self * other."""
@@ -392,7 +392,16 @@ class Context(collections.abc.Collection, typing.Generic[T]):
 
     def get_parameters(self, name: str):
         """Compute or retrieve the parameters of a physical quantity."""
-        return Parameters(self.get_metadata('parameters', name))
+        if found := self.get_attribute('parameters', name):
+            return Parameters(*found)
+        s = str(name)
+        expression = symbolic.Expression(reference.NAMES.get(s, s))
+        return Parameters(
+            *[
+                parameter for term in expression
+                for parameter in self.get_attribute('parameters', term.base) or ()
+            ]
+        )
 
     def get_quantity(self, name: str):
         """Retrieve a physical quantity by name, if available."""
-- 
2.43.0


From 9934a3ea002da44e229a67f302e631e9d7373ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:50 +0000
Subject: [PATCH 059/125] fix: keep the metric system of an observer when
 changing its source

---
 src/goats/eprem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 4592dfc..c2bff92 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -708,8 +708,8 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             self._datapath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
-            variables = Variables(dataset, system=system or 'mks')
-            axes = Axes(dataset, system=system or 'mks')
+            variables = Variables(dataset, system=system or self._system)
+            axes = Axes(dataset, system=system or self._system)
             constants = runtime.Interface(self.confpath)
             return Context(variables, axes, constants)
 
-- 
2.43.0


From b27095c9d44c39fab92523447b23c105a897e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:06 +0000
Subject: [PATCH 060/125] fix: accept the name of a metric system in any case
 for observables and axes

---
 src/goats/core/axis.py      | 2 +-
 src/goats/core/index.py     | 2 +-
 src/goats/core/observing.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..003d9df 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -150,7 +150,7 @@ class Quantity(iterables.ReprStrMixin):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 7be25c9..266c2ac 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -169,7 +169,7 @@ class Array(Quantity):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 77e2891..a1edea6 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -524,7 +524,7 @@ class Observable:
     def __getitem__(self, __x: metadata.UnitLike):
         """Create a quantity with the new unit."""
         unit = (
-            self.unit.norm[__x]
+            self.unit.norm[str(__x).lower()]
             if str(__x).lower() in metric.SYSTEMS else __x
         )
         self._target = None
-- 
2.43.0


From f400cff8f845b4f72e29abfb936d41c4acf32478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:24 +0000
Subject: [PATCH 061/125] fix: convert axis values only to a consistent unit

---
 src/goats/core/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 266c2ac..dad5a9d 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -175,8 +175,8 @@ class Array(Quantity):
         if unit == self.unit:
             return self
         new = metadata.Unit(unit)
-        values = self.values * (new // self.unit)
         if self.unit | new:
+            values = numpy.array(self.values) * (new // self.unit)
             return type(self)(
                 Data(self._points, values=values),
                 unit=new,
-- 
2.43.0


From 9153a5bcdee8fbba1635ef1210287a75e83472ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:40 +0000
Subject: [PATCH 062/125] fix: accept axis values in any unit as an observing
 constraint

---
 src/goats/eprem/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c2bff92..be6afd6 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -579,7 +579,8 @@ class Context(observing.Context):
             return self.axes[key].index()
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
-            return this
+            unit = self.axes[key].unit
+            return index.Array(this)[unit] if unit and this.unit else this
         return self.axes[key].index(*iterables.whole(this))
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
-- 
2.43.0


From 59a61c3d0fdd94c2dd9934ddada9297636bb3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 063/125] fix: suggest names of observables for a misspelled
 name

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..8c2870e 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = self.context.keys
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From 49e658ffb6fc1f442ee6a50559ab28367f2eca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 064/125] fix: select the same axis indices as a built-in
 sequence for any slice

---
 src/goats/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 003d9df..58d32e2 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -42,7 +42,7 @@ class Indexer(iterables.ReprStrMixin):
         if not user:
             return range(self.size)
         if isinstance(user[0], slice):
-            return iterables.slice_to_range(user[0], stop=self.size)
+            return range(self.size)[user[0]]
         if isinstance(user[0], range):
             return user[0]
         return user
-- 
2.43.0


From 22b8197146ba64ae37c9d22ff60739f861f98d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:51 +0000
Subject: [PATCH 065/125] fix: accept an axis reference array as an observing
 constraint

---
 src/goats/eprem/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index be6afd6..a08c107 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -580,7 +580,10 @@ class Context(observing.Context):
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             unit = self.axes[key].unit
-            return index.Array(this)[unit] if unit and this.unit else this
+            if unit and this.unit:
+                this = index.Array(this)[unit]
+            data = index.Data(tuple(this), values=this.values)
+            return index.Quantity(data, unit=this.unit)
         return self.axes[key].index(*iterables.whole(this))
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
-- 
2.43.0


From 26d772fbfe013d517e66f5977b1c7d64d195d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:17 +0000
Subject: [PATCH 066/125] fix: refuse an axis value in an inconsistent unit

---
 src/goats/eprem/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a08c107..4019c5b 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -255,8 +255,7 @@ class Axes(aliased.Mapping):
                 # which may be dimensionless, the default unit is the
                 # appropriate unit for both cases.
                 array = physical.Array(measured.data, unit=unit)
-            if array.unit | converted.unit: # Could also use try/except
-                array = array[converted.unit]
+            array = array[converted.unit]
             values = numpy.array(array)
             indices = [
                 numerical.find_nearest(converted, float(value)).index
-- 
2.43.0


From bc1a57c2e55c713e610c1e2b53f4348a6d970302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 067/125] fix: convert an observation to a unit given as a unit
 object

---
 src/goats/core/observing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index a1edea6..da20e1b 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -219,6 +219,8 @@ class Observation:
                 f"{__x!r} must name a context item or a unit."
                 "Use the array property to access data values."
             ) from None
+        if isinstance(__x, metric.Unit):
+            return type(self)(self.data[__x], self._indices, self._assumptions)
         if __x in self._axes:
             return self._axes[__x]
         if __x in self._assumptions:
-- 
2.43.0


From c6ee9ca6708cd66c4417a3748d98943da55cec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 068/125] fix: read parameters with spaces or '=' signs in a
 configuration file

---
 src/goats/eprem/runtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..8d9ebfb 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,12 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = line.strip()
+                if line == '' or line[0] in self.comments:
                     continue
-                key, _tmp = line.split('=')
+                key, _tmp = line.split('=', maxsplit=1)
                 value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                pairs[key.strip()] = value
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From f97214373a2c473a78f950753d0d7458262663cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:52 +0000
Subject: [PATCH 069/125] fix: report the value of a runtime parameter
 regardless of previous observations

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index da20e1b..ab76ad8 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -410,7 +410,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         for mapping in self._mappings:
             if name in mapping:
                 return mapping[name]
-        return self.constraints.get(name)
+        return self._default.get(name)
 
     def get_metadata(self, name: str, target: str):
         """Get a metadata attribute for an arbitrary quantity."""
-- 
2.43.0


From 77bd17d55f68166293eb4f4b1de3a020a5a4909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:25 +0000
Subject: [PATCH 070/125] fix: refuse a data file of an unknown type

---
 src/goats/core/datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..b642730 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,7 +167,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
             return viewers
 
-- 
2.43.0


From 7996ca88d7087b9ececc06434e4a53de16d7c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:44 +0000
Subject: [PATCH 071/125] fix: build variable quantities from a dataset in the
 base interface

---
 src/goats/core/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 9162744..8257efa 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -714,12 +714,12 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
+        built = Quantity(
             __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
+            dimensions=__v.dimensions,
+            unit=__v.unit,
         )
+        return built[str(self.system)] if self.system else built
 
     @property
     def system(self):
-- 
2.43.0


From a4e952dbf0d5722e96a8151e33b9398e860d2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:05 +0000
Subject: [PATCH 072/125] fix: identify datasets by their resolved path

---
 src/goats/core/iotools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..7be102b 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,8 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                # The same relative path may refer to different files.
+                return pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From 3be0ba5c5f38419df8d931a8d69dbdce46465f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:31 +0000
Subject: [PATCH 073/125] fix: keep replaced viewers of one dataset out of
 other datasets

---
 src/goats/core/datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index b642730..25e5ba6 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -169,7 +169,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         except KeyError:
             raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-            return viewers
+            return dict(viewers)
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
-- 
2.43.0


From 38438f6186a74be4d717313b8553e542c62637aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:55 +0000
Subject: [PATCH 074/125] fix: accept a run parameter whose computed default is
 zero

---
 src/goats/eprem/runtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 8d9ebfb..6b11205 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -703,7 +703,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From 0b59ea3e870f3f190470fce49480a7bfda70a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 075/125] fix: use the options for loading a configuration file
 throughout

---
 src/goats/eprem/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 6b11205..45ea520 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -846,7 +846,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
-- 
2.43.0


From 6712cf7305551b2693edaf8c0bdfb98d09cf55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:30 +0000
Subject: [PATCH 076/125] fix: build the variables of axes in the default
 metric system

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 4019c5b..b093820 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -100,7 +100,7 @@ class Axes(aliased.Mapping):
     ) -> None:
         """Initialize this instance."""
         self._system = metric.System(system or 'mks')
-        self._variables = Variables(__data, system=system)
+        self._variables = Variables(__data, system=self._system)
         self._names = __data.available('axes').canonical
         self._time = None
         self._shell = None
-- 
2.43.0


From dce098601d58d13891acce64fb1884bc1a22de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:32 +0000
Subject: [PATCH 077/125] fix: write the whole parameter database before
 returning

---
 src/goats/eprem/runtime.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 45ea520..2e898ed 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1640,13 +1640,15 @@ def generate_defaults(
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    with outpath.open('w') as fp:
+        json.dump(
+            obj,
+            fp,
+            indent=4,
+            sort_keys=True,
+        )
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 7082cc0332ebf2a58173ec78f0da4a5c593cd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:45 +0000
Subject: [PATCH 078/125] fix: compare configuration files outside of the
 working directory

---
 src/goats/eprem/runtime.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 2e898ed..30b210a 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1586,7 +1586,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1608,11 +1608,9 @@ def _build_arg_dict(
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
     """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From 043b70f6e6717bef559c198788b8320909415623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:02 +0000
Subject: [PATCH 079/125] fix: allow comparing configuration files that do not
 differ

---
 src/goats/eprem/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 30b210a..9189b34 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1547,6 +1547,8 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From 1b87fddd01fe34381eb979b99e97308fbd9c759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:07 +0000
Subject: [PATCH 080/125] fix: find the nearest value that satisfies the
 requested bound

---
 src/goats/core/numerical.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..82a81b7 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,19 +107,12 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
-    if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
-    elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+    distance = numpy.abs(array - target)
+    if bound in {'lower', 'upper'}:
+        valid = array >= target if bound == 'lower' else array <= target
+        if valid.any():
+            distance = numpy.where(valid, distance, numpy.inf)
+    index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From ea83e0b90fffed071e4c563053bf234561a1599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 081/125] fix: let a non-strict cast pass over objects of any
 type

---
 src/goats/core/numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 82a81b7..78d1835 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -153,7 +153,7 @@ def cast(
     for t in types:
         try:
             return t(arg)
-        except ValueError:
+        except (ValueError, TypeError):
             pass
     if strict:
         raise TypeError(f"Can't convert {arg!r} to a number") from None
-- 
2.43.0


From 3b769f0ab400005e49963cfe8fed888e5be8b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 082/125] fix: convert single points and arrays of any shape to
 spherical coordinates

---
 src/goats/core/numerical.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 78d1835..1934179 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -206,19 +206,13 @@ def xyz2rtp(*args):
         x, y, z = args
     else:
         raise ArgsNumberError
+    x, y, z = numpy.broadcast_arrays(*(numpy.asfarray(i) for i in (x, y, z)))
     r = numpy.sqrt(x*x + y*y + z*z)
-    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
-    t = numpy.arccos(z/r)
-    t[numpy.asarray(r == 0).nonzero()] = 0.0
+    r = numpy.where(r < sys.float_info.epsilon, 0.0, r)
+    t = numpy.where(r == 0.0, 0.0, numpy.arctan2(numpy.hypot(x, y), z))
     p = numpy.arctan2(y, x)
-    p[numpy.asarray(p < 0.0).nonzero()] += 2*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j >= 0 for (i, j) in zip(x, y)]
-    ).nonzero()] = +0.5*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j < 0  for (i, j) in zip(x, y)]
-    ).nonzero()] = -0.5*numpy.pi
-    return (r, t, p)
+    p = numpy.where(p < 0.0, p + 2*numpy.pi, p)
+    return tuple(i if i.ndim else float(i) for i in (r, t, p))
 
 
 def rtp2xyz(*args):
-- 
2.43.0


From ad8564f94657699b7522fc1d19639d6c0de749e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:12 +0000
Subject: [PATCH 083/125] fix: round a number of any type to zero

---
 src/goats/core/numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 1934179..f87b5b8 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -268,7 +268,7 @@ def zero_floor(
     value: typing.Union[float, numpy.ndarray],
 ) -> typing.Union[float, numpy.ndarray]:
     """Round a small number, or array of small numbers, to zero."""
-    if value.shape:
+    if numpy.shape(value):
         condition = numpy.asarray(
             numpy.abs(value) < sys.float_info.epsilon
         ).nonzero()
-- 
2.43.0


From 52a1668493e09a97bd3cb20fc4cf6dff63978bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:32 +0000
Subject: [PATCH 084/125] fix: correct the first radiation constant in cgs

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From b2dc848fa8a1c29cd06cb54d3d57c6bda310cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:46 +0000
Subject: [PATCH 085/125] fix: give equal alias groups equal hashes

---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b2b1b7e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 2351a478ee9168f294cabce3166ea1e60fa2f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:01 +0000
Subject: [PATCH 086/125] fix: merge each alias group with every group that
 shares a member

---
 src/goats/core/aliased.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b2b1b7e..055133f 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,19 +151,14 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
-                    these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                new = Group(group)
+                shared = [g for g in these if not g.isdisjoint(new)]
+                for g in shared:
+                    these.remove(g)
+                    new = g | new
+                these.append(new)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         for i in __x:
-- 
2.43.0


From d6af7b9bd4958770da136db158c57d704dc1bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 087/125] fix: copy and combine aliased mappings without
 reinterpreting their values

---
 src/goats/core/aliased.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 055133f..df33a59 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -753,8 +753,10 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def __or__(self, other: 'Mapping'):
         """Merge this aliased mapping with another."""
-        items = dict((*self.items(aliased=True), *other.items(aliased=True)))
-        return type(self)(items)
+        new = self.copy()
+        new.as_dict.update(other.items(aliased=True))
+        new._flat_dict = {alias: k for k in new.as_dict for alias in k}
+        return new
 
     def __str__(self) -> str:
         """A simplified representation of this instance."""
@@ -782,7 +784,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
-- 
2.43.0


From c3d88fd79589d84a18a2ee651aea7dc2c0db7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:35 +0000
Subject: [PATCH 088/125] fix: measure every part of an iterable of measurable
 objects

---
 src/goats/core/measurable.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 7a1f50b..9d2be82 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -307,13 +307,14 @@ def ismeasurable(this):
         return True
     if isinstance(args, numbers.Number):
         return True
-    if not isinstance(args, iterables.whole):
+    if not isinstance(args, iterables.whole) or iterables.missing(args):
         return False
     if iterables.allinstance(args, numbers.Number):
         return True
     if isinstance(args[-1], metadata.UnitLike):
-        arg0 = args[0]
-        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
+        values = args[:-1]
+        if len(args) == 2 and isinstance(args[0], iterables.whole):
+            values = args[0]
         if iterables.allinstance(values, numbers.Number):
             return True
     if all(ismeasurable(i) for i in args):
@@ -361,8 +362,13 @@ def parse_measurable(args, distribute: bool=False):
     # Strip redundant lists and tuples.
     unwrapped = iterables.unwrap(args)
 
-    # Raise an error for null input.
-    if iterables.missing(unwrapped):
+    # Handle a single object that knows how to measure itself.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return _wrap_measurable(measured.data, str(measured.unit), distribute)
+
+    # Raise an error for null or purely symbolic input.
+    if iterables.missing(unwrapped) or isinstance(unwrapped, metadata.UnitLike):
         raise Unmeasurable(unwrapped) from None
 
     # Handle a single numerical value:
@@ -387,8 +393,9 @@ def parse_measurable(args, distribute: bool=False):
     if all(isinstance(arg, numbers.Number) for arg in unwrapped):
         return _wrap_measurable(unwrapped, '1', distribute)
 
-    # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
+    # Recursively handle an iterable of distinct items.
+    distinct = (iterables.whole, _Formal, numbers.Number)
+    if n_units == 0 and all(isinstance(arg, distinct) for arg in unwrapped):
         return _callback_parse(unwrapped, distribute)
 
     # Ensure an explicit unit-like object
@@ -399,8 +406,12 @@ def parse_measurable(args, distribute: bool=False):
         return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
     # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
+    values = unwrapped[0]
+    if len(unwrapped) == 2 and isinstance(values, iterables.whole):
+        if iterables.allinstance(values, numbers.Number):
+            return _wrap_measurable(values, unit, distribute)
+
+    raise Unmeasurable(unwrapped) from None
 
 
 def _wrap_measurable(values, unit, distribute: bool):
-- 
2.43.0


From 3ff5e613e361be9788dfb4876b900db54a667e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:07 +0000
Subject: [PATCH 089/125] fix: respect the unit of quantities that constrain an
 axis

---
 src/goats/eprem/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index b093820..d1a1cd4 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -583,6 +583,8 @@ class Context(observing.Context):
                 this = index.Array(this)[unit]
             data = index.Data(tuple(this), values=this.values)
             return index.Quantity(data, unit=this.unit)
+        if isinstance(this, measurable.Quantity):
+            return self.axes[key].index(this)
         return self.axes[key].index(*iterables.whole(this))
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
-- 
2.43.0


From e5834415cc5cd710bc9a1119cd8f8427a13497a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 090/125] fix: refuse a radius whose unit is not a length

---
 src/goats/eprem/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index d1a1cd4..f70d8a7 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -479,6 +479,8 @@ class Context(observing.Context):
             return interpolants
         for key in reference.ALIASES.find('radius'):
             if values := self.get_value(key):
+                if values.unit != '1':
+                    values = values[self.coordinates['radius'].unit]
                 try:
                     iter(values)
                 except TypeError:
-- 
2.43.0


From 32dc439c1c04565b0c337dfb272b301158e9e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:42 +0000
Subject: [PATCH 091/125] fix: apply an observing constraint under each of its
 names

---
 src/goats/core/observing.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index ab76ad8..ffbb289 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -272,6 +272,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
             The default constant observing constraints.
         """
         self._mappings = mappings
+        self._names = constraints
         self._default = dict(constraints or {})
         """Internal mapping of fixed default constraints.
         
@@ -363,10 +364,20 @@ class Context(collections.abc.Collection, typing.Generic[T]):
     def constraints(self):
         """The current set of observing constraints."""
         if self._constraints is None:
-            constraints = {**self._default, **self._user}
+            user = {
+                alias: value for key, value in self._user.items()
+                for alias in self._get_aliases(key)
+            }
+            constraints = {**self._default, **user}
             self._constraints = types.MappingProxyType(constraints)
         return self._constraints
 
+    def _get_aliases(self, key: str) -> typing.Iterable[str]:
+        """Find all the names of a constraint."""
+        if isinstance(self._names, aliased.Mapping) and key in self._names:
+            return self._names.alias(key, include=True)
+        return reference.ALIASES.find(key, [key])
+
     @property
     def observable(self):
         """The names of observable physical quantities."""
-- 
2.43.0


From 1a0475c62cebd74c82cb96919cd6b0eba85e283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:03 +0000
Subject: [PATCH 092/125] fix: refuse a parameter value with an inconsistent
 unit

---
 src/goats/eprem/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index f70d8a7..ae8f852 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -607,9 +607,16 @@ class Context(observing.Context):
             raise ContextKeyError(
                 f"No parameter corresponding to {key!r}"
             ) from None
-        if key in self.constraints:
-            return self._compute_value(self.constraints[key])
-        return self._compute_value(self.constants[key])
+        if key not in self.constraints:
+            return self._compute_value(self.constants[key])
+        value = self._compute_value(self.constraints[key])
+        unit = self.constants[key].unit if key in self.constants else None
+        if unit and value.unit != '1' and not value.unit | unit:
+            raise ValueError(
+                f"The unit of {key!r} must be consistent with {str(unit)!r}"
+                f", not {str(value.unit)!r}"
+            ) from None
+        return value
 
     def _compute_value(self, this):
         """Compute a parameter value."""
-- 
2.43.0


From 0ea6059e339b475162ff0229eec7f32494222320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 093/125] fix: treat each value of an operational argument as
 one value

---
 src/goats/core/operational.py | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..6155311 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -152,48 +152,41 @@ class Argument:
 
     def _cast_to(self, __type: typing.Type[T]) -> T:
         """Internal method for casting to numeric type."""
-        try:
-            nv = len(self.data)
-        except TypeError:
-            nv = 0
-        if nv > 1:
+        nv = len(self)
+        if nv != 1:
             errmsg = f"Can't convert data with {nv} values to {__type}"
             raise NumericCastError(errmsg) from None
-        if nv == 1:
-            return __type(self.data[0])
-        try: # nv == 0
-            return __type(self.data)
+        try:
+            return __type(self._values[0])
         except ValueError as err:
             raise ValueError(f"Can't convert {self!r} to {__type}.") from err
 
-    def __iter__(self) -> typing.Iterator:
-        """Called for iter(self)."""
+    @property
+    def _values(self):
+        """A sequence of this argument's value(s)."""
         try:
-            return iter(self.data)
+            len(self._data)
         except TypeError:
-            return iter([self.data])
+            return [self._data]
+        return self._data
+
+    def __iter__(self) -> typing.Iterator:
+        """Called for iter(self)."""
+        return iter(self._values)
 
     def __len__(self) -> int:
         """Called for len(self)."""
-        try:
-            return len(self.data)
-        except TypeError:
-            return 1
+        return len(self._values)
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
-        data = self.data[index]
-        try:
-            iter(data)
-        except TypeError:
-            iterable = False
-        else:
-            iterable = True
+        data = self._values[index]
         unit = self.unit
+        if not unit:
+            return data
         return (
-            [physical.Scalar(value, unit=unit) for value in data] if iterable
+            [physical.Scalar(value, unit=unit) for value in data]
+            if isinstance(index, slice)
             else physical.Scalar(data, unit=unit)
         )
 
@@ -216,10 +209,13 @@ class Argument:
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-            same_data = other.data == self.data
-            if self.unit:
-                return same_data and other.unit == self.unit
-            return same_data
+            if bool(self.unit) != bool(other.unit):
+                return False
+            if self.unit and other.unit != self.unit:
+                return False
+            other = other.data
+        if self.unit:
+            return numpy.array_equal(other, self.data)
         return other == self.data
 
     def __repr__(self) -> str:
-- 
2.43.0


From c5f87dadcd4c564d86acd78f76c45c9fcf0d6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:19 +0000
Subject: [PATCH 094/125] fix: refuse to measure values with something that is
 not a unit

---
 src/goats/core/measurable.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 9d2be82..8e0405e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -344,9 +344,8 @@ def measure(*args):
     Otherwise, it will attempt to parse `args` into one or more values and a
     corresponding unit.
     """
-    first = args[0]
-    if len(args) == 1 and isinstance(first, _Formal):
-        return first.__measure__()
+    if len(args) == 1 and isinstance(args[0], _Formal):
+        return args[0].__measure__()
     parsed = parse_measurable(args, distribute=False)
     return Measurement(parsed[:-1], parsed[-1])
 
@@ -398,6 +397,10 @@ def parse_measurable(args, distribute: bool=False):
     if n_units == 0 and all(isinstance(arg, distinct) for arg in unwrapped):
         return _callback_parse(unwrapped, distribute)
 
+    # Raise an error for objects that are neither values nor a unit.
+    if n_units == 0:
+        raise Unmeasurable(unwrapped) from None
+
     # Ensure an explicit unit-like object
     unit = ensure_unit(unwrapped)
 
-- 
2.43.0


From 64b75725e5b2adcb0c19191989c6d73a7adbf3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:34 +0000
Subject: [PATCH 095/125] fix: combine measurements with equivalent units

---
 src/goats/core/measurable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 8e0405e..1e6b083 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -436,7 +436,7 @@ def _callback_parse(unwrapped, distribute: bool):
         parse_measurable(arg, distribute=False) for arg in unwrapped
     ]
     units = [item[-1] for item in parsed]
-    if any(unit != units[0] for unit in units):
+    if any(metadata.Unit(unit) != units[0] for unit in units):
         errmsg = "Can't combine measurements with different units."
         raise MeasuringTypeError(errmsg)
     values = [i for item in parsed for i in item[:-1]]
-- 
2.43.0


From 6f9142865b94afdcd51ab289b6819953c5888d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:52 +0000
Subject: [PATCH 096/125] fix: refuse an index beyond the start of a
 measurement

---
 src/goats/core/measurable.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 1e6b083..dedd63b 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
-- 
2.43.0


From 62dbab635cf8494443cee51a2303b00a91c7c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 097/125] fix: refuse to measure an iterable that ends with
 something other than a unit

---
 src/goats/core/measurable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index dedd63b..542536f 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -396,7 +396,7 @@ def parse_measurable(args, distribute: bool=False):
         return _callback_parse(unwrapped, distribute)
 
     # Raise an error for objects that are neither values nor a unit.
-    if n_units == 0:
+    if not isinstance(unwrapped[-1], (str, metadata.Unit)):
         raise Unmeasurable(unwrapped) from None
 
     # Ensure an explicit unit-like object
-- 
2.43.0


From 35d5ab4ee43481b51a958e32dbf608342dad0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:33 +0000
Subject: [PATCH 098/125] fix: report a non-iterable object as unmeasurable

---
 src/goats/core/measurable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 542536f..f2e403d 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -373,6 +373,10 @@ def parse_measurable(args, distribute: bool=False):
         result = (unwrapped, '1')
         return [result] if distribute else result
 
+    # Raise an error for anything else that does not contain values.
+    if not isinstance(unwrapped, iterables.whole):
+        raise Unmeasurable(unwrapped) from None
+
     # Count the number of distinct unit-like objects.
     types = [type(arg) for arg in unwrapped]
     n_units = sum(types.count(t) for t in (str, metadata.Unit))
-- 
2.43.0


From 74732faffadec1358e5c10dd3e018930a08d6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 099/125] fix: accept an iterable of strings or integers as an
 operational argument

---
 src/goats/core/operational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 6155311..a7a898a 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -58,7 +58,7 @@ class Argument:
         if not kwargs and len(args) == 1:
             arg = args[0]
             valid = (numbers.Integral, str, _HasDataAndUnit)
-            if not iterables.hastype(arg, valid, strict=True):
+            if not iterables.hastype(arg, valid, list, tuple, strict=True):
                 raise TypeError(
                     f"An argument of type {type(arg)} requires a unit"
                 ) from None
-- 
2.43.0


From 246c4528bc0bb5d39528e4f87ed3e475f758e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:32 +0000
Subject: [PATCH 100/125] fix: find the unique table entry even if its last
 value is common

---
 src/goats/core/iterables.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..7a14682 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1096,22 +1096,19 @@ class Table(MappingBase):
             search.
         """
         subset = [*self._entries]
-        for n_checked, pair in enumerate(request.items(), start=1):
-            key, value = pair
+        for key, value in request.items():
             if key not in self.keys:
                 raise TableKeyError(key)
             subset = [
                 entry for entry in subset
                 if entry[key] == value
             ]
-            if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
+            if not strict and len(subset) == 1:
+                return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
+        if not strict and request and len(subset) > 1:
+            raise AmbiguousRequestError(request)
         raise TableLookupError(request)
 
 
-- 
2.43.0


From b54ca69e795428c9be1a0d3b22abf879af3c44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 101/125] fix: substitute for subclasses of a guarded exception

---
 src/goats/core/iterables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 7a14682..31b8e55 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1668,8 +1668,11 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[base] for base in type(err).mro()
+                if base in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From 08690697bf13cb0dacd20716407fbecbcd076286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:05 +0000
Subject: [PATCH 102/125] fix: never register an object under an existing key
 by default

---
 src/goats/core/iterables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 31b8e55..a695594 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -851,8 +851,10 @@ class ObjectRegistry(collections.abc.Mapping):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
+                new_default_key = proposed
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From 234d997f057bfa47abd06715c5a06d199bef2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:20 +0000
Subject: [PATCH 103/125] fix: respect a slice that stops at zero

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index a695594..841c384 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -190,7 +190,7 @@ def slice_to_range(s: slice, stop: int=0) -> range:
     if stop is None:
         raise TypeError(f"Cannot convert {s} to a range.")
     start = s.start or 0
-    stop = s.stop or stop
+    stop = stop if s.stop is None else s.stop
     step = s.step or 1
     return range(start, stop, step)
 
-- 
2.43.0


From 2aff6c552b6635df7389516ed1d6b10096666bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 104/125] fix: convert a blank string representation to an
 empty list

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 841c384..4599f5d 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -199,7 +199,7 @@ def string_to_list(string: str) -> list:
     """Convert a string representation of a list to a list"""
     if not (string.startswith('[') and string.endswith(']')):
         raise TypeError(f"Can't convert {string!r} to a list") from None
-    inside = string.strip('[]')
+    inside = string.strip('[]').strip()
     if not inside:
         return []
     items = [item.strip(" ''") for item in inside.split(',')]
-- 
2.43.0


From 2ca6b65d662557e77b620d9f5bc349bb037fd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 105/125] fix: look up members of a uniform mapping without
 recursion

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 4599f5d..f9286c1 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -653,7 +653,7 @@ class UniformMapping(MappingBase):
 
     def __getitem__(self, key: str):
         """Create an instance of the type from the mapping."""
-        if key in self:
+        if key in self._mapping:
             kwargs = {p: self._mapping[key].get(p) for p in self._init}
             return self._type(**kwargs)
         raise KeyError(key) from None
-- 
2.43.0


From 083930e777f17e6c24edc898cb28444401ed156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:55 +0000
Subject: [PATCH 106/125] fix: prevent writing through a read-only path

---
 src/goats/core/iotools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 7be102b..1b45d05 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -1,4 +1,3 @@
-import os
 import pathlib
 import typing
 
@@ -55,7 +54,7 @@ class ReadOnlyPathError(Exception):
         return f"Objects of type {self._obj} are read-only."
 
 
-class ReadOnlyPath(pathlib.Path):
+class ReadOnlyPath(type(pathlib.Path())):
     """A wrapper for read-oriented paths.
     
     This class creates ``pathlib.Path`` objects intended for reading. The instance path is fully resolved with the user wildcard expanded, and raises an exception if the requested path does not exist. 
@@ -71,20 +70,16 @@ class ReadOnlyPath(pathlib.Path):
 
     def __new__(cls, *args, **kwargs):
         """Create a new path object of the appropriate type."""
-        _type = (
-            pathlib.WindowsPath if os.name == 'nt'
-            else pathlib.PosixPath
-        )
-        path = super().__new__(_type, *args, **kwargs)
+        path = super().__new__(cls, *args, **kwargs)
         inst = path.expanduser().resolve()
         if not inst.exists():
             raise NonExistentPathError(inst)
         return inst
 
-    def open(self, *args, **kwargs):
-        if 'w' in args:
+    def open(self, mode: str='r', *args, **kwargs):
+        if any(c in mode for c in 'wax+'):
             raise ReadOnlyPathError(self.__class__)
-        return super().open(*args, **kwargs)
+        return super().open(mode, *args, **kwargs)
 
     def write_bytes(self, *args, **kwargs):
         raise ReadOnlyPathError(self.__class__)
-- 
2.43.0


From c898bb8d705aadedc61f9c7031ba1b92bdffc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 107/125] fix: find files in the current directory at the time
 of the search

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 1b45d05..4b2af44 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -198,7 +198,7 @@ def search(paths: typing.Iterable[PathLike], file: PathLike):
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike='.',
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
     d = ReadOnlyPath(directory)
-- 
2.43.0


From a338fb64bc8100ae455c69162996f7acb9add54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 108/125] fix: suggest names that lack only their last letter

---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From b028227adfd362cb222f0d43bf4b92a55077a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 109/125] fix: observe a quantity that has any of the given
 names

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 8c2870e..e6cd1ab 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -78,7 +78,7 @@ class Interface:
         """True if this interface can observe the named quantity."""
         if isinstance(name, str):
             return self._observes(name)
-        return next((self._observes(key) for key in name), False)
+        return any(self._observes(key) for key in name)
 
     def _observes(self, key: str):
         """Internal helper for `~Interface.observes`."""
-- 
2.43.0


From 13cfd6620e1ccf25093c13f7ee8d279132bc872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 110/125] fix: keep the order of operands when an iterable
 comes before a name

---
 src/goats/core/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index fcaca48..a933883 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -663,7 +663,7 @@ class Name(collections.abc.Collection, Attribute):
             """Symbolically combine `a` and `b`."""
             x, y = (b, a) if reverse else (a, b)
             if isinstance(y, typing.Iterable) and not isinstance(y, str):
-                return Name([f'{i}{symbol}{j}' for i in x for j in y])
+                return Name([f'{i}{symbol}{j}' for i in a for j in b])
             try:
                 fixed = fractions.Fraction(y)
             except ValueError:
-- 
2.43.0


From 5a0cb9350de3938c16ad0c809d09eab8565b1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 111/125] fix: treat a real-valued 1 like an integral 1 in
 names

---
 src/goats/core/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a933883..8edea6e 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -683,7 +683,7 @@ class Name(collections.abc.Collection, Attribute):
                     return self
             if that == self:
                 return Name([f'{i}{symbol}{i}' for i in self])
-            if str(that) == '1':
+            if str(that) == '1' or that == 1:
                 return Name([str(i) for i in self])
             return compute(that, self) if reverse else compute(self, that)
         s = f"other {symbol} self" if reverse else f"self {symbol} other"
-- 
2.43.0


From c0195e9ea440c5c26ed0a556d47610403ce97417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:22 +0000
Subject: [PATCH 112/125] fix: suppress several type specifications as
 documented

---
 src/goats/core/metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 8edea6e..6813ec0 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -250,9 +250,12 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
             specifications. This option can simplify method calls for binary
             operations; it has no effect on unary operations.
         """
-        self.suppressed.add(types)
-        if symmetric:
-            self.suppressed.add(types[::-1])
+        grouped = all(isinstance(t, (list, tuple)) for t in types)
+        these = types if grouped else [types]
+        for this in these:
+            self.suppressed.add(tuple(this))
+            if symmetric:
+                self.suppressed.add(tuple(this[::-1]))
         return self
 
     def support(self, *types: Types, symmetric: bool=False):
-- 
2.43.0


From 4248bcbdb18265f87cc427a0c598be03389e9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:38 +0000
Subject: [PATCH 113/125] fix: accept type specifications given as lists

---
 src/goats/core/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 6813ec0..32ceaff 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -294,9 +294,9 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
                     f"Can't add a length-{ntypes} rule to a collection"
                     f" of length-{self.nargs} rules."
                 ) from None
-            self.supported.add(this)
+            self.supported.add(tuple(this))
             if symmetric:
-                self.supported.add(this[::-1])
+                self.supported.add(tuple(this[::-1]))
         return self
 
     def supports(self, *types: Types):
-- 
2.43.0


From 428b1145ffdfaf882228b09d1d59e4feb0e788aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 114/125] fix: copy the supported and suppressed types of an
 operation

---
 src/goats/core/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 32ceaff..db70d65 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -211,11 +211,15 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
 
     def copy(self):
         """Create a deep copy of this operation."""
-        return Operation(
+        new = Operation(
             self._type,
             *self.parameters,
             name=self.name,
         )
+        new.supported = set(self.supported)
+        new.suppressed = set(self.suppressed)
+        new.nargs = self.nargs
+        return new
 
     def update(self, *parameters: str):
         """Update the names of metadata attributes."""
-- 
2.43.0


From 7d0cfbb172acb4f57f03375ccf718ce4d12254cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:12 +0000
Subject: [PATCH 115/125] fix: register each metadata attribute once per
 operation

---
 src/goats/core/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index db70d65..0c7fa52 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -409,8 +409,9 @@ class OperatorFactory(collections.abc.Mapping):
 
     def register(self, *names: str):
         """Register additional names of metadata attributes."""
+        operations = self.operations
         self._parameters.extend(iterables.unique(*names))
-        for operation in self.operations.values():
+        for operation in operations.values():
             operation.update(*names)
         return self
 
-- 
2.43.0


From 0ace7d4485e4aff4ae987209f1fbdbc6585294ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:52 +0000
Subject: [PATCH 116/125] fix: report a scale mismatch between units of one
 dimension in any system

---
 src/goats/core/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 0c7fa52..03c895f 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -607,7 +607,7 @@ class Unit(metric.Unit, Attribute):
             return self
         if isinstance(other, Unit):
             errmsg = "The units '{}' and '{}' have different {}"
-            if self.dimensions == other.dimensions:
+            if self | other:
                 raise ScaleMismatch(
                     errmsg.format(self, other, 'scale factors')
                 ) from None
-- 
2.43.0


From dc155108dd5dbecb68bee8755b383451ffd1ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:32 +0000
Subject: [PATCH 117/125] fix: update each operation once, whatever its number
 of names

---
 src/goats/core/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 03c895f..5390664 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -411,7 +411,7 @@ class OperatorFactory(collections.abc.Mapping):
         """Register additional names of metadata attributes."""
         operations = self.operations
         self._parameters.extend(iterables.unique(*names))
-        for operation in operations.values():
+        for operation in operations.values(aliased=True):
             operation.update(*names)
         return self
 
-- 
2.43.0


From e1eaf296f81f2185f21f55ea4f17b33c9ff07951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:54 +0000
Subject: [PATCH 118/125] fix: leave an existing axis intact when creating an
 axis from it

---
 src/goats/core/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 58d32e2..7f23d8b 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -99,6 +99,8 @@ class Quantity(iterables.ReprStrMixin):
         return super().__new__(cls)
 
     def __init__(self, __a: Indexer, unit=None) -> None:
+        if __a is self:
+            return
         self._indexer = __a
         self._unit = metadata.Unit(unit) if unit else None
         self._reference = None
-- 
2.43.0


From cf29571ed57b08bc881b133dff146ca32526a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:34 +0000
Subject: [PATCH 119/125] fix: compare observations with observations

---
 src/goats/core/observing.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index ffbb289..b5589cd 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -229,10 +229,18 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
-            return all(
-                getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+        if isinstance(__o, Observation):
+            return (
+                self.data == __o.data
+                and self._assumptions == __o._assumptions
+                and set(self._axes) == set(__o._axes)
+                and all(
+                    # Species symbols are not numerical, so there may not be a
+                    # numerical array of axis values.
+                    this.unit == __o._axes[k].unit
+                    and numpy.array_equal(this.data, __o._axes[k].data)
+                    for k, this in self._axes.items()
+                )
             )
         return NotImplemented
 
-- 
2.43.0


From c06ce70cf3901df689f6a3a91ac031a8c76f5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:05 +0000
Subject: [PATCH 120/125] fix: compute the hash of parameters

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index b5589cd..4541a47 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -89,7 +89,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __hash__(self):
         """Support use as a mapping key."""
-        return hash(self._names)
+        return hash(frozenset(self._names))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From dfe15d44625c663f3a0ee963e717daee5fa16faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 121/125] fix: refuse term indices below the start of an
 expression

---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 443557f..5765f1c 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1468,7 +1468,7 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
             idx = int(index)
-            if idx > len(self):
+            if not -len(self) <= idx < len(self):
                 raise IndexError(index)
             if idx < 0:
                 idx += len(self)
-- 
2.43.0


From 5b6cf37252351113e6d0ddf23fa4c735479fd1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 122/125] fix: keep the coefficient when applying a function to
 the bases of an expression

---
 src/goats/core/symbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 5765f1c..5d7110d 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -4,6 +4,7 @@ import collections.abc
 import fractions
 import functools
 import itertools
+import math
 import numbers
 import re
 from operator import attrgetter
@@ -1645,7 +1646,8 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
         result = bases[0] ** exponents[0]
         for base, exponent in zip(bases[1:], exponents[1:]):
             result *= base ** exponent
-        return result
+        coefficient = math.prod(term.coefficient for term in self)
+        return result if coefficient == 1 else coefficient * result
 
 
 algebraic.Multiplicative.register(Expression)
-- 
2.43.0


From 035c66328939243477ecb65e658291340fd22b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:44 +0000
Subject: [PATCH 123/125] fix: apply a common dimension to every metric system
 in Dimensions

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index f606847..2a65d30 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2494,8 +2494,8 @@ class Dimensions(typing.Mapping, iterables.ReprStrMixin):
         **systems
     ) -> typing.Dict[str, typing.Optional[Dimension]]:
         """Create dimension objects from arguments."""
-        created = dict.fromkeys(SYSTEMS)
         default = Dimension(common) if common else None
+        created = dict.fromkeys(SYSTEMS, default)
         updates = {
             system: Dimension(expressable) if expressable else default
             for system, expressable in systems.items()
-- 
2.43.0


From dd9b03f7de3b470bf7d22dcac2e536537993aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 124/125] fix: accept a run parameter whose given value is a
 zero of another numeric type

---
 src/goats/eprem/runtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9189b34..99203d0 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -683,7 +683,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
-- 
2.43.0


From d9cb0c12e6167eefeca8835829f9b3c7bb1ac38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:50 +0000
Subject: [PATCH 125/125] fix: keep the perpendicular speed real where the flow
 is along the field

---
 src/goats/core/computed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 1024ba0..f93588a 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -132,7 +132,8 @@ def v_perp(
     """The velocity-field component parallel to the magnetic field."""
     mag = v_mag(vr, vt, vp)
     para = v_para(vr, vt, vp, br, bt, bp)
-    return numpy.sqrt(mag**2 - para**2)
+    # Round-off may make the difference slightly negative.
+    return numpy.sqrt(numpy.maximum(mag**2 - para**2, 0.0))
 
 
 @registry.register
-- 
2.43.0

