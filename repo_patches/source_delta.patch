From 3f894b9e5ddb4cb38c10891157ecb24c355a8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 01/82] fix: integer_sqrt: floating point square root is not
 exact up to 2**60

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..676c704 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -524,8 +524,8 @@ def integer_sqrt(n):
     if n in (0, 1):
         return n
 
-    # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    # if n is small enough that floating point is exact, compute the square root and round
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From 4947547bc5acbf9252a4fa4ffb9105c158314394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 02/82] fix: power_mod: a**0 is 1 also when m divides a

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 676c704..9486057 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From 462c6ece857eb16813ae4f61c962fc059796a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 03/82] fix: valuation: take absolute values before comparing p
 and n

---
 rosemary/number_theory/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 9486057..8c9f5b1 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -790,11 +790,12 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
+    p = abs(p)
+    n = abs(n)
+
     if n % p != 0 or p > n:
         return 0
 
-    p = abs(p)
-    n = abs(n)
     pk = p
     hi = 1
 
-- 
2.43.0


From c82972830cc5784853340f5e097ee734898a6bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 04/82] fix: gcd_list, lcm_list: a single negative element
 gives a nonnegative result

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 8c9f5b1..1beac51 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From 80b51d64e532823f034e3c417cf90be96a23f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 05/82] fix: chinese: reduce the solution of a single
 congruence

---
 rosemary/number_theory/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 1beac51..ef34e43 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -580,6 +580,7 @@ def chinese(congruences):
         Algebraic Number Theory" by Cohen.
     """
     (x, m) = congruences[0]
+    x = x % m
     rest = congruences[1:]
 
     for (xi, mi) in rest:
-- 
2.43.0


From 3a28f654278ad269a3594cb9d5638a9ac87a36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 06/82] fix: lmo_bit: use exact integer roots, handle x < 8

---
 rosemary/number_theory/primes/prime_counting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..d46d6ef 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,17 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    # There must be at least one prime <= x**(1/3) below.
+    if x < 8:
+        return bisect(_PRIME_LIST, x)
+
+    root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = integer_nth_root(3, x)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_sqrt(x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From 810dd3c1bef887939bc4d55bd7a30c2151e801fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 07/82] fix: lehmer: the sieved primes determine pi(x) for all
 x <= root

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index d46d6ef..32363c3 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From 6174a7f5451c5cb278bb9b1c7b1525dd85fe4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 08/82] fix: pi_table: handle n < 2

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 32363c3..7f2e977 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -454,7 +454,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From 8cb0bc947c3cd98ceeddb3efbbb0bf627f385b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 09/82] fix: next_prime, next_probable_prime: the smallest
 prime > n is 2 for every n < 2

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..aae83ac 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From 2e8014a9349ca487d8b5a9d42fd5ff9790831732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 10/82] fix: prime_range: yield exactly the primes in [a, b)

---
 rosemary/number_theory/primes/sieves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..9001a27 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -518,7 +518,7 @@ def prime_range(a, b=None):
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
-        prime_list = primes(b)
+        prime_list = primes(b - 1)
         idx = bisect_left(prime_list, a)
         for i in range(idx, len(prime_list)):
             yield prime_list[i]
@@ -531,7 +531,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From 179c590db1f1aecd0b96cafcc699affe4a829cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 11/82] fix: fermat: find the factor of an odd square, never
 return the trivial divisor 1

---
 rosemary/number_theory/factorization/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..c1d4992 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,10 +137,14 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    root = integer_sqrt(n)
+    if root*root < n:
+        root += 1
+
+    for a in range(root, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From 8386a2c0711975b223099dcb929b022a5189d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 12/82] fix: lehman: find the factor of 4 and 6

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index c1d4992..83e9d95 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -190,7 +190,7 @@ def lehman(n):
     """
     # first, we trial divide up to floor(n^(1/3))
     bound = integer_nth_root(3, n)
-    d = trial_division(n, bound)
+    d = trial_division(n, max(bound, 2))
     if d < n:
         return d
 
-- 
2.43.0


From 16a11434eaa2c42277556134ac94fcdc6106e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 13/82] fix: cfrac: handle the case where k*n is a perfect
 square

---
 rosemary/number_theory/factorization/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 83e9d95..08ddbda 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -502,6 +502,12 @@ def cfrac(n, k=None):
         if n % p == 0:
             return p
 
+    # The continued fraction of sqrt(kn) is finite if kn is a perfect square.
+    root = integer_sqrt(kn)
+    if root*root == kn:
+        d = gcd(root, n)
+        return d if 1 < d < n else None
+
     # Our factor base needs to include -1 and 2, and the odd primes p for
     # which (kN|p) = 0 or 1.
     factor_base = [-1]
-- 
2.43.0


From c8437d4980fc184273b1a336a4d713c04ca0a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 14/82] fix: is_probable_prime: use enough bases to reject
 341550071728321 and 3825123056546413051

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index aae83ac..9bb7195 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,7 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 44)))
 
 
 def is_prime(n):
-- 
2.43.0


From b641740c7c647c0b8422d98779bc6044881e09e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 15/82] fix: divisors and friends: accept the empty
 factorization of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..ea7b87a 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -187,7 +187,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -234,7 +234,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
@@ -279,7 +279,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -312,7 +312,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -331,7 +331,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From 25fa69f9728bd0b3c69854593493c954c947c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 16/82] fix: divisor_pairs, unitary_divisors: do not require n
 next to its factorization, list 1 once

---
 rosemary/number_theory/factorization/factorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index ea7b87a..f07e5d9 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -237,6 +237,7 @@ def divisor_pairs(n=None, factorization=None):
         if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
+    n = factor_back(factorization)
     div_list = divisors(n, factorization=factorization)
 
     pairs = []
@@ -335,9 +336,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = [1]
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(1, len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 7129831789b53876177b41d680c5d892d34a6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 17/82] fix: factor: fall back to Pollard rho when cfrac finds
 no factor

---
 rosemary/number_theory/factorization/factorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index f07e5d9..9ccf6a6 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -69,7 +69,9 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
 
     _is_prime = is_probable_prime
     if use_cfrac:
-        _factor = algorithms.cfrac
+        def _factor(m):
+            # cfrac does not always succeed
+            return algorithms.cfrac(m) or algorithms.pollard_rho_brent(m)
     else:
         _factor = algorithms.pollard_rho_brent
 
-- 
2.43.0


From 56514d3f242726ecec0ad96a0cf853596e0c1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 18/82] fix: factor: negative n with power detection

---
 .../number_theory/factorization/factorization.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 9ccf6a6..c016b4d 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -78,6 +78,13 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     if n == 0:
         raise ValueError("Prime factorization of 0 not defined")
 
+    # Take care of the sign
+    if n < 0:
+        sign = [(-1, 1)]
+        n *= -1
+    else:
+        sign = []
+
     # Detect perfect powers.
     if not skip_power_detection:
         ab = rosemary.number_theory.classification.is_power(n)
@@ -88,11 +95,6 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     else:
         (n, multiplier) = (n, 1)
 
-    # Take care of the sign
-    if n < 0:
-        fac[-1] = 1
-        n *= -1
-
     # Strip off all small factors of n
     for p in _PRIME_LIST:
         if n == 1:
@@ -120,7 +122,7 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
                 n = n // d
 
     factorization = sorted([(p, fac[p]*multiplier) for p in fac])
-    return factorization
+    return sign + factorization
 
 
 def factor_back(fac):
-- 
2.43.0


From a2c9db4fe8fe294a87039e35d02b60f8c23b7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 19/82] fix: lehman: start at the least a with a^2 >= 4kn

---
 rosemary/number_theory/factorization/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 08ddbda..0a76df5 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -205,6 +205,8 @@ def lehman(n):
         # and a = r (mod m)
         fkn = 4*k*n
         a = integer_sqrt(fkn)
+        if a*a < fkn:
+            a += 1
         # now, increase a until a = r (mod m)
         rm = r % m
         while a % m != rm:
-- 
2.43.0


From 98ab1a110f17a723b7ac43d5104395fbbd3dd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 20/82] fix: euler_phi_inverse: accept the empty factorization
 of 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..b956ce2 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,6 +51,8 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
+    elif isinstance(n, list) and n == []:
+        return [1, 2]
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
         n = factor.factor_back(n_factorization)
-- 
2.43.0


From d077b979894fb5338cfd4ed7eac358a6802273f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 21/82] fix: inverse_phi: do not change the dict being
 iterated, include phi(1) = 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index b956ce2..d2a8144 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -105,16 +105,14 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1].append(1)
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache.keys()):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From d9a752ee2b0f4aa8255db727f62b2aaa58d3de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 22/82] fix: sqrts_mod_n: modulus 1

---
 rosemary/number_theory/zn_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..83579c4 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -477,6 +477,9 @@ def sqrts_mod_n(a, n, n_factorization=None):
         >>> sqrts_mod_n(-1, 5**3*7**2)
         []
     """
+    if n == 1:
+        return [0]
+
     if n_factorization is None:
         n_factorization = factor.factor(n)
 
-- 
2.43.0


From d31329eb9eac89fb4da299421acc70fd0f04fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 23/82] fix: multiplicative_order: modulus 1

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 83579c4..3d54737 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -726,7 +726,7 @@ def multiplicative_order(
 
     # Guaranteed to exist since (a, n) = 1
     for d in phi_divisors:
-        if pow(a, d, n) == 1:
+        if pow(a, d, n) == 1 % n:
             return d
 
 
-- 
2.43.0


From 2646836c3d10ed507c55993bc8c46354fe2ed2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 24/82] fix: quadratic_congruence: zero leading coefficient,
 modulus 1

---
 rosemary/number_theory/zn_arithmetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 3d54737..c4a48f8 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -820,6 +820,12 @@ def quadratic_congruence(coeff_list, n, n_factorization=None):
         n_factorization = factor.factor(n)
 
     (a, b, c) = coeff_list
+    if n == 1:
+        return [0]
+
+    if a == 0:
+        return linear_congruence(b, -c, n)
+
     discriminant = b*b - 4*a*c
     all_roots = []
 
-- 
2.43.0


From dc30aa9b8ccb0e86c684c6c2231d0568928f70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:24 +0000
Subject: [PATCH 25/82] fix: sqrts_mod_p: reduce D**m mod p, m can be as large
 as the 2-part of p - 1

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index c4a48f8..c4af838 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -329,7 +329,7 @@ def sqrts_mod_p(a, p):
         m = 0
 
         for i in range(s):
-            if pow(A*D**m, 2**(s - 1 - i), p) == p - 1:
+            if pow(A*pow(D, m, p), 2**(s - 1 - i), p) == p - 1:
                 m += 2**i
 
         x = pow(a, (t + 1)//2, p)*pow(D, m//2, p) % p
-- 
2.43.0


From d3e90b67a3daa6ab5e3b267b588d090ee084f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 26/82] fix: QuadraticIrrational: floor of (P + sqrt(D))/Q for
 negative Q

---
 rosemary/number_theory/continued_fractions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..c3adb2e 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -66,7 +66,9 @@ class QuadraticIrrational(object):
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            # Here r < sqrt(D) < r + 1, so the floor of (P + sqrt(D))/Q depends
+            # on the sign of Q.
+            a = (P + r)//Q if Q > 0 else (P + r + 1)//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From 16ed3af912b1837eab6fd14127692f1e7cfd7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 27/82] fix: QuadraticIrrational: remember the scaled pair the
 expansion starts from

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index c3adb2e..f4a3a6e 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -62,7 +62,7 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-- 
2.43.0


From 0569381c858524663525dc11ff4b88162e2a2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 28/82] fix: QuadraticIrrational: show p, not q, when q is 1

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index f4a3a6e..575f19d 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -30,7 +30,7 @@ class QuadraticIrrational(object):
                 s = "sqrt({})/{}".format(self.d, self.q)
         else:
             if self.q == 1:
-                s = "{} + sqrt({})".format(self.q, self.d)
+                s = "{} + sqrt({})".format(self.p, self.d)
             else:
                 s = "({} + sqrt({}))/{}".format(self.p, self.d, self.q)
 
-- 
2.43.0


From 27e0388b8b995ac9463688b01f3f981805ca2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 29/82] fix: PellEquation.resolvent_solution: D and n were
 undefined names

---
 .../number_theory/diophantine_equations/pell.py  | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..2fb432f 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -14,7 +14,7 @@ class PellEquation(object):
     def __repr__(self):
         return "Pell Equation x^2 - {}*y^2 = {}".format(self.D, self.N)
 
-    def resolvent_solution(self):
+    def resolvent_solution(self, n=1):
         r"""Returns the fundamental solution to the Pell equation
         x**2 - D*y**2 == n, where n in (-1, 1).
 
@@ -74,19 +74,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
-        if D <= 0 or is_square(D) or n not in (1, -1):
-            raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
-
-        contfrac = QuadraticIrrational(D)
-
-        # No solution for n == -1 if the period length is even.
-        if n == -1 and contfrac.period_length % 2 == 0:
-            raise ValueError("pell_fundamental_solution: Solution nonexistent.")
-
-        # Otherwise, solutions always exist for D not a perfect square.
-        for (x, y) in contfrac.convergents():
-            if x*x - D*y*y == n:
-                return (x, y)
+        return pell_fundamental_solution(self.D, n)
 
 
 def pell_fundamental_solution(D, n=1):
-- 
2.43.0


From b4210976f0e963d4e0942c78d8f94e1f03aefb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 30/82] fix: pell_minimal_positive_solutions: exact bound,
 floats overflow for large fundamental solutions

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 2fb432f..9f28a21 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -1,5 +1,6 @@
 from rosemary.number_theory.classification import is_square
 from rosemary.number_theory.continued_fractions import QuadraticIrrational
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.zn_arithmetic import sqrts_mod_n
 
 
@@ -238,10 +239,10 @@ def pell_minimal_positive_solutions(D, N):
 
     if N > 0:
         # See Theorem 7.1 in [2]
-        B = int(((u + 1)*N / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u + 1)*N // 2) + 1
     else:
         # See Theorem 7.2 in [2]
-        B = int(((u - 1)*(-N) / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u - 1)*(-N) // 2) + 1
 
     # We can proceed in two different ways at this point:
     # 1) We can check all values of y in the range described in Theorems
-- 
2.43.0


From c9577d5e2b5e477085200d26e1954188ee3a413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 31/82] fix: pell_minimal_positive_solutions: classes whose
 least solution has x = 0 or y = 0

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 9f28a21..61d0319 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -261,7 +261,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -277,6 +277,9 @@ def pell_minimal_positive_solutions(D, N):
             else:
                 (p, q) = (x, y)
             p, q = p*u + q*v*D, p*v + q*u
+        elif x == 0 or y == 0:
+            # This solution is not positive, but the next one in its class is.
+            p, q = x*u + y*v*D, x*v + y*u
         else:
             (p, q) = (x, y)
         minimal_positive_solutions.append((p, q))
-- 
2.43.0


From ba6683f3a32ce4b71911516beda18038b160e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 32/82] fix: largest_divisor: import factor, form every product
 of each half

---
 rosemary/number_theory/misc.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..a5e9efa 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,7 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
-
+from rosemary.number_theory.factorization.factorization import factor
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
 
@@ -31,25 +30,18 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
-    L = []
-    for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
-
-    k = len(L) // 2
-    P1 = L[:k]
-    P2 = L[k:]
+    n_factorization = factor(n)
+    k = len(n_factorization) // 2
+    P1 = n_factorization[:k]
+    P2 = n_factorization[k:]
 
     # Form all of the products in each half
     prods1 = [1]
-    for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in P1:
+        prods1 = [x*p**i for x in prods1 for i in range(e + 1) if x*p**i <= b]
     prods2 = [1]
-    for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in P2:
+        prods2 = [x*p**i for x in prods2 for i in range(e + 1) if x*p**i <= b]
 
     prods1.sort()
     prods2.sort(reverse=True)
-- 
2.43.0


From 7b35d68d73f4a366bf4ed3a4fd9e3a72d9c75737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 33/82] fix: bernoulli_list: n = 0

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index a5e9efa..0d81f29 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -152,7 +152,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n >= 1:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From 1de490585de8eec029bf5e4a31ae3c724974fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 34/82] fix: longest_ap: pairs that end in the last element

---
 rosemary/number_theory/arithmetic_progressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..d428b8a 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -70,8 +70,8 @@ def longest_ap(A):
         >>> longest_ap(p_list)
         [(199, 409, 619, 829, 1039, 1249, 1459, 1669, 1879, 2089)]
     """
-    L = {}
     n = len(A)
+    L = {(i, n - 1): 2 for i in range(n - 1)}
     longest = 2
 
     for j in range(n - 2, 0, -1):
-- 
2.43.0


From 1e71d1a273475062eab9215d2db8d3de17bf049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 35/82] fix: Matrix.__mul__: dimensions of the product

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..8b5d3b2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -207,7 +207,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From 5659f72ad68364cb9df475e4f91d18a6915d008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 36/82] fix: Matrix.__rmul__: compute other*self

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8b5d3b2..1fee67a 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -246,13 +246,13 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*other_ncols for _ in range(nrows)]
+        result = [[0]*ncols for _ in range(other_nrows)]
 
         for i in range(other_nrows):
             for j in range(ncols):
                 total = 0
                 for k in range(other_ncols):
-                    total += entries[i][k]*other_entries[k][j]
+                    total += other_entries[i][k]*entries[k][j]
                 result[i][j] = total
 
         return parent_class(result)
-- 
2.43.0


From e47352e633ea65e70f02af8e4856ddf7208a284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 37/82] fix: Matrix addition and subtraction: compare the
 dimensions of both operands

---
 rosemary/algebra/matrices/matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 1fee67a..1ded303 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
@@ -163,6 +163,10 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From 0a680f4a2fc736ccdbc829e44b1e96086894c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 38/82] fix: Matrix.determinant: do not change the matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 1ded303..0b514a3 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -317,7 +317,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From e39593c183239a54c4b3e394ec576420c77c00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 39/82] fix: Matrix.determinant: a pivot in the last row, a
 zero pivot in the last column

---
 rosemary/algebra/matrices/matrices.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 0b514a3..8f6ca21 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -326,10 +326,9 @@ class Matrix(object):
                 for i in range(k + 1, ncols):
                     if m[i][k] != 0:
                         break
-
-                # If no nonzero entry was found in column k, then the
-                # determinant is zero.
-                if i == ncols - 1:
+                else:
+                    # If no nonzero entry was found in column k, then the
+                    # determinant is zero.
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From 294eb0cef6e3e9c9e082512627bd8e21d1ed3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 40/82] fix: Matrix.determinant: floor division is not exact
 for rational entries

---
 rosemary/algebra/matrices/matrices.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8f6ca21..a6bd97c 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -338,7 +338,11 @@ class Matrix(object):
             for i in range(k + 1, ncols):
                 for j in range(k + 1, ncols):
                     # This is exact division.
-                    m[i][j] = (pivot*m[i][j] - m[i][k]*m[k][j])//den
+                    value = pivot*m[i][j] - m[i][k]*m[k][j]
+                    if isinstance(value, int) and isinstance(den, int):
+                        m[i][j] = value//den
+                    else:
+                        m[i][j] = value/den
             den = pivot
         return sign*m[ncols - 1][ncols - 1]
 
-- 
2.43.0


From 2261e2b900ba59e07e8ea4288b4ee48c7bfdaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 41/82] fix: Matrix: copy the rows, do not share them with the
 argument

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index a6bd97c..5e6caff 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
-- 
2.43.0


From d51ad885f0848fb4180ad9f7da7c72b44fcb0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 42/82] fix: Polynomial.__sub__: subtract a coerced operand

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From f0e5d99c23a4ec770325aeedd55f6842953c8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 43/82] fix: Polynomial: the degree of the zero polynomial is
 -1

---
 rosemary/algebra/polynomials/polynomials.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..b0a8923 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -52,11 +52,8 @@ class Polynomial(object):
             else:
                 coeffs = [L]
                 num_coeffs = 1
-        if num_coeffs == 0:
-            if coeffs[0] == 0:
-                self.degree = -1
-            else:
-                self.degree = 0
+        if num_coeffs == 1 and coeffs[0] == 0:
+            self.degree = -1
         else:
             self.degree = num_coeffs - 1
         self._coefficients = coeffs
-- 
2.43.0


From d9b39ca40e516294701ea6c316262b5fc04c4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 44/82] fix: power_jcp: powers of the zero polynomial

---
 rosemary/algebra/polynomials/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..6aab57c 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -129,6 +129,10 @@ def power_jcp(A, k):
         >>> power_jcp(L, 2)
         [1, 6, 13, 12, 4]
     """
+    if not any(A):
+        # The zero polynomial.
+        return [1] if k == 0 else [0]
+
     shift = 0
     while A[shift] == 0:
         shift += 1
-- 
2.43.0


From 667bae37ce33f71f77ab1cd601933850b157a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 45/82] fix: power_jcp: floor division is not exact for
 rational coefficients

---
 rosemary/algebra/polynomials/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 6aab57c..759efd3 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -147,7 +147,10 @@ def power_jcp(A, k):
         ss = 0
         for j in range(1, min(n, i + 1)):
             ss += B[j] * ((k + 1) * j - i) * P[i - j]
-        P[i] = ss // (i * a0)
+        if isinstance(ss, int) and isinstance(a0, int):
+            P[i] = ss // (i * a0)
+        else:
+            P[i] = ss / (i * a0)
     return [0]*shift*k + P
 
 
-- 
2.43.0


From 431a0b038f86799a58da6f224af91e59aaddb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 46/82] fix: Polynomial.quo_rem: every quotient coefficient
 must be integral, not only the leading one

---
 rosemary/algebra/polynomials/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index b0a8923..73714c0 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -358,9 +358,9 @@ class Polynomial(object):
         lc = b[l - 1]
         r = a[0:k]
         q = [0] * (k - l + 1)
-        if a[k - 1] % lc != 0:
-            raise ValueError("Non-Integral Coefficients")
         for i in range(k - l, -1, -1):
+            if r[i + l - 1] % lc != 0:
+                raise ValueError("Non-Integral Coefficients")
             q[i] = r[i + l - 1] // lc
             for j in range(l):
                 r[i + j] -= q[i] * b[j]
-- 
2.43.0


From 42cb9c314992b836c357f0cd80d9edf305b0abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 47/82] fix: Polynomial.gcd: update the degree difference, keep
 the class of the remainders

---
 rosemary/algebra/polynomials/polynomials.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 73714c0..c901d63 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -379,28 +379,27 @@ class Polynomial(object):
         by Cohen, or Algorithm C in section 4.6.1 of "The Art of Computer
         Programmming: Vol II" by Knuth.
         """
+        if self.degree < other.degree:
+            return other.gcd(self)
+
+        parent_class = self.__class__
         d = gcd(self.content(), other.content())
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
-
-        if dd < 0:
-            return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return parent_class([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = parent_class([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
-            if dd > 1:
+            if dd > 0:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From 9495af209bb4a01d4b9af638b9c4aef6a0453ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 48/82] fix: PolyZZ: primitive part of zero, gcd with zero

---
 rosemary/algebra/polynomials/polynomials.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index c901d63..4ab81b3 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -383,6 +383,9 @@ class Polynomial(object):
             return other.gcd(self)
 
         parent_class = self.__class__
+        if other == 0:
+            return self if self.lead_coeff >= 0 else -self
+
         d = gcd(self.content(), other.content())
         u = self.primitive_part()
         v = other.primitive_part()
@@ -423,6 +426,8 @@ class PolyZZ(Polynomial):
         coefficient is positive.
         """
         coeffs = self._coefficients
+        if self == 0:
+            return self
         content = gcd_list(coeffs)
         if coeffs[-1] < 0:
             content *= -1
-- 
2.43.0


From c16164d24c376efdcc0d8597b3bcf5e707003f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 49/82] fix: LeftistHeap: construction from zero or one value

---
 rosemary/data_structures/heaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..d02cae5 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -120,8 +120,8 @@ class LeftistHeap(object):
             num_values -= 1
             size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = size + len(nodes)
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From 8d1f0888fa751d91126aac1e58631330c703b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 50/82] fix: combinations: no combinations of size t > n

---
 rosemary/combinatorics/generation/combinations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/generation/combinations.py b/rosemary/combinatorics/generation/combinations.py
index fbc247a..443360a 100644
--- a/rosemary/combinatorics/generation/combinations.py
+++ b/rosemary/combinatorics/generation/combinations.py
@@ -2,6 +2,9 @@ def combinations(n, t):
     """
     generates all combinations of 0, 1, ..., n - 1 of size t.
     """
+    if t > n:
+        return
+
     c = [0] + [j - 1 for j in range(1, t + 1)] + [n, 0]
 
     while True:
-- 
2.43.0


From 2e2ebf57bce6b3d32a992b5e1db8f8ba6e22a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 51/82] fix: phillips: equal elements, the empty list

---
 rosemary/combinatorics/generation/permutations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..c91328a 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -69,13 +69,14 @@ def phillips(elements):
 
     # The Phillips algorithm assumes that there at least three elements in
     # the list. We handle the other cases separately.
-    if n == 0:
+    if n <= 0:
         yield entries[:]
         return
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] < entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
@@ -107,7 +108,7 @@ def phillips(elements):
             # L2.2' [Find j]
             j = n - 3
             y = entries[j]
-            while y >= x:
+            while j >= 0 and y >= x:
                 j -= 1
                 x = y
                 y = entries[j]
-- 
2.43.0


From 0349e54f1492f28dc612dea7f7c13dce2ea23201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 52/82] fix: knuth_algorithm_l_rvariations: no r-variations for
 r larger than the multiset

---
 rosemary/combinatorics/generation/permutations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index c91328a..510ce43 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -379,6 +379,10 @@ def knuth_algorithm_l_rvariations(elements, r):
     """
     entries = sorted(elements)
     n = len(entries) - 1
+
+    if r > len(entries):
+        return
+
     r = r - 1
 
     while True:
-- 
2.43.0


From eb78ad9d8421f5bac93ee57339ff5cfabd6971d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 53/82] fix: integer_partitions: no partitions into more than n
 parts

---
 rosemary/combinatorics/generation/partitions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..39bdde6 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
-- 
2.43.0


From 738ddf5fc205df9ff1bac72939b5a05c98cd6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 54/82] fix: integer_partitions: distinct partitions use the
 largest allowed part once

---
 rosemary/combinatorics/generation/partitions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 39bdde6..daea6c7 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -141,9 +141,7 @@ def integer_partitions(n, **kwargs):
         elif partial_sum < n:
             if num_parts and num_used >= num_parts:
                 return
-            idx = 0
-            if last_idx != 0:
-                idx = last_idx + distinct
+            idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
                 for partition in backtrack(partial_sum + part,
@@ -151,7 +149,7 @@ def integer_partitions(n, **kwargs):
                     yield partition
 
     if distinct or custom_parts:
-        partition_gen = backtrack(0, [], 0, 0)
+        partition_gen = backtrack(0, [], 0, -distinct)
     elif not distinct and not custom_parts and num_parts != 0:
         partition_gen = algorithm_h(n, num_parts)
     else:
-- 
2.43.0


From 784db7b7ea44d1ee7c4f995136229daaa7fc2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 55/82] fix: integer_partitions: a single part, the empty
 partition of 0

---
 rosemary/combinatorics/generation/partitions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index daea6c7..87f0fd7 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -78,6 +78,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
@@ -112,6 +116,10 @@ def integer_partitions(n, **kwargs):
         partition = [1]*m
         partition[0] = n - m + 1
 
+        if m == 1:
+            yield partition
+            return
+
         while True:
             yield partition[:]
             if partition[1] < partition[0] - 1:
-- 
2.43.0


From 4ce9e77cc31319ad8c57b27e90898ca434f85d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 56/82] fix: stirling_number2: recurrence, n > m

---
 rosemary/combinatorics/enumeration/enumeration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..be018bb 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
@@ -61,7 +64,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From c65ebcdc04deec866d0291115d8d1d55bf17b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 57/82] fix: binomial: 0 for k > n

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index be018bb..772d189 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -87,6 +87,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From 2cdc67e0c86c59030f747e07dad45ef202576887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 58/82] fix: partition_list: n = 0

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 772d189..c98ba16 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -172,7 +172,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
+    if n >= 1:
+        values[1] = 1
 
     for m in range(2, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
-- 
2.43.0


From 26e3f7ba0a61605f38c54a24639b010971e04df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 59/82] fix: necklaces: gcd of a list of weights

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index c98ba16..97afa0a 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -399,7 +399,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From 47bc94c70540194a929dfca678dddf14c080579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 60/82] fix: knapsack.branch_and_bound_depth_first divides by
 zero on weightless items

---
 rosemary/combinatorics/optimization/knapsack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index c9f3844..1710731 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -93,7 +93,7 @@ def dynamic_programming(items, capacity):
 
 
 def branch_and_bound_depth_first(items, capacity):
-    unit_cost = [(float(v)/float(w), v, w, i) for (i, (v, w)) in enumerate(items)]
+    unit_cost = [(float(v)/float(w) if w else float('inf'), v, w, i) for (i, (v, w)) in enumerate(items)]
     unit_cost.sort(reverse=True)
     num_items = len(items)
     best = [0, []]
@@ -106,10 +106,10 @@ def branch_and_bound_depth_first(items, capacity):
         triples = (unit_cost[i] for i in range(idx, num_items))
         for (u, v, w, _) in triples:
             if weight + w > target:
-                break
+                return value + u*(target - weight)
             weight += w
             value += v
-        return value + u*(target - weight)
+        return value
 
     def backtrack(idx, current_value, current_weight, used):
         if current_weight <= capacity:
-- 
2.43.0


From 6c9ebe0383e867ae7f17ccf35fd943829913502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 61/82] fix: knapsack.simulated_annealing fails on an empty
 list of items

---
 rosemary/combinatorics/optimization/knapsack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index 1710731..6359002 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -185,6 +185,9 @@ def simulated_annealing(items, capacity):
     best_items = list(current_items)
     best_value = 0
 
+    if not items:
+        return best_value, best_items
+
     def P(X):
         total = 0
         for i in range(n):
-- 
2.43.0


From 49b05e9edd94621538ad2aeb94e09a31acd7618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 62/82] fix: steepest_ascent_two_opt ignores the given distance
 matrix for its initial tour

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From 748cce50be61b7f55c297c43d0826bc851b5566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 63/82] fix: random_two_opt loops forever on tours with fewer
 than 4 points

---
 rosemary/combinatorics/optimization/tsp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index 41b9234..492af41 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -203,6 +203,10 @@ def farthest_insertion(points, distance_matrix=None, **kwargs):
 def random_two_opt(path):
     num_points = len(path)
 
+    # A tour on fewer than 4 points has no pair of disjoint edges to exchange.
+    if num_points < 4:
+        return list(path)
+
     a = random.randint(0, num_points - 1)
 
     while True:
-- 
2.43.0


From 963c566ad4526d3a8fa5ec0e8fee7c6d5d3836f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 64/82] fix: genetic_tsp solve returns a population entry
 instead of the best tour

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From 7d0bd956b7ad4dc6c753dcabbd051e9c694682ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 65/82] fix: genetic_tsp mgkrec fails on fewer than 20 points

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index 77bc74a..9331c83 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -118,7 +118,7 @@ class TravelingSalesman(object):
 
     def mgkrec(self, A, B):
         n = self.n
-        h = random.randint(10, n//2)
+        h = random.randint(min(10, n//2), n//2)
         ret_vals = []
 
         for (P1, P2) in [(B, A), (A, B)]:
-- 
2.43.0


From 9eae997449b44a4a79efea8ca2a6ea633fccee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 66/82] fix: domino_tilings(1) counts a tiling of the board no
 domino fits on

---
 rosemary/combinatorics/optimization/exact_cover.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/optimization/exact_cover.py b/rosemary/combinatorics/optimization/exact_cover.py
index db7afea..cc97679 100644
--- a/rosemary/combinatorics/optimization/exact_cover.py
+++ b/rosemary/combinatorics/optimization/exact_cover.py
@@ -133,9 +133,8 @@ class ExactCoverBinary(ExactCover):
     Given a matrix M with entries of 0 and 1, does there exist a subset of the
     rows of M which sum to the vector of all 1s?
     """
-    def __init__(self, integers):
+    def __init__(self, integers, num_bits=0):
         vectors = defaultdict(list)
-        num_bits = 0
 
         for n in integers:
             least_set_bit = n & (-n)
@@ -222,7 +221,7 @@ def domino_ints(n):
 
 def domino_tilings(n):
     ints = domino_ints(n)
-    E = ExactCoverBinary(ints)
+    E = ExactCoverBinary(ints, n*n)
     num_sols = E.number_of_solutions()
     return num_sols
 
-- 
2.43.0


From 5db4c545f93670b26434697e3d90a99cd4231ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 67/82] fix: one-vertex complete, coprime pairs and grid graphs
 have no vertices

---
 rosemary/graphs/graphs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..704af2f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1042,6 +1042,7 @@ def complete_graph(n):
     Kn = Graph()
 
     for u in range(n):
+        Kn.add_vertex(u)
         for v in range(u):
             Kn.add_edge(u, v)
 
@@ -1194,6 +1195,7 @@ def coprime_pairs_graph(n):
 
     graph = Graph()
     for i in range(1, n + 1):
+        graph.add_vertex(i)
         for j in range(1, i):
             if gcd(i, j) == 1:
                 graph.add_edge(i, j)
@@ -1257,6 +1259,7 @@ def grid_graph(n):
     for i in range(n):
         for j in range(n):
             u = i*n + j
+            graph.add_vertex(u)
             if j < n - 1:
                 graph.add_edge(u, u + 1)
             if u + n < n*n:
-- 
2.43.0


From 5ae4f3ac6f1e37277d26eb4e55a18c23b426a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 68/82] fix: odd_graph(k) has repeated and wrong vertices for k
 >= 6

---
 rosemary/graphs/graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 704af2f..31b4029 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1,6 +1,7 @@
 import copy
 import itertools
 import random
+import string
 
 from rosemary.algebra.matrices.matrices import MatrixZZ
 
@@ -1240,7 +1241,8 @@ def odd_graph(k):
     [('0', '1'), ('0', '2'), ('1', '2')]
     """
     graph = Graph()
-    ints = ''.join(map(str, range(2*k - 1)))
+    # One character per element, since the vertices are strings.
+    ints = (string.digits + string.ascii_lowercase)[:2*k - 1]
 
     for tup in itertools.combinations(ints, k - 1):
         u = ''.join(tup)
-- 
2.43.0


From 940a2db7f14724d851357e12d3171b83b9f1f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 69/82] fix: dijkstra_bidirectional returns an infinite
 distance from a vertex to itself

---
 rosemary/graphs/algorithms/paths.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..10a2049 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -619,6 +619,11 @@ def dijkstra_bidirectional(graph, s, t):
                 best_len = d
                 best_path = forward_path[u] + backward_path[v][1:][::-1] + [t]
 
+        # The searches can also meet in a vertex (always the case when s == t).
+        if u in backward_estimate and forward_estimate[u] + backward_estimate[u] < best_len:
+            best_len = forward_estimate[u] + backward_estimate[u]
+            best_path = forward_path[u] + backward_path[u][:-1][::-1]
+
     return best_len, best_path
 
 
-- 
2.43.0


From 86998253948526d349a794921c240dbaf9403f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 70/82] fix: is_graphic prints every intermediate sequence to
 standard output

---
 rosemary/graphs/algorithms/degree_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..6826565 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -67,7 +67,6 @@ def is_graphic(S):
             return True
 
         T = sorted(T, reverse=True)
-        print(T)
         d = T.pop(0)
 
         # Subtract 1 from the next d largest elements.
-- 
2.43.0


From 51bed332eb2f77b24893cb25fd4e1efef1cf32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 71/82] fix: is_graphic_erdos_gallai accepts sequences with odd
 sum

---
 rosemary/graphs/algorithms/degree_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 6826565..9903ff3 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -78,6 +78,10 @@ def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
     d_sum = 0
 
+    # The degrees of a graph sum to twice its number of edges.
+    if sum(T) % 2 == 1:
+        return False
+
     for k in range(len(T)):
         d_sum += T[k]
         rhs = k*(k + 1) + sum(min(k + 1, T[i]) for i in range(k + 1, len(T)))
-- 
2.43.0


From 9f5b4e4220d6711a23cf863ab28ffe5d8e612561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 72/82] fix: prim and the Steiner tree heuristics fail when the
 tree to span is empty

---
 rosemary/graphs/algorithms/spanning_trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..586b12d 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -80,6 +80,10 @@ def prim(graph, root=None, edge_list=True):
     >>> prim(G, edge_list=False)
     (14, {'a': None, 'b': 'd', 'c': 'b', 'd': 'a', 'e': 'f', 'f': 'c'})
     """
+    # The spanning tree of the graph with no vertices is empty.
+    if not graph.graph_dict:
+        return (0, []) if edge_list else (0, {})
+
     # Choose a root vertex if none is given
     if root is None:
         root = next(iter(graph.graph_dict))
-- 
2.43.0


From 00aa8f653453938dc92defd29721510711f4ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 73/82] fix: kruskal fails on graphs that are not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 586b12d..a2c78c6 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -185,7 +185,7 @@ def kruskal(graph):
     union = X.union
 
     # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From fbfbb47509fd8a9d07b21d71effa8ca4365a0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 74/82] fix: cheriton_tarjan fails on graphs that are not
 connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index a2c78c6..7f5d746 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -252,12 +252,16 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
 
         while True:
-            (_, x, y) = PQ[Tu].delete_min()
+            triple = PQ[Tu].delete_min()
+            if triple is None:
+                break
+
+            (_, x, y) = triple
             Tx = find(x)
             Ty = find(y)
 
@@ -270,6 +274,11 @@ def cheriton_tarjan(graph):
                 Tv = Tx
             break
 
+        # The tree containing u spans its connected component.
+        if triple is None:
+            del PQ[Tu]
+            continue
+
         union(Tu, Tv)
         u = find(Tu)
 
-- 
2.43.0


From 6456de0ba04aa7ee6ab951432a25ae67c9a6871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 75/82] fix: gabow raises TypeError when heap entries tie

---
 rosemary/graphs/algorithms/spanning_trees.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 7f5d746..e029aee 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,3 +1,5 @@
+import itertools
+
 from heapq import heappush, heappop, heapify
 from random import choice
 
@@ -372,14 +374,16 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The serial number keeps ties from being decided by comparing dicts.
+    serial = itertools.count()
+    heap = [(tree_weight + exchange_weight, e, f, next(serial), father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -401,8 +405,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, e, f, next(serial), father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, e, f, next(serial), new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From f8b2c2832019ff9762f7bfb5d6dc917b999eb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 76/82] fix: walks of length 0 are not counted, so a one-vertex
 graph has no hamiltonian path

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..767a67b 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -235,11 +235,11 @@ def walks(graph, a, n, allowed):
     """
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
+    # The only walk of length 0 stays at a.
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From ff2726f02e8b54ef572396c718cdc48ebb7f0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 77/82] fix: number_of_hamiltonian_paths5_con sums over the
 wrong vertex sets

---
 .../graphs/algorithms/hamiltonian_paths.py    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index 767a67b..8312afd 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -279,18 +279,22 @@ def number_of_hamiltonian_paths5_con(graph):
     vertices = graph.vertices()
     n = len(vertices)
 
-    def extend(partial, idx):
-        if is_connected2(graph, graph.vertex_set() - set(partial)):
-            yield partial
-
-            for i in range(idx, n):
-                for foo in extend(partial + [vertices[i]], i + 1):
-                    yield foo
+    # A walk lies in one component C of the graph induced by the allowed
+    # vertices. The terms for the allowed sets having C as a component cancel,
+    # unless every vertex outside of C is adjacent to C.
+    def allowed_sets():
+        for s in range(1, n + 1):
+            for allowed in itertools.combinations(vertices, s):
+                allowed = set(allowed)
+                if not is_connected2(graph, allowed):
+                    continue
+                if all(u in allowed or graph.neighbors(u) & allowed for u in vertices):
+                    yield allowed
 
     total = 0
-    for allowed in extend([], 0):
+    for allowed in allowed_sets():
         for a in allowed:
-            num_walks = walks(graph, a, n - 1, set(allowed))
+            num_walks = walks(graph, a, n - 1, allowed)
             for u in allowed:
                 total += (-1)**(n - len(allowed))*num_walks[u]
 
-- 
2.43.0


From 83fc405afc3bbd55606fe8091bb65034d58fd7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 78/82] fix: culberson finds no independent set among isolated
 vertices, and maxis loops forever

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..9454ea9 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -174,7 +174,7 @@ def culberson(graph):
             (new_size, new_deg, new_set) = indset(subgraph_vertices)
             new_deg += deg
 
-            if new_deg > max_deg:
+            if (new_deg, new_size + 1) > (max_deg, max_size):
                 max_size = new_size + 1
                 max_deg = new_deg
                 max_set = new_set + [v]
-- 
2.43.0


From 32532715b038a2593e764bd77a8fd79dd4a7b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 79/82] fix: coloring.branch_and_bound returns no coloring of
 complete graphs

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..30c89df 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices), {u: i + 1 for (i, u) in enumerate(vertices)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From fa839ba78fe53ceacc86014a4627a0346f962b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 80/82] fix: korman fails on graphs with isolated vertices

---
 rosemary/graphs/algorithms/coloring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 30c89df..13abb7f 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -565,8 +565,8 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
-                max_deg = 0
+                max_adj = -1
+                max_deg = -1
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
                     num_adjacent = len(adjacent_colors)
-- 
2.43.0


From 23b232c4cd9459990e32feb89b49c6610b40d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 81/82] fix: pell_small no longer prints every convergent

---
 rosemary/number_theory/diophantine_equations/pell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 61d0319..3d14357 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -161,7 +161,6 @@ def pell_small(D, N):
 
     # Otherwise, solutions always exist for D not a perfect square.
     for (x, y) in contfrac.convergents():
-        print (x, y)
         if x*x - D*y*y == N:
             yield (x, y)
 
-- 
2.43.0


From 3cfe5214d9553939b8e21aea3f51379b501747b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 82/82] fix: rank knapsack items and bound branches by exact
 ratios

The unit values and the fractional bound were computed in floating point, so
with large integers branch and bound could rank items wrongly or prune the
optimum, and returned a value below it.
---
 rosemary/combinatorics/optimization/knapsack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index 6359002..694075d 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -11,6 +11,8 @@ constraint \\sum_{i = 0}^{n - 1} w_i x_i <= M.
 import math
 import random
 
+from fractions import Fraction
+
 
 def depth_first(items, capacity):
     """
@@ -93,7 +95,7 @@ def dynamic_programming(items, capacity):
 
 
 def branch_and_bound_depth_first(items, capacity):
-    unit_cost = [(float(v)/float(w) if w else float('inf'), v, w, i) for (i, (v, w)) in enumerate(items)]
+    unit_cost = [(Fraction(v)/Fraction(w) if w else float('inf'), v, w, i) for (i, (v, w)) in enumerate(items)]
     unit_cost.sort(reverse=True)
     num_items = len(items)
     best = [0, []]
-- 
2.43.0

