From 366dfe622aa54aa02b5a162b29c7c67fcb299e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 01/66] fix: keep smallest crater in histogram when it lies on
 a bin boundary

Rounding of 10**log10(d) could place the lowest bin boundary above the
smallest diameter, so that np.histogram dropped that crater.
---
 src/craterstats/Cratercount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..9a2083a 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -243,6 +243,7 @@ class Cratercount:
         r10=np.log10(gm.range(d)) if len(d)>0 else np.array([0.,0.])
         eps=.001 # small vs smallest possible bin factor
         if expand:
+            r10[0] -= 1e-9 # guard against rounding of log10: lower boundary must not lie above smallest d
             r10[1] += eps
         else:
             r10[0] += eps
-- 
2.43.0


From d63bbc37bf52e6118ad10540bc49a8d450f33fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 02/66] fix: seed each randomness-analysis trial separately

Forked worker processes inherited one random state, so a run of n trials
held only about n/workers distinct configurations and depended on scheduling.
---
 src/craterstats/Randomnessanalysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..c27f004 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -30,7 +30,7 @@ class Randomnessanalysis(cst.Spatialcount):
         super().__init__(filename,area_file)
         self.init_Cratercount()
         self.montecarlo = {}
-        self.max_threads = os.cpu_count()-1
+        self.max_threads = max(os.cpu_count()-1, 1)
         self.ra_file = (out if out else self.name) + "_ra.txt"
         self.progress_queue = progress_queue
         self.read()
@@ -476,6 +476,8 @@ def evaluate_randomness(self_pp, pts, ids, hpd):
     return measure, p2
 
 def run_trial(self_pp, b, n, trial_index):
+    # seed each trial separately: forked workers would otherwise repeat the same random sequence
+    np.random.seed([42, round(2 * np.log2(b)) + 1000, int(n), trial_index])
     pts, ids, hpd = sprinkle_discs_pp(self_pp, n, b)  # Generate points and ids
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
-- 
2.43.0


From 97dcb224d5948f540f861dce61cb2217d65f32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 03/66] fix: read crater fractions of scc file in Spatialcount

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..d950186 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From f8417b5b7f302327468cede6b6489d163dbcbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 04/66] fix: output directory given with -o raised NameError

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..c67c3b5 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From d0b2f9e28c2b3e58d401f93b39f1f74087bb6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 05/66] fix: --convert to stat/scc/shp did not expand %sample%

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index c67c3b5..db34322 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -312,7 +312,8 @@ def convert_format(args, cps, cs_content):
         return outfile
 
     fmt, src = args.convert
-    scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
+    src = cs_source(src)
+    scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
     out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
-- 
2.43.0


From 1db50a202758992b2c5f54a3d32dddb280c7898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 06/66] fix: quote arguments beginning with '-' in .cs file,
 allow empty arguments

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index db34322..2bf517b 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -533,7 +533,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join(['\n'+shlex.quote(e) if e[:1]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From 4f6d45945f40adda394bb1aeca66e79932d586cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 07/66] fix: merging crater counts without perimeter raised
 TypeError

---
 src/craterstats/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..9f3a7dc 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,13 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        p = p + cc.perimeter if p is not None and cc.perimeter is not None else None # unknown if any unknown
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([f"perimeter = {p}"] if p is not None else [])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From a2929c2b15725ef808db0954ae6afb3637f5a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 08/66] fix: unreadable user functions file raised NameError
 instead of being ignored

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 9f3a7dc..40051f4 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -75,7 +75,7 @@ class Functionslist:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
                 except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From 5fb44663099bc473dc6ca7dfa0548fa533c86731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 09/66] fix: writing shapefiles for an area of several polygons
 raised AttributeError

---
 src/craterstats/Spatialcount.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d950186..3e66c93 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -321,13 +321,13 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            for y in shp.get_parts(shp.from_wkb(z)): # treat polygon and multipolygon uniformly
+                x = shp.get_exterior_ring(y)
+                rings = [list(x.coords)]
+                for j in range(shp.get_num_interior_rings(y)):
+                    x = shp.get_interior_ring(y,j)
+                    rings.append(list(x.coords))  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From 768585309f77a0fff47f097fc0bb5f50b9c99595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 10/66] fix: writeSCCfile tagged further exterior rings of a
 multipart area as holes

---
 src/craterstats/Spatialcount.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 3e66c93..cd3315d 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -208,13 +208,11 @@ class Spatialcount:
     def writeSCCfile(self, filename=None):
         sub_area, tag, pts = [],[],[]
         i = 1
-        for shape in self.sa: # might be better to use technique from write_SHP, i.e. dismantle self.polygon
-            parts = list(shape.parts) + [len(shape.points)]
-            pts += shape.points
-            for j in range(len(shape.parts)):
-                n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
-                sub_area += [i] * n
+        for rings in self.polygon_to_pts(): # a shape may contain more than one exterior ring
+            for j, ring in enumerate(rings):
+                pts += ring
+                tag += ['ext' if j==0 else 'int'] * len(ring)
+                sub_area += [i] * len(ring)
                 i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
                           for i, (a, b, c) in enumerate(zip(sub_area, tag, pts), start=1)]
-- 
2.43.0


From bcb51d8d0dac46ddeb1415f13f64da8acd289808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 11/66] fix: -st/--sequence_table had no effect

The option was parsed but never acted on; Craterplotset.sequence_table used the removed np.product and an unknown type name, and Craterpdf tested an array for truth.
---
 src/craterstats/Craterpdf.py     | 2 +-
 src/craterstats/Craterplotset.py | 6 +++---
 src/craterstats/cli.py           | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..a619176 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..f2abcdc 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -752,7 +752,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -785,10 +785,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 2bf517b..385cc51 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -468,6 +468,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table and cps.presentation == 'sequence':
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From 72847f60b8cbf0c59d8376cb9804b38ac16ebc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 12/66] fix: buffered-poisson expectation integrated on linear
 diameter steps

With an unbounded (or just wide) diameter range the 500 linear steps do not resolve the steep production function at its small end: Pickering 0.1-1000 km gave a 22 times too high expectation and an age 22 times too low. Integrate on logarithmic steps.
---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index a619176..296b8fa 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -53,10 +53,10 @@ class Craterpdf:
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
                 ns=500 #samples of PF for integration
-                d=np.linspace(d_range[0], d_range[1], ns)
+                d=np.geomspace(d_range[0], d_range[1], ns) # log-spaced: F falls steeply over possibly many decades
                 F=pf.F(d,a0)
                 y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F
-                I1=simpson(y,d)
+                I1=simpson(y*d,np.log(d))
                 lam = 10 ** (np.log10(I1) + x)   # lambda for each of self.ts
             else: #standard count
                 Ncum10=np.log10(pf.evaluate("cumulative",d_range,a0))
-- 
2.43.0


From fad276b0ef6991f69f4d18c8609b36b92a5eb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 13/66] fix: production function constant of exactly 0 was
 replaced by the function's own constant

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From f6574adfc2e1af99bb3d94c5731896a776851908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 14/66] fix: tabular equilibrium functions could not be plotted
 (no default constant)

---
 src/craterstats/Productionfn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..85d554c 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -222,7 +222,6 @@ class Productionfn:
         :return: dict with series of values for plotting
         '''
         ns=400
-        if a0 is None: a0 = self.a[0]
         if range is None: range=self.range
         range=np.clip(range,self.range[0],self.range[1])
         log_d=np.linspace(np.log10(range[0]),np.log10(range[1]),ns)
-- 
2.43.0


From 150bf47549656b77b3f1ac15f1fecdbfc4a4763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 15/66] fix: isochron lying entirely above the equilibrium
 function raised IndexError

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f2abcdc..1191914 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -570,6 +570,7 @@ class Craterplotset:
         for t,hide,above,small in isochrons:
             a0 = self.cf.a0(t)
             iso = self.pf.getisochron(self.presentation, a0, self.ef)
+            if iso['d'].size == 0: continue # entirely above equilibrium
             d10 = np.log10(iso['d'])
             self.ax.plot(d10, iso['y'], color=self.grey[0], lw=.5*self.sz_ratio)
             y_factor = self.data_aspect
-- 
2.43.0


From 12837970013ec19e77391b6b4e25df8879fa1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 16/66] fix: isochrons with the documented label suffix n were
 dropped

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 1191914..06e292d 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -562,8 +562,8 @@ class Craterplotset:
         isochrons = []
         for e in self.isochrons.split(','):
             try:
-                value = abs(float(e.rstrip('ash')))
-                isochrons.append((value, 'h' in e, 'a' in e, 's' in e))
+                value = abs(float(e.rstrip('ashn')))
+                isochrons.append((value, 'h' in e or 'n' in e, 'a' in e, 's' in e))
             except ValueError:
                 continue
 
-- 
2.43.0


From d229d16f38a74cb45674cb5c652a56af70b310e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 17/66] fix: autoscale ignored all overplots, or failed, when
 one had nothing to plot

---
 src/craterstats/Craterplotset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 06e292d..49922f0 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -607,10 +607,11 @@ class Craterplotset:
         ranges = []
         for cp in self.craterplot:
             try:
-                ranges.append(cp.get_data_range(self))
+                r = cp.get_data_range(self)
+                if np.all(np.isfinite(r)): ranges.append(r) # else nothing to plot
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        x0, x1, y0, y1 = zip(*ranges) if ranges else ([np.nan],) * 4 # -> default ranges
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From 8c345c3fba99476f4cbae8185049bfa2c95d1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 18/66] fix: fit to corrected data whose first point is smaller
 than its error gave NaN and failed

---
 src/craterstats/Productionfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 85d554c..667923b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -208,7 +208,8 @@ class Productionfn:
                 func, sigma = self.F10, 1 / np.sqrt(err)
 
         popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma)
-        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*err[0]),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
+        y_lower=max(y[0]-.98*err[0],.02*y[0]) # corrected y may be smaller than its error
+        a0=popt[0]-[0,np.log10(y[0])-np.log10(y_lower),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
         return a0
 
 
-- 
2.43.0


From 4b74302cc907f22b1ce07a25a653271adde363b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 19/66] fix: results table used range column of last analysis
 type for all rows, failing for poisson rows

---
 src/craterstats/Craterplotset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 49922f0..fccf7c9 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -683,7 +683,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -712,9 +712,11 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
-                if k in ('range','bin_range','t','a0'):
+                if k == 'range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1:
+                    d[k] = d['bin_range']
+                if k in ('range','t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
-                    if k in ('range','bin_range'):
+                    if k == 'range':
                         txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
                     v = ','.join([f"{10**e:{f}}" for e in d['a0']])
-- 
2.43.0


From e0cb827ab3183d1f5125bd63a57132941918cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 20/66] fix: N(d_ref) in results table and legend was N(1) for
 reference diameters other than 1 km

---
 src/craterstats/Craterplot.py    | 3 ++-
 src/craterstats/Craterplotset.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..ec317ca 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -258,7 +258,8 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index fccf7c9..50cadc4 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -709,6 +709,7 @@ class Craterplotset:
 
         for d in s:
             ln=[]
+            n_d=[self.pf.evaluate("cumulative", self.ref_diameter, e) for e in d['a0']]
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
@@ -719,12 +720,11 @@ class Craterplotset:
                     if k == 'range':
                         txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
+                    v = ','.join([f"{e:{f}}" for e in n_d])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From a4722b48ed6fb73c95b69c119c38c69aa91ff13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 21/66] fix: commas in names or file names shifted the columns
 of the results table

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 50cadc4..3a32a00 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -731,6 +731,7 @@ class Craterplotset:
                     v=txt_range
                 else:
                     v = f"{d[k]:{f}}"
+                    if any(c in v for c in ',"'): v = '"'+v.replace('"','""')+'"'
                 ln+=[v]
             st += '\n'+','.join(ln)+'," "'
 
-- 
2.43.0


From f2d0c4e53d73ec7fd6377ee4a483d40430057124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 22/66] fix: abbreviations containing regex characters crashed
 or matched the wrong name

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 385cc51..2566666 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -146,7 +146,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 
     #perhaps add back index selection requiring # prefix?
 
-    regex = '(?i)' + '.*'.join(v)
+    regex = '(?i)' + '.*'.join(map(re.escape, v))
     res = [(i,e) for i,e in enumerate(s) if re.search(regex, e) is not None]
     res.sort(key=lambda x: len(x[1]))
     if len(res) == 0:
-- 
2.43.0


From 6413724e1c2b13f76285a4d7cbf43cbb700e6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 23/66] fix: file names with characters other than letters,
 digits, .,=- lost their beginning

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..494a997 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>.*?)(?P<name>[^/\\:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0


From 73eca3e5d64cb709590df89bd0e513e2a870ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 24/66] fix: overplot type was carried over to an overplot
 naming another source

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 2566666..d72a491 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -246,7 +246,8 @@ def construct_plot_dicts(args,plot,cps_dict):
         p['type'] = 'poisson' if cps_dict['presentation'] == 'sequence' else 'data' # set default
 
         if cpl: # for these items: if not given, carry over from previous
-            if p['source'] is None: # only carry type if source unchanged
+            keys = [cst.CRATERPLOT_KEYS[decode_abbreviation(cst.CRATERPLOT_KEYS, k, allow_ambiguous=True)] for k in d]
+            if 'source' not in keys: # only carry type if source unchanged
                 p['type'] = cpl[-1]['type']
             for k in cst.CARRY_OVER_PROPERTIES:
                 p[k] = cpl[-1][k]
-- 
2.43.0


From b8974ad0ad4ec892ca688b776e76c83e6c878d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 25/66] fix: legend of a fit without diameter limits raised
 OverflowError

---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index ec317ca..dfa142a 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -255,7 +255,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    r=list(self.range)
+                    if r[0] == 0: r[0] = self.cratercount.binned['d_min'][0]  # open limits: extent of data
+                    if np.isinf(r[1]): r[1] = self.cratercount.binned['d_max'][-1]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
-- 
2.43.0


From 025525dda70d11fb86e0c94a7c40963c880ac731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 26/66] fix: -i with a relative path to another directory did
 not find the file

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index d72a491..46816a7 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -39,6 +39,7 @@ class LoadFromFile(argparse.Action):
         if option_string in ('-i','--input'):
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
+                values = os.path.abspath(values) # may be relative to directory left
                 os.chdir(self.work_dir)
         try:
             with open(values) as f:
-- 
2.43.0


From df02e47a5557f4dbdd76cb92609f4337bf9f4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 27/66] fix: -inc after -i changed output name and source
 directory to those of the included file

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 46816a7..e4fff18 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -47,7 +47,7 @@ class LoadFromFile(argparse.Action):
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input': namespace.input_filename = f.name
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0


From 5213a863c54495d0c6dd36f52176dd65196668e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 28/66] fix: output into a directory cut the default name at a
 dot (v1.2.diam -> v1)

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e4fff18..fc5d9a8 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -435,7 +435,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + os.path.basename(default_filename))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From afb973279a0c47ccfdd781bdea97d460ac964320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 29/66] fix: uncertainty plots in several formats: only the
 first format had the three plots

---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index fc5d9a8..38b7758 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -442,6 +442,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    age_area = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -455,11 +456,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
             elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+                if age_area is None:
+                    cps.calculate_time_axis_params()
+                    age_area = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
-                    cps.age_area_plot(plt,age_area_result)
+                    cps.age_area_plot(plt,age_area)
                     savefig('_' + plt)
             else:
                 if not drawn:
-- 
2.43.0


From ce097f81c3e52139e6ccb8aa92c95d8d0bc93f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 30/66] fix: blank or comment-only line in a crater table made
 the file unreadable

---
 src/craterstats/gm/file/read_textstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..cdb2818 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -30,6 +30,7 @@ def simple_value(s):
         r={t:[] for t in tag}
         for row in w[1:]:
             v=quoted_split(row)
+            if not v: continue #blank line
             if v[0]=='}': break
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
-- 
2.43.0


From 59457eac10aba909ab877cde3dcf9c01d49a924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 31/66] fix: line of spaces made a .stat file unreadable

---
 src/craterstats/gm/file/read_textfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index b2bcf10..e351869 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -26,7 +26,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
                 s.append('')  # preserve last empty line
 
     if ignore_blank:
-        s = [e for e in s if e != '']
+        s = [e for e in s if e.strip() != '']
 
     if ignore_hash:
         s = [e for e in s if not e.lstrip().startswith('#')]
-- 
2.43.0


From 40b5abd0ac3a98b8a226ea29d8181288dd32640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 32/66] fix: lone quote or apostrophe in a text structure cut
 off the rest of its line

---
 src/craterstats/gm/file/read_textfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index e351869..2909026 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -32,7 +32,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
         s = [e for e in s if not e.lstrip().startswith('#')]
 
     if strip is not None:
-        c = re.compile(r'(("[^"]*?")|(\'[^\']*?\')|[^;\'"]*)*') # avoid splitting within quoted string
+        c = re.compile(r'((?<![^\s=,*\[({])("[^"]*"|\'[^\']*\')|[^;])*') # avoid splitting within quoted string
         s = [c.match(e)[0] for e in s]
 
     if as_string:
-- 
2.43.0


From 89e33840dddd2c0462232c056ce41c7ad93268d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 33/66] fix: tabs around column names or values of a text
 structure became part of them

---
 src/craterstats/gm/file/read_textstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index cdb2818..ee1cd8b 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -25,7 +25,7 @@ def simple_value(s):
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
         w=s.splitlines()
         tag0=w[0].split(',')      
-        tag=[e.strip('{ ') for e in tag0]      
+        tag=[e.strip('{ \t') for e in tag0]      
         
         r={t:[] for t in tag}
         for row in w[1:]:
@@ -35,7 +35,7 @@ def simple_value(s):
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
     else: 
-        r=strip_quotes(s.strip(' \n'))
+        r=strip_quotes(s.strip())
     
     return r
 
-- 
2.43.0


From 54284e3ef631868c6baa80c8d62dfdc43bfdc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 34/66] fix: quoted list items of a text structure were split
 at commas

---
 src/craterstats/gm/file/read_textstructure.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index ee1cd8b..f860601 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -8,6 +8,12 @@ from ..string.quoted_split import quoted_split
 from . import read_textfile
 
 
+def list_items(s):
+    '''split comma-separated list, leaving commas within quoted items'''
+
+    return [strip_quotes(e.strip()) for e in re.findall(r'\s*("[^"]*"\s*|\'[^\']*\'\s*|[^,]*),', s+',')]
+
+
 def simple_value(s):
     '''evaluate single (possibly multi-line) value'''
   
@@ -15,12 +21,10 @@ def simple_value(s):
         s=s[1:]
     
     if s.startswith('['):
-        w=s.strip('[] \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        r=list_items(s.strip('[] \t\n'))
         
     elif s.startswith('('):   
-        w=s.strip('() \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        r=list_items(s.strip('() \t\n'))
     
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
         w=s.splitlines()
-- 
2.43.0


From 17a7fd4f3e178dda5a594c8963d625a08060092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 35/66] fix: text structure entry with a tab before = became
 part of the preceding value

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index f860601..869c804 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -78,7 +78,7 @@ def evaluate(s):
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
-                r"^\s*(?P<keyword2>[\w\.]*\^?) *="
+                r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
       
     if not m: return None #no definitions to process
-- 
2.43.0


From b3186b708532ad2dd4e089dd9b524b33a3667577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 36/66] fix: text block ran on to the end of the last text
 block of the file

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 869c804..33ac265 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -76,7 +76,7 @@ def evaluate(s):
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
-                r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
+                r"\"\s*$(?P<text_value>[^{]*?)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
-- 
2.43.0


From a0369e39c751a62ed7f748631489069587070457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 37/66] fix: stray quote at the end of a chronology name in
 functions.txt

---
 src/craterstats/config/functions.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/config/functions.txt b/src/craterstats/config/functions.txt
index 3ceb344..ec4852e 100644
--- a/src/craterstats/config/functions.txt
+++ b/src/craterstats/config/functions.txt
@@ -402,7 +402,7 @@ chronology={
 chronology_system={
   body='Vesta'
   name="Vesta, Marchi & O'Brien (2014)"
-  cf="Vesta, O'Brien et al. (2014)""
+  cf="Vesta, O'Brien et al. (2014)"
   pf='Vesta, Marchi et al (2013) [inferred, NS]'
 }
 
-- 
2.43.0


From 75ce01e0b51cbc2798eac42fbaf27ca3722fbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 38/66] fix: exponent of the total area or perimeter in a .scc
 file was ignored

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9a2083a..bb62314 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -174,11 +174,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.match(r'\s*[\d\.]+([eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.match(r'\s*[\d\.]+([eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From 9603ebdc85549a335e536eee16d9890985dc718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 39/66] fix: part inside a hole of another part taken for its
 hole, holes given before their part or numbering from other than 1 in a .scc
 file

---
 src/craterstats/Spatialcount.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index cd3315d..d724283 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -83,24 +83,14 @@ class Spatialcount:
             pts = [pt for pt, _ in groupby(pts)] # remove consecutive duplicates
             p = sph.create_polygon(shell=pts)
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
-            xr1 = gm.range([x for x,y in pts])
-            yr1 = gm.range([y for x, y in pts])
-            if i == 1:
-                xr=xr1
-                yr=yr1
-            else:
-                xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
-                yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
-
-        p=[]
-        for i, internal in z:
-            if not internal:
-                holes=[]
-                for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
-                        holes += [d[j][0]]
-                p += [sph.create_polygon(shell=d[i][0], holes=holes)]
 
+        holes = {i: [] for i, internal in z if not internal}
+        for j, internal in z:
+            if internal: # belongs to smallest part which contains it
+                parts = [i for i in holes if sph.within(d[j][1],d[i][1])]
+                if parts: holes[min(parts, key=lambda i: sph.area(d[i][1]))].append(d[j][0])
+
+        p = [sph.create_polygon(shell=d[i][0], holes=holes[i]) for i in holes]
         p = sph.create_multipolygon(p) #merge if multiple
 
         self.area=sph.area(p, radius=self.planetary_radius)
-- 
2.43.0


From 28194fa68e7c411a631c0f165300226bf9385e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 40/66] fix: areas enclosing a pole could not be written as
 .scc or plotted (GEOSException)

---
 src/craterstats/Randomnessanalysis.py |  5 ++---
 src/craterstats/Spatialcount.py       | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index c27f004..00a26a9 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -84,7 +84,7 @@ class Randomnessanalysis(cst.Spatialcount):
         sz_ratio = ax.get_position().width/cps.ax.get_position().width
 
         # start from sph_polygons output (p2) from sdaa calc.
-        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p)) for p in p2]
+        shp_polygons0 = [self.to_shapely(p) for p in p2]
         # flatten any multipolygons (disjoint areas or holes should also be outlined)
         shp_polygons = [polygon for shape in shp_polygons0 for polygon in (shape.geoms if isinstance(shape, shp.MultiPolygon) else [shape])]
 
@@ -260,8 +260,7 @@ class Randomnessanalysis(cst.Spatialcount):
             self.ortho_proj = ortho_proj
 
             # do area
-            z = sph.to_wkb(self.polygon)
-            multipolygon = shp.from_wkb(z)
+            multipolygon = self.to_shapely(self.polygon)
             p = []
 
             if not isinstance(multipolygon, shp.MultiPolygon):
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d724283..f196a16 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -46,6 +46,13 @@ class Spatialcount:
         for d, f, x, y in zip(self.diam, self.fraction, self.lon, self.lat):
             print(f"{d:<12.7g} {f:9.3g} {x:20.12f} {y:20.12f}")
 
+    @staticmethod
+    def to_shapely(geography):
+        """
+        Convert to shapely geometry. Rings around a pole come unclosed because their longitudes are continued past 360 degrees
+        """
+        return shp.from_wkb(sph.to_wkb(geography), on_invalid='fix')
+
     def llr2xyz(self,lon,lat,r = None):
         if not r: r = self.planetary_radius
         lat_rad = np.radians(lat)
@@ -304,17 +311,22 @@ class Spatialcount:
         """
         Decompose polygon/multipolygon into list of lists of rings/holes
         """
+        def ring_pts(ring):
+            pts = list(ring.coords)
+            if abs(pts[-2][0] - pts[0][0]) > 359.999: # around pole: same vertex, one revolution on
+                del pts[-2]
+            return pts
+
         if not p0:
             p0=self.polygon
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
-            z = sph.to_wkb(p)
-            for y in shp.get_parts(shp.from_wkb(z)): # treat polygon and multipolygon uniformly
+            for y in shp.get_parts(self.to_shapely(p)): # treat polygon and multipolygon uniformly
                 x = shp.get_exterior_ring(y)
-                rings = [list(x.coords)]
+                rings = [ring_pts(x)]
                 for j in range(shp.get_num_interior_rings(y)):
                     x = shp.get_interior_ring(y,j)
-                    rings.append(list(x.coords))  # Append holes
+                    rings.append(ring_pts(x))  # Append holes
                 decomposed += [rings]
         return decomposed
 
@@ -335,8 +347,7 @@ class Spatialcount:
         self.ortho_proj = ortho_proj
 
         # do area
-        z = sph.to_wkb(self.polygon)
-        multipolygon = shp.from_wkb(z)
+        multipolygon = self.to_shapely(self.polygon)
 
         if not isinstance(multipolygon, shp.MultiPolygon):
             multipolygon = shp.MultiPolygon([multipolygon])
-- 
2.43.0


From 240fa96f98e3aad5b76162717780b0db5d31ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 41/66] fix: latitude and longitude range of areas around a
 pole, with great-circle edges, or of several parts missed some of the area

---
 src/craterstats/Spatialcount.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index f196a16..6de50cb 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -185,20 +185,26 @@ class Spatialcount:
         self.find_enclosing_polygon()
 
     def find_enclosing_polygon(self): # could be moved out to ra
-        n_pole = sph.create_point(longitude=0, latitude=90)
-        s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
-        xr , yr = ( (minx,maxx), (miny,maxy) )
-        if sph.covers(self.polygon, n_pole):
-            yr = (miny, 90)
-            xr = (-180,180)
-        if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+        xs, ys = [], []
+        for shell, *_ in self.polygon_to_pts():
+            xs += [x for x, _ in shell]
+            ys += [y for _, y in shell]
+            for (x0, y0), (x1, y1) in zip(shell, shell[1:]): # edges are great circles, which pass poleward of their ends
+                y = max(y0, y1, key=abs)
+                if abs(x1 - x0) < 180:
+                    ys += [math.degrees(math.atan(math.tan(math.radians(y)) / math.cos(math.radians(x1 - x0) / 2)))]
+            p = sph.create_polygon(shell=shell)
+            for pole in (-90, 90):
+                if sph.covers(p, sph.create_point(longitude=0, latitude=pole)):
+                    xs += [-180, 180]
+                    ys += [pole]
+        xr, yr = gm.range(xs), gm.range(ys)
+        if gm.mag(xr) > 360:
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-        enclosing_polygon = sph.create_polygon(shell=[(xr[0],yr[0]),(xr[0],yr[1]),(xr[1],yr[1]),(xr[1],yr[0])])
-        self.enclosing_area = sph.area(enclosing_polygon, radius=self.planetary_radius)
+        self.enclosing_area = (self.planetary_radius ** 2 * math.radians(gm.mag(xr))
+                               * (math.sin(math.radians(yr[1])) - math.sin(math.radians(yr[0]))))
         print(f"Range: {xr[0]:.2f}:{xr[1]:.2f} {yr[0]:.2f}:{yr[1]:.2f}, area: {self.area:.2f} km2, perimeter: {self.perimeter:.2f} km (planetary radius: {self.planetary_radius:0g} km)")
 
 
-- 
2.43.0


From d6d5cadcad2124c97568c121dba6d9a7bfaa2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 42/66] fix: randomness analysis in several image formats was
 repeated for each, under the names x_ra, x_ra_ra

---
 src/craterstats/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 38b7758..199692e 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -443,10 +443,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     age_area = None
+    ra = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
+                if ra is None:
+                    ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From dbe5b35537c71cf8cc553326dd05e5486ca308fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 43/66] fix: randomness analysis results lost or cut short if
 interrupted while being rewritten

---
 src/craterstats/Randomnessanalysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 00a26a9..5c176fb 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -432,7 +432,9 @@ class Randomnessanalysis(cst.Spatialcount):
                 + trials
                 + ['}'])
             s += s1
-        gm.write_textfile(self.ra_file,s)
+        temp_file = self.ra_file + '.tmp'
+        gm.write_textfile(temp_file,s)
+        os.replace(temp_file, self.ra_file) # don't lose previous results if interrupted
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-- 
2.43.0


From 7cfa6160cfa1e2c9b3ad91d3df448ac826f6f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 44/66] fix: randomness analysis results of x_CRATER.shp,
 written to x_ra.txt, were not found again

---
 src/craterstats/Cratercount.py        | 1 +
 src/craterstats/Randomnessanalysis.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index bb62314..9ab6f07 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -27,6 +27,7 @@ class Cratercount:
         self.prebinned=False
         if filetype:
             self.name = gm.filename(filename, 'n')
+            if filetype == '.shp': self.name = re.sub(r'_?CRATER_?', '', self.name)
             self.n_sigma, self.n_trials = self.read_ra_file()
 
         bad_filetype = False
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 5c176fb..682b19a 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -438,7 +438,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-        possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))
+        possible_locations = (self.ra_file, gm.filename(self.filename, 'p') + self.name + '_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
-- 
2.43.0


From 4203c9c2b5e01691440833fb10650387427b58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 45/66] fix: --convert ignored the name given with -o (stat,
 scc), the source name for a directory (shp, map), and removed CRATER from
 given names

---
 src/craterstats/cli.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 199692e..02a21b4 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -303,31 +303,27 @@ def construct_plot_dicts(args,plot,cps_dict):
     return cpl
 
 def convert_format(args, cps, cs_content):
-    def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
-        else:
-            outfile = name + ext
-        return outfile
+    def outfile(name, ext):
+        name = re.sub(r'_?CRATER_?', '', name) # remove if present from shp file
+        if args.out and not os.path.isdir(args.out) or args.input and ext not in ('.stat', '.scc'):
+            name = gm.filename(cps.out, 'pn')
+        elif args.out:
+            name = os.path.normpath(args.out + '/' + name)
+        return name + ext
 
     fmt, src = args.convert
     src = cs_source(src)
     scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
-    out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
+    out = outfile(gm.filename(src, 'n'), '.'+fmt1)
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
@@ -336,7 +332,6 @@ def convert_format(args, cps, cs_content):
                 out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
         case 'png'|'svg'|'pdf':
             if fmt0 in ['shp','scc']:
-                out = re.sub(r'_?CRATER_?', '', out)
                 if not args.input:
                     out = gm.filename(out, 'pn1e','_map')
                     gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-- 
2.43.0


From d3b1ff4730897f191f6da508c37b5a0efc152d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 46/66] fix: unsupported --convert combinations were reported
 as written

---
 src/craterstats/cli.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 02a21b4..6a1cb37 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -321,23 +321,20 @@ def convert_format(args, cps, cs_content):
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
             cc.WriteStatFile(out)
-        case 'scc':
-            if fmt0 == 'shp':
-                scc = cst.Spatialcount(src)
-                scc.writeSCCfile(out)
-        case 'shp':
-            if fmt0 == 'scc':
-                scc = cst.Spatialcount(src)
-                scc.writeSHPfiles(out)
-                out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
-        case 'png'|'svg'|'pdf':
-            if fmt0 in ['shp','scc']:
-                if not args.input:
-                    out = gm.filename(out, 'pn1e','_map')
-                    gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-                cps.create_map_plotspace()
-                scc.plot(cps,grid=True)
-                cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
+        case 'scc' if fmt0 == 'shp':
+            scc = cst.Spatialcount(src)
+            scc.writeSCCfile(out)
+        case 'shp' if fmt0 == 'scc':
+            scc = cst.Spatialcount(src)
+            scc.writeSHPfiles(out)
+            out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
+        case 'png'|'svg'|'pdf' if fmt0 in ['shp','scc']:
+            if not args.input:
+                out = gm.filename(out, 'pn1e','_map')
+                gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
+            cps.create_map_plotspace()
+            scc.plot(cps,grid=True)
+            cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
         case _:
             print(f"{fmt0} to {fmt1} conversion not supported")
             return
-- 
2.43.0


From 419f5182992ca2906f39153b46c0b1e6735eb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 47/66] fix: rings of written shapefiles had the opposite
 direction to that required by the format

---
 src/craterstats/Spatialcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 6de50cb..f567d37 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -266,7 +266,7 @@ class Spatialcount:
         rims,wkt = self.find_rims()
         for d, x, y, r in zip(self.diam, self.lon, self.lat, rims):
             c.record(Diam_km=d, x_coord=x, y_coord=y, tag='standard')
-            c.poly([list(zip(*r))])
+            c.poly([list(zip(*r))[::-1]]) # clockwise
         c.close()
         gm.write_textfile(gm.filename(fc,'pn1','.prj'),wkt)
         shutil.copy(cst.PATH + 'config/_CRATER.qml', gm.filename(fc,'pn1','.qml'))
@@ -278,7 +278,7 @@ class Spatialcount:
         a.field('area_name', 'C', 30)
         decomposed = self.polygon_to_pts()
         for i, p in enumerate(decomposed):
-            a.poly(p)
+            a.poly([ring[::-1] for ring in p]) # exterior rings clockwise, holes counterclockwise
             a.record(None, f'Area_{i + 1}')
         a.close()
         gm.write_textfile(gm.filename(fa, 'pn1', '.prj'), wkt)
-- 
2.43.0


From 53ccb5a9687e17e16c4bdb7419e722139e2c4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 48/66] fix: a shapefile area with islands or holes on the 180
 degree meridian could not be read: rings were grouped in the plane

---
 src/craterstats/Spatialcount.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index f567d37..0a01de1 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -137,13 +137,10 @@ class Spatialcount:
         self.sa = sa
 
         multipolygon = []
-        for shp_record in sa:
-            geom = shp.geometry.shape(shp_record.__geo_interface__)
-            polys = geom.geoms if geom.geom_type == "MultiPolygon" else [geom] # treat polygon and multipolygon uniformly
-            for poly in polys:
-                shell = list(poly.exterior.coords)
-                holes = [list(r.coords) for r in poly.interiors]
-                multipolygon.append(sph.create_polygon(shell=shell, holes=holes))
+        for shape in sa:
+            ends = list(shape.parts[1:]) + [len(shape.points)]
+            for start, end in zip(shape.parts, ends): # holes found by nesting on the sphere: longitudes may jump by 360 degrees
+                multipolygon.append(sph.create_polygon(shell=shape.points[start:end]))
 
         p = sph.create_multipolygon(multipolygon)
         self.polygon = p
-- 
2.43.0


From 335d4a2caea2f69f2f85ff53fcdca79f5c4c7885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 49/66] fix: rings with a repeated vertex, or closed one
 revolution on around a pole, could not be read

---
 src/craterstats/Spatialcount.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 0a01de1..02c7c1e 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -3,7 +3,6 @@
 
 from collections import namedtuple
 from datetime import datetime
-from itertools import groupby
 import math
 import os
 import re
@@ -53,6 +52,16 @@ class Spatialcount:
         """
         return shp.from_wkb(sph.to_wkb(geography), on_invalid='fix')
 
+    @staticmethod
+    def distinct_pts(pts, eps=1e-9):
+        """
+        Remove consecutive duplicates from ring, including closing vertex (which may be given one revolution on), leaving it unclosed
+        """
+        def same(p, q):
+            return abs(math.remainder(p[0] - q[0], 360)) < eps and abs(p[1] - q[1]) < eps
+
+        return [p for i, p in enumerate(pts) if not same(p, pts[(i + 1) % len(pts)])]
+
     def llr2xyz(self,lon,lat,r = None):
         if not r: r = self.planetary_radius
         lat_rad = np.radians(lat)
@@ -87,7 +96,7 @@ class Spatialcount:
         d={}
         for i, _ in z:
             pts = [(float(x),float(y)) for x,y, sub_area in zip(c['unit_boundary']['lon'],c['unit_boundary']['lat'], c['unit_boundary']['sub_area']) if int(sub_area) == i]
-            pts = [pt for pt, _ in groupby(pts)] # remove consecutive duplicates
+            pts = self.distinct_pts(pts)
             p = sph.create_polygon(shell=pts)
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
 
@@ -140,7 +149,7 @@ class Spatialcount:
         for shape in sa:
             ends = list(shape.parts[1:]) + [len(shape.points)]
             for start, end in zip(shape.parts, ends): # holes found by nesting on the sphere: longitudes may jump by 360 degrees
-                multipolygon.append(sph.create_polygon(shell=shape.points[start:end]))
+                multipolygon.append(sph.create_polygon(shell=self.distinct_pts(shape.points[start:end])))
 
         p = sph.create_multipolygon(multipolygon)
         self.polygon = p
@@ -153,7 +162,7 @@ class Spatialcount:
         lat = []
         transform = cst.fractional_crater_transform()
         for shape in sc:
-            c = sph.create_polygon(shell=shape.points)
+            c = sph.create_polygon(shell=self.distinct_pts(shape.points))
             c_area = sph.area(c, radius=rc)
             # diam1 = math.sqrt(4*c_area/math.pi)  # flat diameter from area: better behaviour if noisy vertex positions
             # diam2 = sph.perimeter(c,radius = rc)/math.pi # flat diameter from perimeter: greater error if noisy vertex positions
-- 
2.43.0


From 14f59eb9145669d13c48e1254881788f39924844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 50/66] fix: neighbour search missed craters in adjacent cells
 (wrong distances, IndexError, simulated craters too close)

---
 src/craterstats/Randomnessanalysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 682b19a..ebb869d 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -548,6 +548,13 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cone_hpx(self, lon, lat, radius):
+    """
+    find HEALpix cells overlapping cone (search can miss cells which reach only a little way into cone: extend by cell size)
+    """
+    radius = min(radius * u.rad + self.hp.pixel_resolution, math.pi * u.rad)
+    return self.hp.cone_search_lonlat(lon * u.deg, lat * u.deg, radius)
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -569,7 +576,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+                hpx_neighbours = cone_hpx(self, lon, lat, angular_radius)
                 for id in hpx_neighbours:
                     if id in hpd:
                         len0 = len(hpd[id])
@@ -624,7 +631,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cone_hpx(self, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From fa107d2fae05881eac215a2e487e48c91ba4f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 51/66] fix: randomness analysis of few trials over more than a
 sixth of the globe crashed (grid of less than one cell)

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index ebb869d..253f5e8 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(round(np.log2(math.sqrt(desired_n_hpx/12))), 0)
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From a2b4f893213213bb9e8197bc2ef65fb359666bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 52/66] fix: randomness results with a measure of no analysed
 bins could not be read again

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 253f5e8..8999624 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -422,7 +422,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
         for measure in self.montecarlo:
             trials = (
-                ['trials  = {index, ' + ", ".join([b for b in self.montecarlo[measure]['trials']])]
+                ['trials  = {' + ", ".join(['index'] + [b for b in self.montecarlo[measure]['trials']])]
                 + ["\t".join([f"{t:<12}"] + [f"{v[t]:<12.7g}" for bin,v in self.montecarlo[measure]['trials'].items()])
                             for t in range(self.montecarlo[measure]['n_trials']) ]
                 + ['}'])
-- 
2.43.0


From 0bdb517b36a7ff00985b24b5d623a1e6faf99ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 53/66] fix: n_sigma charts of a single bin failed (no second
 tick to take spacing from)

---
 src/craterstats/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 40051f4..130f3c2 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -217,9 +217,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
+    xminor = (v[1] - v[0]) / 2
+    xtickv = [val for val in v if d_range[0] <= val <= d_range[1]]
+    xtickname = [txt for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]
+    if not xtickv: return [], [], xminor, []
     if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
     xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
-- 
2.43.0


From 32e19329b6429c72c3607f6878a0a0c42cf96b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 54/66] fix: plots failed where a randomness analysis had too
 few craters in every bin

---
 src/craterstats/Cratercount.py | 1 +
 src/craterstats/cli.py         | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9ab6f07..a7e6388 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -57,6 +57,7 @@ class Cratercount:
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
+            if not c['n_sigma']['bin']: return None, None # no bin has enough craters
             measures = sorted(set(c['n_sigma'].keys()) - {'bin'})
             trials = [c[m]['n_trials'] for m in measures]
             return c['n_sigma'],trials
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6a1cb37..10c1e0c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -443,7 +443,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                     ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
-                    if selection==[0]:
+                    if not ra.montecarlo[measure]['stats']:
+                        print(f"{measure}: too few craters")
+                    elif selection==[0]:
                         ra.plot_n_sigma(cps, measure)
                         savefig(f'-{measure}-n_sigma')
                     else:
-- 
2.43.0


From fa6cbc3cb60f6762dd13af5e4488c0dbdec4cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 55/66] fix: write crater rims and shapefiles of small bodies
 with their full radius

---
 src/craterstats/Spatialcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 02c7c1e..4153fdf 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -298,7 +298,7 @@ class Spatialcount:
 
         theta = [2 * math.pi * i / ns for i in range(ns + 1)]
         cx, cy = np.array([(math.cos(e), math.sin(e)) for e in theta]).T
-        rs = f'{self.planetary_radius * 1e3:0.0f}'
+        rs = f'{self.planetary_radius * 1e3:.10g}'
         wkt = f'GEOGCS["Spherical_GCS_{rs}", DATUM["Sphere_{rs}", SPHEROID["Sphere_{rs}", {rs}, 0]], PRIMEM["Greenwich", 0], UNIT["Degree", 0.0174532925199433]]'
         geod = prj.CRS(wkt)
         rims = []
@@ -309,7 +309,7 @@ class Spatialcount:
         for d, x, y in zip(diam, lon, lat):
             origin = (round(x/grid)*grid,round(y/grid)*grid)
             if not origin in t_dict:
-                proj4 = f"+proj=laea +lat_ts=0 +lat_0={origin[1]} +lon_0={origin[0]} +R={self.planetary_radius * 1e3:0.0f} +units=m +no_defs"
+                proj4 = f"+proj=laea +lat_ts=0 +lat_0={origin[1]} +lon_0={origin[0]} +R={self.planetary_radius * 1e3:.10g} +units=m +no_defs"
                 laea = prj.CRS(proj4)
                 t_dict[origin] = prj.Transformer.from_crs(laea, geod, always_xy=True)  # laea.geodetic_crs
                 t_dict[(origin,'inverse')] = prj.Transformer.from_crs(geod, laea, always_xy=True)
-- 
2.43.0


From 6c97d1ddde616f8aba5772cac6b9df8a78acbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 56/66] fix: -text_halo 0 was overridden by the default of
 crater plots

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 10c1e0c..2905d33 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -232,7 +232,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From acbbc6556d6d89bbe9e69e0e267e16d6589c543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 57/66] fix: axis title of chronology and rate plots rounded
 the reference diameter (N(>0 km) for 0.5 km)

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 3a32a00..790a44e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -200,8 +200,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From d46258f820ed1fd8aa6c9d6d9e41619770711a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 58/66] fix: legend lost the entry after an age fit when its
 codes give fits no text, or when a name is 'fit'

---
 src/craterstats/Craterplot.py    | 2 +-
 src/craterstats/Craterplotset.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index dfa142a..80b8662 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -197,7 +197,7 @@ class Craterplot:
 
             expansion=np.array([.99,1.01])
             fit=cps.pf.getplotdata(cps.presentation,self.a0[0],range=self.range*expansion)
-            cps.ax.plot(np.log10(fit['d']), fit['y'], label='fit', color=self.colour, lw=.7*cps.sz_ratio)
+            cps.ax.plot(np.log10(fit['d']), fit['y'], label='\tfit', color=self.colour, lw=.7*cps.sz_ratio)
 
             if self.show_age:
                 st=cst.str_age(self.t[0], self.t[2] - self.t[0], self.t[0] - self.t[1], cps.sig_figs, mu=cps.mu)
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 790a44e..d60f96e 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -537,9 +537,9 @@ class Craterplotset:
             if skip:
                 skip=False
                 continue
-            if e=='fit':
-                skip = True
+            if e=='\tfit':
                 if set(self.legend) & set('crN') != set():
+                    skip = True # following entry is combined with this one
                     h1.append((h[i],h[i+1]))
                     b1.append(b[i+1])
             else:
-- 
2.43.0


From 180b06e1fc625af72a0cc856bbe9fe17e337605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 59/66] fix: Poisson likelihood failed for counts far denser
 than the oldest age

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 296b8fa..6295d81 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -65,7 +65,7 @@ class Craterpdf:
         pdf0 = gm.poisson(self.k, lam) * cf.phi(self.ts) # include dC/dt factor
         pdf0 = pdf0.astype(float)
         if np.sum(pdf0)<1e-30: #force line peak if under-resolved
-            pdf0[np.searchsorted(lam, self.k)] = 1.
+            pdf0[min(np.searchsorted(lam, self.k), np.searchsorted(self.ts, self.ts[-1]))] = 1. # at most the age limit
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From 022414982b3656e2867773d7ba75e66a7847590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 60/66] fix: colours of the crater number map did not
 correspond to its colour bar labels

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index d60f96e..e75d0ea 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -955,7 +955,7 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', vmin=0, vmax=8, extent=[0, 1, 0, 1])
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From 9515c39ad020594509f0e837ce40922508f75a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 61/66] fix: Poisson ages of steep chronologies were cut off
 below the age limit

---
 src/craterstats/Craterpdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 6295d81..fa802e7 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -32,8 +32,9 @@ class Craterpdf:
         :param n_samples: number of samples for likelihood curve
         """
 
-        x=np.linspace(-10, 5, n_samples) #additive change to a0 (equidistant in fitting space)
         a0=cf.a0(1.)
+        x_max=max(5., cf.a0(cf.ts[-1])-a0) #steep chronologies need more to reach the age limit
+        x=np.linspace(-10, x_max, n_samples) #additive change to a0 (equidistant in fitting space)
         self.ts = cf.t(a0=a0+x)
         self.dt = self.ts - np.roll(self.ts, 1)
         self.dt[0] = self.dt[1]
-- 
2.43.0


From e8ecd284849a3157117bf9662785245f193ad860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 62/66] fix: plotting an unbinned count with stored randomness
 results outside cumulative presentation

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index e75d0ea..e570121 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -636,6 +636,7 @@ class Craterplotset:
         if np.isnan(dx) or np.isnan(dy): # dx - empty crater files; dy - non-cml, binning=none
             xr = cst.DEFAULT_XRANGE[self.presentation]
             yr = cst.DEFAULT_YRANGE[self.presentation]
+            self.max_y = yr[1] - gm.mag(yr)*3/16 # for n_sigma panel
         elif self.presentation == 'differential':
             if int(dy) % 2 == 1: # odd
                 yr += [0, 1] if big_bottom else [-1, 0]
-- 
2.43.0


From d4d42d8cfca288a9f578b4c77b5e77dfdfacabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:06 +0000
Subject: [PATCH 63/66] fix: graticule of maps across the antimeridian

---
 src/craterstats/Spatialcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 4153fdf..1b423ca 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -398,6 +398,7 @@ class Spatialcount:
         # do gridlines - this probably needs improving for poles
         if grid:
             lonr, latr = ortho_proj(xr0, yr0, inverse=True)
+            lonr = cenlon + (np.array(lonr) - cenlon + 180) % 360 - 180 # keep together across antimeridian
 
             xtickv = gm.ticks(lonr, 6)
             ytickv = gm.ticks(latr, 6)
@@ -415,7 +416,7 @@ class Spatialcount:
             for lon in xtickv[1:-1]:
                 x_mer, y_mer = ortho_proj( np.repeat(lon,ns), np.linspace(ytickv[0]-dlon, ytickv[-1]+dlon, ns))  # plot parallels
                 ax.plot(x_mer, y_mer, color=cps.grey[0], linewidth=0.3*cps.sz_ratio)
-                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {lon:.7g}°',
+                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {(lon + 180) % 360 - 180:.7g}°',
                         ha='left',va='bottom',color=cps.grey[0],fontsize=cps.scaled_pt_size*.5)
 
         ax.set_xlim(xr[0],xr[1])
-- 
2.43.0


From 9eed62c1aff69c495f4876925380ddf68bd6e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 64/66] fix: n_sigma panel aligned with diameter axis when bins
 extend beyond it

---
 src/craterstats/Craterplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 80b8662..40f6c75 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -157,6 +157,7 @@ class Craterplot:
             cps.ax_ra.spines['top'].set_position(('data', cst.n_sigma_scaling(3)))
             cps.ax_ra.set_xticks(xtickv)
             cps.ax_ra.set_xticks(xminorv, minor=True)
+            cps.ax_ra.set_xlim(cps.xrange[0], cps.xrange[1]) # ticks beyond would extend it
             cps.ax_ra.set_xticklabels([])
             cps.ax_ra.tick_params(which='both', length=0)
             cps.ax_ra.grid(True, which='both', color=cps.grey[3], linewidth=.04 * cps.scaled_pt_size)
-- 
2.43.0


From 0b39b51c8756193efca52babdf204f275d65dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 65/66] fix: relative path of user functions file was lost in
 other directories

---
 src/craterstats/miscellaneous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 130f3c2..50e9787 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,6 +88,7 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
+            path = os.path.abspath(path)  # later commands may be given from another directory
             s = ['#path to functions_user.txt', path]
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
-- 
2.43.0


From 9324e0b14a29f0ab9d362e6125f26a0615c90b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:01 +0000
Subject: [PATCH 66/66] fix: setting a user functions file outside conda raised
 TypeError

---
 src/craterstats/miscellaneous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 50e9787..4c17d08 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,6 +88,7 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
+            if not self.config: sys.exit('User functions file can only be set in a conda environment')
             path = os.path.abspath(path)  # later commands may be given from another directory
             s = ['#path to functions_user.txt', path]
             gm.write_textfile(self.config, s)
-- 
2.43.0

