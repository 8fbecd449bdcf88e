From 1d18d1c522b4ca6e7cb24e5509a3ac68b918240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 01/67] fix: DAG.remove_in_edges removes the incoming edges

It asked for the reversed edge, so every redefinition of a node with
parents failed with 'edge not in graph'.
---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..c3a3480 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From 24f6238539e07c4c3231962c625541221890a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/67] fix: a rejected cyclic definition leaves the network
 unchanged

The node was removed after the cycle had been found, so a node that had been
there before (with its children's edges) was lost with the rejected one.
---
 src/sims_pars/bayesnet/bn.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..44876c5 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -72,23 +72,19 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not
+        if name in loci.Parents or \
+                (name in self.DAG and not self.DAG.descendants(name).isdisjoint(loci.Parents)):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From 564e49b3c6e06cfc4175ad54a11ba3c9b698ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/67] fix: a redefined node drops the description of its
 previous definition

---
 src/sims_pars/bayesnet/bn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 44876c5..2e45e6d 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -78,6 +78,8 @@ class BayesianNetwork:
             raise AttributeError('The node causes cyclic paths')
 
         self.DAG.add_node(name, loci=loci, **kwargs)
+        if 'Des' not in kwargs:
+            self.DAG.nodes[name].pop('Des', None)
         self.DAG.remove_in_edges(name)
 
         for pa in loci.Parents:
-- 
2.43.0


From b4f8dc941be32b091f47afc4c877b65f561dc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 04/67] fix: merge keeps the dependants of a redefined node

Merging removed the node together with its outgoing edges, after which the
edge check took it for an undefined parent and turned it into an exogenous
node. Only the edges into the redefined nodes have to go, before any of the
new definitions is added.
---
 src/sims_pars/bayesnet/bn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 2e45e6d..5138745 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -234,11 +234,11 @@ class BayesianNetwork:
 
         bn = self.copy(name)
         bn.defrost()
-        for node in sub_bn.Order:
-            if sub_bn.is_exogenous(node):
-                continue
+        nodes = [node for node in sub_bn.Order if not sub_bn.is_exogenous(node)]
+        for node in nodes:
             if node in bn:
-                bn.DAG.remove_node(node)
+                bn.DAG.remove_in_edges(node)
+        for node in nodes:
             bn.append_from_js(sub_bn[node].to_json())
 
         bn.__check_edges()
-- 
2.43.0


From 0dd15732f26a3c345e54e3aa54c80ab33f4972a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/67] fix: the description of a node survives to_json, copy
 and merge

---
 src/sims_pars/bayesnet/bn.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 5138745..ae8294c 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -27,8 +27,16 @@ def find_exo(bn):
     return [k for k, v in bn.DAG.nodes.data() if isinstance(v['loci'], ExoValueLoci)]
 
 
+def form_node_js(bn, node):
+    dat = bn.DAG.nodes[node]
+    js = dat['loci'].to_json()
+    if 'Des' in dat:
+        js['Des'] = dat['Des']
+    return js
+
+
 def form_js(bn):
-    nodes = [bn.DAG.nodes[node]['loci'].to_json() for node in bn.DAG.nodes()]
+    nodes = [form_node_js(bn, node) for node in bn.DAG.nodes()]
     return {
         'Name': bn.Name,
         'Nodes': nodes,
@@ -239,7 +247,7 @@ class BayesianNetwork:
             if node in bn:
                 bn.DAG.remove_in_edges(node)
         for node in nodes:
-            bn.append_from_js(sub_bn[node].to_json())
+            bn.append_from_js(form_node_js(sub_bn, node))
 
         bn.__check_edges()
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
@@ -274,7 +282,7 @@ class BayesianNetwork:
 
         else:
             for node in self.DAG.nodes():
-                bn.append_from_js(self[node].to_json())
+                bn.append_from_js(form_node_js(self, node))
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
         return bn
 
-- 
2.43.0


From f3a8cb2d5838a9814d00aa505f3e69aa7d285f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 06/67] fix: BayesianNetwork.extend copies the definitions of
 the nodes

It passed the bare names, which define exogenous nodes.
---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index ae8294c..0b4d207 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -264,7 +264,7 @@ class BayesianNetwork:
 
         for node in self.Order:
             if override or node not in ext:
-                new_bn.append_from_definition(node)
+                new_bn.append_from_js(form_node_js(self, node))
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 11544291f01b36e15d32fd74ee146ff3c590658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/67] fix: extend does not replace definitions by exogenous
 nodes

As in merge, an undefined node of one network takes the definition the other
one has, and definitions are replaced together, so that the old ones cannot
make a cycle with the new.
---
 src/sims_pars/bayesnet/bn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 0b4d207..f80ab3d 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -262,9 +262,13 @@ class BayesianNetwork:
             new_bn.defrost()
             ext = list(new_bn.Order)
 
-        for node in self.Order:
-            if override or node not in ext:
-                new_bn.append_from_js(form_node_js(self, node))
+        nodes = [node for node in self.Order
+                 if node not in ext or (override and not self.is_exogenous(node))]
+        for node in nodes:
+            if node in ext:
+                new_bn.DAG.remove_in_edges(node)
+        for node in nodes:
+            new_bn.append_from_js(form_node_js(self, node))
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From a3bfdf827efad51abe4538a452371f12e5c49579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 08/67] fix: bayes_net_from_json rebuilds what to_json wrote

It required a key, RVRoots, that to_json does not write, froze the network
object rather than its graph, and set the cached lists under names that
nothing reads. BayesianNetwork.clone works with it.
---
 src/sims_pars/bayesnet/bn.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index f80ab3d..556a519 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -330,11 +330,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From 68b4e0b43849e69ef993585d37255d6ece526d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 09/67] fix: bayes_net_from_script reads the tab-indented
 output of to_script

Lines starting with a tab were silently skipped or crashed.
---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 556a519..ace1a3d 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -302,7 +302,7 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [line.replace(' ', '') for line in lines]
+    lines = [re.sub(r'\s+', '', line) for line in lines]
     for line in lines:
         mat = re.match(r'pcore(\w+){', line, re.I)
         if mat:
-- 
2.43.0


From 93c07c3fa4a7851e342d148c597def1959b6326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 10/67] fix: comment-only lines and empty descriptions in
 scripts

The pattern needed text on both sides of the '#', and failed otherwise.
---
 src/sims_pars/bayesnet/loci.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8e92d90..6ff680d 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -247,10 +247,7 @@ def loci_from_json(js):
 def parse_loci(df):
     df = df.replace(' ', '')
 
-    if '#' in df:
-        df, des = re.match(r'\A(\S+)#(\S+)', df).groups()
-    else:
-        des = ''
+    df, _, des = df.partition('#')
 
     if '~' in df:
         name, loci = re.match(r'\A(\w+)~(\S+)', df).groups()
-- 
2.43.0


From 46fd36108ce9c5b3ae566f291d9a3ed6a2e6a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 11/67] fix: distributions with all their arguments left out
 can be nodes

The parents of a function without arguments raised a TypeError.
---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From c0446d4fb7104d09b34dfb6bd980b013a1d9171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 12/67] fix: graph queries and interventions accept an empty
 set of nodes

set.union(*[]) raises a TypeError; an intervention on no node, or on none
that the chromosome has, changes nothing.
---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 src/sims_pars/bayesnet/dag.py        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..01dc9e0 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index c3a3480..64dd135 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -184,7 +184,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -207,7 +207,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From b24602394c5e72744ef44a9325536403aff0e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 13/67] fix: given values outside the network do not stop
 minimal sampling

sample takes them; sample_minimally failed in the graph query.
---
 src/sims_pars/bayesnet/dag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 64dd135..12c5c3f 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -180,6 +180,8 @@ def get_sufficient_nodes(g, included, given=None):
     given = given if given else dict()
     # remove all parents from the given nodes
     for nod in given:
+        if nod not in mi:
+            continue
         pas = list(mi.predecessors(nod))
         for pa in pas:
             mi.remove_edge(pa, nod)
-- 
2.43.0


From 1cb9da5e4fde2dbf7114986bd6d41e046e948cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 14/67] fix: minimal_requirements keeps what reaches the target
 around cond

It dropped every ancestor of the given nodes, also those that the target
depends on through other paths: with A -> B -> D and A -> D, D given B still
requires A.
---
 src/sims_pars/bayesnet/dag.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 12c5c3f..6788f91 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -159,13 +159,12 @@ def minimal_dag(g, nodes):
 
 
 def minimal_requirements(g, target, cond):
-    anc = set(g.ancestors(target))
-
+    mi = DAG(g)
     for s in cond:
-        if s in anc:
-            anc.difference_update(g.ancestors(s))
+        if s != target and s in mi:
+            mi.remove_in_edges(s)
 
-    return g.sort(anc)
+    return g.sort(mi.ancestors(target))
 
 
 def get_sufficient_nodes(g, included, given=None):
-- 
2.43.0


From 5c45c2605949af1e7fb7872a61b573b3bf87ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 15/67] fix: remove_upstream and remove_downstream remove all
 of their side

---
 src/sims_pars/bayesnet/dag.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 6788f91..64808c5 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -115,25 +115,14 @@ class DAG(nx.DiGraph):
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.ancestors(s)):
-                self.remove_node(s)
+        for s in self.upstream(nodes).difference(nodes):
+            self.remove_node(s)
 
     def remove_downstream(self, nodes):
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        od.reverse()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.descendants(s)):
-                self.remove_node(s)
+        for s in self.downstream(nodes).difference(nodes):
+            self.remove_node(s)
 
     def __str__(self):
         return 'DAG({})'.format(', '.join(self.order()))
-- 
2.43.0


From 9cc09a5210bebc49b3965b05590b9f88a830f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 16/67] fix: a constant distribution gives -inf to impossible
 values

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..7b09455 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else -float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From 67f42b1ceae48428325f5bcad210a141fbedf7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 17/67] fix: CategoricalRV.logpdf uses the normalised
 probabilities

---
 src/sims_pars/prob.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 7b09455..75eca94 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -202,9 +202,11 @@ class CategoricalRV(AbsDistribution):
 
     def logpdf(self, v):
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x * self.logpdf(k) for k, x in v.items() if x]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            if v not in self.cat:
+                return - np.inf
+            return np.log(self.p[self.cat.index(v)])
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From 10e021668be3c2fe6a004f7f103959cbc206b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 18/67] fix: chromosomes can be copied and pickled

---
 src/sims_pars/bayesnet/chromosome.py | 3 ---
 src/sims_pars/simulation/parcore.py  | 6 ------
 2 files changed, 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 01dc9e0..c483a8c 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -81,9 +81,6 @@ class Chromosome:
         loc = [('{}: {:g}' if isinstance(v, float) else '{}: {}').format(k, v) for k, v in self.Locus.items()]
         return ", ".join(loc)
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def to_json(self):
         return {
             'Locus': self.Locus,
diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..f261f60 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -201,9 +201,6 @@ class ParameterCore(Chromosome):
         if shocked_locus:
             self.reset_probability()
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -408,9 +405,6 @@ class PseudoParameterCore(ParameterCore):
             else:
                 self.Locus[k] = s.render(self.Locus, **exo)
 
-    def __dict__(self):
-        return dict()
-
     def reset_sc(self, sc):
         pass
 
-- 
2.43.0


From 9c037b30f00c6f4f4b3e6349b6b020eb8e865089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 19/67] fix: Chromosome.to_json does not share the locus

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index c483a8c..8c4741c 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -83,7 +83,7 @@ class Chromosome:
 
     def to_json(self):
         return {
-            'Locus': self.Locus,
+            'Locus': dict(self.Locus),
             'LogProb': self.LogProb
         }
 
-- 
2.43.0


From 95a88712eeafef22ccc048744d5dbfb444e9967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 20/67] fix: functions of add_data_func can define nodes

---
 src/sims_pars/bayesnet/loci.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 6ff680d..20b76f0 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -113,8 +113,13 @@ class ExoValueLoci(Loci):
 class DistributionLoci(Loci):
     def __init__(self, name, val, pas=None):
         Loci.__init__(self, name)
-        self.Func = complete_function(val)
         self.Parsed = parse_function(val)
+        try:
+            self.Func = complete_function(val)
+        except KeyError:
+            if self.Parsed.Function not in DATA_FUNC:
+                raise
+            self.Func = val
         self.__parents = pas if pas else self.Parsed.Parents
 
     @property
@@ -129,7 +134,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=pas)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=pas)
+            return find_data_sampler(self.Parsed.Function, loc=pas)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From 5ce9bdbd439c2ba43c1cdb57fc52d3575275cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 21/67] fix: Monitor.step accepts time zero

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..c8d05be 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = time if time is not None else self.Time + 1
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From 3bf4a926bd033531c06a3a28e7d1e937074c75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 22/67] fix: variables can share the names of distributions

---
 src/sims_pars/factory/craftstation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..d5f675c 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,11 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+        # variables in loc may share the names of creators
+        name, _, args = seq.partition('(')
+        tools = dict(self.Creators)
+        tools['__creator__'] = self.Creators[name.strip()]
+        return eval('__creator__(' + args, tools, loc)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From b9b25cce5e83eb79a0eebb75ec825ac184f18dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 23/67] fix: math functions in the arguments of distributions

---
 src/sims_pars/factory/craftstation.py | 3 ++-
 src/sims_pars/prob.py                 | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index d5f675c..ee3ac18 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -15,6 +15,7 @@ class AbsCreator(BaseModel, metaclass=ABCMeta):
 class Atelier:
     def __init__(self):
         self.Creators = dict()
+        self.Functions = dict()
 
     def register(self, name, creator):
         self.Creators[name] = creator
@@ -60,7 +61,7 @@ class Atelier:
             seq = self.complete_def(seq)
         # variables in loc may share the names of creators
         name, _, args = seq.partition('(')
-        tools = dict(self.Creators)
+        tools = {**self.Creators, **self.Functions}
         tools['__creator__'] = self.Creators[name.strip()]
         return eval('__creator__(' + args, tools, loc)
 
diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 75eca94..804d457 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -4,6 +4,7 @@ import numpy as np
 from abc import ABCMeta, abstractmethod
 import numpy.random as rd
 from sims_pars.factory import get_atelier, AbsCreator
+from sims_pars.util import MATH_FUNC
 import typing
 import pydantic.types as ptp
 
@@ -254,6 +255,7 @@ class EmpiricalRV(AbsDistribution):
 
 
 DistributionCentre = get_atelier('Distributions')
+DistributionCentre.Functions = MATH_FUNC
 
 
 class CreConst(AbsCreator):
-- 
2.43.0


From 3427a5043a01e15e44ba64ebbafee7125db96223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 24/67] fix: text arguments stay quoted when a definition is
 completed

---
 src/sims_pars/factory/craftstation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ee3ac18..793e0e4 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -31,7 +31,7 @@ class Atelier:
         tp = inputs.func.id
         req = self.Creators[tp].schema()['properties']
 
-        args = [arg.value if isinstance(arg, ast.Constant) else ast.unparse(arg) for arg in inputs.args]
+        args = [ast.unparse(arg) for arg in inputs.args]
 
         named = [arg.arg for arg in inputs.keywords]
         unnamed = {k: v for k, v in req.items() if k not in named}
@@ -48,7 +48,7 @@ class Atelier:
             try:
                 v = args[i]
             except IndexError:
-                v = v['default']
+                v = repr(v['default'])
             temp.append(f'{k}={v}')
 
         unnamed = f'({", ".join(temp)}'
-- 
2.43.0


From 527503ba3e8f7a979d397e5d94ab1a90929b8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 25/67] fix: nodes of a simulation core are fixed once,
 together with what they stand on

---
 src/sims_pars/simulation/nodeset.py   | 117 ++++++++++----------------
 src/sims_pars/simulation/simugroup.py |   2 +-
 2 files changed, 45 insertions(+), 74 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..dadf4f4 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -97,8 +97,8 @@ class NodeSet:
 
         self._resolve_local_nodes(bn)
         self._raise_up_floating()
-        self._resolve_relations(bn)
         self._locate_undefined(bn)
+        self._resolve_relations(bn)
         self._define_sampler_blueprints(bn)
         self._sort_fixed_nodes(bn)
         self.__frozen = True
@@ -124,71 +124,54 @@ class NodeSet:
 
     def _resolve_local_nodes(self, bn, fixed=None):
         """
-        Identify mediators and find requirements
+        Identify mediators and find requirements, from the root to the leaves
         :param bn: source bayesian network
+        :param fixed: nodes fixed by the ascendant groups
         """
         g = bn.DAG
-        mini = dag.minimal_dag(g, set.union(self.__as_fixed, self.__as_floating)).order()
+        self.__was_fixed = set(fixed) if fixed else set()
+        self.FixedNodes = set(self.__as_fixed)
+        self.FloatingNodes = set()
 
-        med = set(mini)
-        med.difference_update(self.__as_fixed)
-        med.difference_update(self.__as_floating)
-        med = g.sort(med)
+        if not self.__parent:
+            self.FixedNodes.update(d for d in bn.Roots if not bn.has_randomness(d))
 
-        self.FloatingNodes = set(self.__as_floating)
-        self.FixedNodes = set(self.__as_fixed)
+        # requirements of the fixed nodes have to be fixed in advance
+        rqs = set()
+        for d in self.FixedNodes:
+            rqs.update(dag.minimal_requirements(g, d, set.union(self.__was_fixed, self.FixedNodes)))
 
-        # pass down fixed
-        if self.__parent:
-            self.__was_fixed = fixed if fixed else set()
-        else:
-            self.__was_fixed = set()
+        for d in g.sort(rqs):
+            if d in self.__was_fixed or d in self.FixedNodes:
+                continue
+            if self.__parent and not bn.is_rv(d) and g.parents(d) <= self.__was_fixed:
+                self.__parent._hoist_node(d)
+                self.__was_fixed.add(d)
+            else:
+                self.FixedNodes.add(d)
+
+        # floating nodes and the mediators to them
         all_fixed = set.union(self.__was_fixed, self.FixedNodes)
 
-        for d in med:
+        rqs = set(self.__as_floating)
+        for d in self.__as_floating:
+            rqs.update(dag.minimal_requirements(g, d, all_fixed))
+        rqs.update(dag.minimal_dag(g, set.union(self.__as_fixed, self.__as_floating)))
+
+        for d in g.sort(rqs):
+            if d in self.FixedNodes or (d in self.__was_fixed and d not in self.__as_floating):
+                continue
             if bn.has_randomness(d, all_fixed):
                 self.FloatingNodes.add(d)
             else:
                 self.FixedNodes.add(d)
                 all_fixed.add(d)
 
-        for d in bn.sort(self.FloatingNodes):
-            if not bn.has_randomness(d, all_fixed):
-                self.FixedNodes.add(d)
-                self.FloatingNodes.remove(d)
-                all_fixed.add(d)
-
-        if not self.__parent:
-            for d in bn.Roots:
-                if not bn.has_randomness(d):
-                    self.FixedNodes.add(d)
-                    all_fixed.add(d)
-
-        rqs = dict()
-        # requirements for floating nodes (giving values when needed)
-        self.ListeningNodes = set()
-        # requirements for fixed nodes (giving values at initialisation)
-        self.ExoNodes = set()
-
-        for i, node in enumerate(mini):
-            par = mini[:i]
-            rq = dag.minimal_requirements(g, node, par)
-
-            if node in self.FloatingNodes:
-                self.ListeningNodes.update(rq)
-            else:
-                self.ExoNodes.update(rq)
-            rqs[node] = rq
-        self.ListeningNodes.difference_update(mini)
-        self.ExoNodes.difference_update(self.FixedNodes)
-
         for ch in self.__children.values():
-            ch._resolve_local_nodes(bn, all_fixed)
+            ch._resolve_local_nodes(bn, set.union(self.__was_fixed, self.FixedNodes))
 
     def _hoist_node(self, node):
-        if node not in self.__was_fixed:
-            self.FixedNodes.add(node)
-            self.__was_fixed.add(node)
+        self.FixedNodes.add(node)
 
     def _raise_up_floating(self):
         self.__will_be_floating = set()
@@ -197,36 +180,21 @@ class NodeSet:
 
         return set.union(self.__will_be_floating, self.FloatingNodes)
 
-    def _resolve_relations(self, bn):
-        to_shift = set([d for d in self.ExoNodes if d not in self.__was_fixed])
-
-        to_hoist = [d for d in to_shift if not bn.has_randomness(d, self.__was_fixed)]
-        to_shift.difference_update(to_hoist)
-
-        self.ExoNodes.difference_update(to_shift)
-        self.FixedNodes.update(to_shift)
+    def _resolve_relations(self, bn, fixed=None):
+        g = bn.DAG
+        self.__was_fixed = set(fixed) if fixed else set()
 
-        if self.__parent:
-            for d in to_hoist:
-                self.__parent._hoist_node(d)
-        else:
-            self.FixedNodes.update(to_hoist)
-            self.ExoNodes.difference_update(to_hoist)
-
-        given = set.union(self.FixedNodes, self.ExoNodes, self.__was_fixed)
-        to_shift = [d for d in self.ListeningNodes if d not in self.__was_fixed]
-        to_shift = [d for d in to_shift if not bn.is_exogenous(d)]
-        for d in to_shift:
-            if bn.has_randomness(d, given):
-                self.FloatingNodes.add(d)
-            else:
-                self.FixedNodes.add(d)
+        # requirements for fixed nodes (giving values at initialisation)
+        self.ExoNodes = set().union(*[g.parents(d) for d in self.FixedNodes])
+        self.ExoNodes.difference_update(self.FixedNodes)
 
+        # requirements for floating nodes (giving values when needed)
+        self.ListeningNodes = set().union(*[g.parents(d) for d in self.FloatingNodes])
         self.ListeningNodes.difference_update(self.FixedNodes)
         self.ListeningNodes.difference_update(self.FloatingNodes)
 
         for ch in self.__children.values():
-            ch._resolve_relations(bn)
+            ch._resolve_relations(bn, set.union(self.__was_fixed, self.FixedNodes))
 
     def _claim_used_nodes(self):
         nodes = set()
@@ -253,8 +221,11 @@ class NodeSet:
                     self.FloatingNodes.add(node)
                 else:
                     self.FixedNodes.add(node)
+                    gfi.add(node)
+                gfl.add(node)
             elif ps <= gfl:
                 self.FloatingNodes.add(node)
+                gfl.add(node)
             else:
                 to_pass_down.add(node)
         for ch in self.__children.values():
diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..e883f9b 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -36,7 +36,7 @@ class SimulationGroup:
                 try:
                     vs[d] = parent[d]
                 except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                    self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
-- 
2.43.0


From 6223822461d4e1aa24b07cbea97f5191f2bc42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 26/67] fix: ParameterCore.duplicate breeds from the parent

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index f261f60..cf59644 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -61,7 +61,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
-- 
2.43.0


From 7d0ddbfc54e9e1d70cfb3eefa1dabba9e9791d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 27/67] fix: a detached core collects the values of its parents
 behind its own

---
 src/sims_pars/simulation/parcore.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index cf59644..5ea5914 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -72,9 +72,10 @@ class ParameterCore(Chromosome):
             return
         self.Parent.remove_children(self.Nickname)
         if collect_pars:
-            for k, v in self.Parent:
-                self[k] = v
-            self.SG.set_local_actors(self)
+            vs = dict(iter(self.Parent))
+            vs.update(self.Locus)
+            self.Locus = vs
+            self.SG.put_local_actors(self)
 
         self.Parent = None
 
-- 
2.43.0


From 9faee74823955c6d1fb739eaf46c5205389653cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 28/67] fix: get_child_samplers prepares the actors of the
 group

---
 src/sims_pars/simulation/parcore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 5ea5914..f9c322a 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -135,8 +135,9 @@ class ParameterCore(Chromosome):
 
         try:
             ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
+        except (KeyError, TypeError):
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+            ca = self.ChildrenActors[group]
         return ca
 
     def find_descendant(self, address):
-- 
2.43.0


From 5ea4ecd217d9c50b15bded70c6312900a9a1957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 29/67] fix: reset_sc reaches the children

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index f9c322a..cc87466 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -206,7 +206,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From 6cccbe8880bc27392d3685c8f9a2074a2e97443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 30/67] fix: parameter cores keep their log probability in
 LogProb

---
 src/sims_pars/simulation/parcore.py   | 15 +++++----------
 src/sims_pars/simulation/simugroup.py |  2 +-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index cc87466..91ed8c2 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -200,9 +200,6 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
-            self.reset_probability()
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -214,7 +211,7 @@ class ParameterCore(Chromosome):
         Log prior with that of offsprings
         :return: log prior probability
         """
-        return self.LogPrior + sum(v.DeepLogPrior for v in self.Children.values())
+        return self.LogProb + sum(v.DeepLogPrior for v in self.Children.values())
 
     def __iter__(self):
         if self.Parent:
@@ -250,8 +247,7 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -262,8 +258,7 @@ class ParameterCore(Chromosome):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
 
 
@@ -446,7 +441,7 @@ class PseudoParameterCore(ParameterCore):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, dict(self))
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -457,5 +452,5 @@ class PseudoParameterCore(ParameterCore):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index e883f9b..1798a32 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -91,7 +91,7 @@ class SimulationGroup:
                 loci.fill(pc)
             prior += loci.evaluate(pc)
 
-        pc.LogPrior = prior
+        pc.LogProb = prior
 
         for act in actors:
             pc.Actors[act].update(pc)
-- 
2.43.0


From 761211a10c2ba22d1c2a056b395e5ee32b3ecc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 31/67] fix: serial ABC collects particles

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..0a2fe95 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -106,7 +106,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_collect), 'Collect posterior'):
                 _, sim, ne = sample_ess(self.Model, eps)
-                post.append(sim)
+                post.append(Particle.from_json(sim))
                 n_eval += ne
 
         for pt in post.Particles:
-- 
2.43.0


From c1580442141d1063be6c99a64246a90ccd818ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 32/67] fix: mutations give up and keep the particle when no
 proposal is possible

---
 src/sims_pars/fit/abc_smc/alg.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..f2867f2 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -69,23 +69,26 @@ def mutate(p0, steps):
 def sample_mutation(model, pt0, steps, unpack=False):
     di = np.Inf
     n_eval = 0
-    p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
+    pt0 = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
     while np.isinf(di):
-        p1 = mutate(p0, steps)
-        p1 = model.serve(p1)
-        if np.isinf(p1.LogProb):
-            continue
-
         n_eval += 1
 
-        sim = model.simulate(p1)
-        di = model.calc_distance(sim)
-
         if n_eval > 20:
             sim = pt0
-            di = pt0['distance']
+            di = model.calc_distance(pt0)
             break
 
+        p1 = mutate(pt0.Pars, steps)
+        try:
+            p1 = model.serve(p1)
+        except ValueError:
+            continue
+        if np.isinf(p1.LogProb):
+            continue
+
+        sim = model.simulate(p1)
+        di = model.calc_distance(sim)
+
     sim = sim.to_json() if unpack else sim
     return di, sim, n_eval
 
-- 
2.43.0


From 3d3fbffda9000b9b741eeb4e87f608d674c15ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 33/67] fix: ABC-SMC keeps the particles at the threshold

---
 src/sims_pars/fit/abc_smc/alg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index f2867f2..a0b85fb 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -208,8 +208,8 @@ class ApproxBayesComSMC(Fitter):
         wts = wts0.copy()
         for a in range(len(wts)):
             d = ds[a]
-            if d < eps0:
-                wts[a] = wts[a] if d < eps1 else 0
+            if d <= eps0:
+                wts[a] = wts[a] if d <= eps1 else 0
         wts /= wts.sum()
         return wts
 
@@ -247,7 +247,7 @@ class ApproxBayesComSMC(Fitter):
         acc = np.zeros(n_iter)
         for i, p in enumerate(theta_p):
             d_p = p['distance']
-            if d_p < eps1:
+            if d_p <= eps1:
                 acc[i] = 1
 
         # Update accepted proposals
@@ -324,7 +324,7 @@ class ApproxBayesComSMC(Fitter):
 
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
-            if d_p < eps:
+            if d_p <= eps:
                 post.append(pt1)
             else:
                 post.append(pt1)
-- 
2.43.0


From 7cc87fd9345b58fd33f40db2ef87b427e8abbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 34/67] fix: the posterior of ABC-SMC takes the accepted
 proposals

---
 src/sims_pars/fit/abc_smc/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index a0b85fb..cda7fd9 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -325,7 +325,7 @@ class ApproxBayesComSMC(Fitter):
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
             if d_p <= eps:
-                post.append(pt1)
+                post.append(ptp)
             else:
                 post.append(pt1)
 
-- 
2.43.0


From 51080fdd9c464c0d5fceb180739614ead7471391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 35/67] fix: the distance to a negative target is positive

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..17acff7 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = error * abs(v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From 2528187ca8fadead2402fa325743ce96c8934745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 36/67] fix: n_sims can be set without n_ems

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..3bb172b 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -68,10 +68,10 @@ class BayesHistoryMatching(Fitter):
         self.Settings['n_pars'] = n_pars = len(model.Domain)
 
         if self.Settings['n_sims'] <= 0:
-            self.Settings['n_sims'] = n_sims = n_pars * 10
+            self.Settings['n_sims'] = n_pars * 10
 
         if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = n_sims * 100
+            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
 
         v_m = self.Settings['var_model']
 
-- 
2.43.0


From 9dfd907d9a3b55b97a023e58ccba11ab531db50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 37/67] fix: emulators are trained on the scale they predict on

---
 src/sims_pars/fit/hme/alg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 3bb172b..fda4c32 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -118,6 +118,7 @@ class BayesHistoryMatching(Fitter):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
             sim = model.simulate(pars)
             model.flatten(sim)
+            sim['Xs'] = xs
             pts_sim.append(sim)
         return pts_sim
 
-- 
2.43.0


From 769f91211a4e79ff6904e174f6245b554c2d0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 38/67] fix: history matching simulates with all the parameters

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index fda4c32..832cf21 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -116,7 +116,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in tqdm.tqdm(xss, desc='Simulation'):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             sim['Xs'] = xs
             pts_sim.append(sim)
@@ -188,7 +188,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in xss:
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             post.append(sim)
 
-- 
2.43.0


From 92a805e4b843d844735714834d02e3451b1d7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 39/67] fix: particles at the cutoff are plausible

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 832cf21..2961cec 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -158,7 +158,7 @@ class BayesHistoryMatching(Fitter):
 
         co, acc = self.Settings['cutoff'], self.Settings['min_acc']
         co = max(co, np.quantile(ims, acc))
-        pts_pls = [pt for pt in pts_emu if pt['Imp'] < co]
+        pts_pls = [pt for pt in pts_emu if pt['Imp'] <= co]
 
         acc = len(pts_pls) / len(pts_emu)
         return pts_pls, co, acc
-- 
2.43.0


From c4b1acaa5664b3f64f058e8dbd31d5cf36c34785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 40/67] fix: the genetic algorithm and fitting modules can be
 imported

---
 src/sims_pars/fit/ga/__init__.py | 2 +-
 src/sims_pars/fit/ga/alg.py      | 6 +++---
 src/sims_pars/fitting/fitter.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/ga/__init__.py b/src/sims_pars/fit/ga/__init__.py
index 0381e63..3214c58 100644
--- a/src/sims_pars/fit/ga/__init__.py
+++ b/src/sims_pars/fit/ga/__init__.py
@@ -1 +1 @@
-from fit.ga.alg import GeneticAlg
+from sims_pars.fit.ga.alg import GeneticAlg
diff --git a/src/sims_pars/fit/ga/alg.py b/src/sims_pars/fit/ga/alg.py
index b5f7cb0..3d85e86 100644
--- a/src/sims_pars/fit/ga/alg.py
+++ b/src/sims_pars/fit/ga/alg.py
@@ -1,8 +1,8 @@
 from sims_pars.fitting.fitter import Fitter, ParameterSet
 from sims_pars.fitting.util import draw, draw_parallel, serve_and_evaluate, serve_and_evaluate_parallel
-from fit.ga.cross import get_crossover
-from fit.ga.select import get_selector
-from fit.ga.mutate import get_mutator
+from sims_pars.fit.ga.cross import get_crossover
+from sims_pars.fit.ga.select import get_selector
+from sims_pars.fit.ga.mutate import get_mutator
 import numpy as np
 import numpy.random as rd
 from scipy.special import logsumexp
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..6419429 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -3,7 +3,7 @@ from sims_pars.bayesnet import Chromosome
 from sims_pars.monitor import Monitor
 from sims_pars.fitting.base import AbsObjective
 from sims_pars.fitting.util import draw
-from fit.results import ParameterSet
+from sims_pars.fit.results import ParameterSet
 from joblib import Parallel, delayed
 
 
-- 
2.43.0


From b4b3468778bfbfa436a41d7f72b359c541d969a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 41/67] fix: simulations without a distance are never accepted

---
 src/sims_pars/fit/abc_smc/alg.py | 8 ++++----
 src/sims_pars/fit/abcom/alg.py   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index cda7fd9..3c93620 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -24,7 +24,7 @@ class StateABCSMC:
 def sample_fin(model, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -37,7 +37,7 @@ def sample_fin(model, unpack=False):
 def sample_fin_cont(model, p0, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         p.impulse(p0, model.BayesianNetwork)
@@ -51,7 +51,7 @@ def sample_fin_cont(model, p0, unpack=False):
 def sample_ess(model, eps, unpack=False):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -70,7 +70,7 @@ def sample_mutation(model, pt0, steps, unpack=False):
     di = np.Inf
     n_eval = 0
     pt0 = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
 
         if n_eval > 20:
diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index 0a2fe95..e987647 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -17,7 +17,7 @@ class StateABC:
 def sample_fin(model):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -28,7 +28,7 @@ def sample_fin(model):
 def sample_ess(model, eps):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -68,7 +68,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_sim), 'Evaluate prior'):
                 di = np.Inf
-                while np.isinf(di):
+                while not np.isfinite(di):
                     n_eval += 1
                     p = self.Model.sample_prior()
                     sim = self.Model.simulate(p)
-- 
2.43.0


From ade1bde0a3ec176aeedcf18c2c65dc1ab586c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 42/67] fix: a distribution that cannot exist for its parents
 has log-probability minus infinity

---
 src/sims_pars/bayesnet/loci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 20b76f0..2683984 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -146,7 +146,7 @@ class DistributionLoci(Loci):
         try:
             dist = self.get_distribution(pas)
             return dist.logpdf(pas[self.Name])
-        except ValidationError:
+        except (ValidationError, ValueError, ArithmeticError):
             return - np.Inf
 
     def to_json(self):
-- 
2.43.0


From b5921600acc22265204d0f6d14b4200ff25837c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 43/67] fix: an expression with variables is a function of
 them, never a constant

---
 src/sims_pars/bayesnet/loci.py | 2 ++
 src/sims_pars/util.py          | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 2683984..6ebbd26 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -261,6 +261,8 @@ def parse_loci(df):
         name, loci = re.match(r'\A(\w+)=(\S+)', df).groups()
         if loci.startswith('f('):
             loci = PseudoLoci(name, loci)
+        elif parse_math_expression(loci).Parents:
+            loci = FunctionLoci(name, loci)
         else:
             try:
                 loci = ValueLoci(name, loci)
diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..c37e276 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -113,7 +113,7 @@ def find_ast_parents(seq_ast):
     for s in ast.walk(seq_ast):
         if isinstance(s, ast.Name):
             v.add(s.id)
-        elif isinstance(s, ast.Call):
+        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name):
             f.add(s.func.id)
     return v - f, f
 
-- 
2.43.0


From 110620209abd9137882d5ec70b0681f6d6cdbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 44/67] fix: a distribution misses its parents instead of using
 functions of the same name

---
 src/sims_pars/bayesnet/loci.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 6ebbd26..5987805 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -132,7 +132,11 @@ class DistributionLoci(Loci):
 
     def get_distribution(self, pas=None):
         try:
-            return parse_distribution(self.Func, loc=pas)
+            loc = {pa: pas[pa] for pa in self.Parents}
+        except (KeyError, TypeError):
+            raise NameError('Parent nodes are not fully defined')
+        try:
+            return parse_distribution(self.Func, loc=loc)
         except KeyError:
             return find_data_sampler(self.Parsed.Function, loc=pas)
 
-- 
2.43.0


From 68c49ba4fb22f424608a522f74be0884ae611810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 45/67] fix: the log-probability of values is a plain float,
 also without random nodes

---
 src/sims_pars/fn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fn.py b/src/sims_pars/fn.py
index ef9d832..1818ce0 100644
--- a/src/sims_pars/fn.py
+++ b/src/sims_pars/fn.py
@@ -69,7 +69,7 @@ def evaluate_nodes(bn, pars):
     """
     nodes = bn.DAG.nodes
 
-    lps = np.sum([nodes[k]['loci'].evaluate(pars) for k in pars.keys() if k in nodes])
+    lps = float(np.sum([nodes[k]['loci'].evaluate(pars) for k in pars.keys() if k in nodes]))
     if np.isnan(lps):
         lps = - np.Inf
     return lps
-- 
2.43.0


From e4798493b40083150f6ae969ef741357efa4f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 46/67] fix: impulse accepts loci which are not in the network

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 8c4741c..e734cdf 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys() if k in g])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
-- 
2.43.0


From 600cf163f53146c4f2fda20432bdf532b3ac71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 47/67] fix: a failing impulse does not leave a stale
 log-probability behind

---
 src/sims_pars/bayesnet/chromosome.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index e734cdf..3f574b1 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -51,14 +51,13 @@ class Chromosome:
             shocked = shocked.union(non_imp)
             shocked.intersection_update(self.Locus.keys())
             self.Locus.update(imp)
+            if imp:
+                self.reset_probability()
 
             for nod in bn.Order:
                 if nod in shocked:
                     self[nod] = g.nodes[nod]['loci'].render(self)
 
-            if imp:
-                self.reset_probability()
-
         else:
             imp = {k: v for k, v in new_locus.items() if k in self}
             self.Locus.update(imp)
-- 
2.43.0


From 6ec5636cf5ed82806881c4e6b6cd408354296b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 48/67] fix: undeclared nodes are passed down in order

---
 src/sims_pars/simulation/nodeset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index dadf4f4..33c044e 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -205,7 +205,7 @@ class NodeSet:
         return nodes
 
     def _pass_down_undefined(self, bn, fixed, floating, nodes):
-        to_pass_down = set()
+        to_pass_down = list()
         gfi = set(self.FixedNodes)
         gfi.update(fixed)
 
@@ -227,7 +227,7 @@ class NodeSet:
                 self.FloatingNodes.add(node)
                 gfl.add(node)
             else:
-                to_pass_down.add(node)
+                to_pass_down.append(node)
         for ch in self.__children.values():
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
-- 
2.43.0


From eb2b4be94f121f5a885f93866d4d3b7952da0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 49/67] fix: a node hoisted for a sibling group is not fixed
 again below

---
 src/sims_pars/simulation/nodeset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 33c044e..234f685 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -183,6 +183,8 @@ class NodeSet:
     def _resolve_relations(self, bn, fixed=None):
         g = bn.DAG
         self.__was_fixed = set(fixed) if fixed else set()
+        # nodes which have been hoisted on behalf of the other groups
+        self.FixedNodes.difference_update(self.__was_fixed - self.__as_fixed)
 
         # requirements for fixed nodes (giving values at initialisation)
         self.ExoNodes = set().union(*[g.parents(d) for d in self.FixedNodes])
-- 
2.43.0


From f1b7fd30e660b05796a44bacccb93a063563a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 50/67] fix: samplers of intervened variables are refreshed
 when their parents change

---
 src/sims_pars/simulation/parcore.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 91ed8c2..676a6c0 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -164,24 +164,25 @@ class ParameterCore(Chromosome):
         except AttributeError:
             g = bn.DAG
         if isinstance(imp, dict):
-            shocked = g.downstream(imp.keys())
+            affected = g.downstream(imp.keys())
+            shocked = set(affected)
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
             shocked = shocked.union(non_imp)
         elif isinstance(imp, list):
-            shocked = g.downstream(imp)
-            shocked = shocked.union(imp)
+            affected = g.downstream(imp)
+            shocked = affected.union(imp)
             imp = dict()
         else:
             raise AttributeError('imp defined incorrectly')
         # print(shocked)
-        self.__set_response(imp, shocked)
+        self.__set_response(imp, shocked, affected)
 
-    def __set_response(self, imp, shocked):
+    def __set_response(self, imp, shocked, affected):
         shocked_locus = [s for s in shocked if s in self.Locus]
         try:
-            shocked_actors = [k for k, v in self.Actors.items() if k in shocked and isinstance(v, FrozenSingleActor)]
+            shocked_actors = [k for k, v in self.Actors.items() if k in affected and isinstance(v, FrozenSingleActor)]
         except AttributeError:
             shocked_actors = list()
 
@@ -189,7 +190,7 @@ class ParameterCore(Chromosome):
         try:
             for k, v in self.ChildrenActors.items():
                 try:
-                    shocked_hoist[k] = [s for s, t in v.items() if s in shocked and isinstance(t, FrozenSingleActor)]
+                    shocked_hoist[k] = [s for s, t in v.items() if s in affected and isinstance(t, FrozenSingleActor)]
                 except AttributeError:
                     shocked_hoist[k] = dict()
         except AttributeError:
@@ -198,7 +199,7 @@ class ParameterCore(Chromosome):
         self.SG.set_response(imp, shocked_locus, shocked_actors, shocked_hoist, self)
 
         for v in self.Children.values():
-            v.__set_response(imp, shocked)
+            v.__set_response(imp, shocked, affected)
 
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
-- 
2.43.0


From 881c0abf2cc2c04fc0310ef1201341de15bfa882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 51/67] fix: mutated values stay strictly inside large bounds

---
 src/sims_pars/fit/ga/mutate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/ga/mutate.py b/src/sims_pars/fit/ga/mutate.py
index 5a9a1eb..cb6e7d3 100644
--- a/src/sims_pars/fit/ga/mutate.py
+++ b/src/sims_pars/fit/ga/mutate.py
@@ -46,7 +46,10 @@ class RwMutator(AbsMutator):
         for node in obj.Domain:
             name = node.Name
             v1 = rd.normal(p[name], self.Scales[name])
-            locus[name]= max(min(v1, node.Upper - self.Eps), node.Lower + self.Eps)
+            # eps vanishes next to a large bound; the next float does not
+            upper = min(node.Upper - self.Eps, np.nextafter(node.Upper, -np.inf))
+            lower = max(node.Lower + self.Eps, np.nextafter(node.Lower, np.inf))
+            locus[name] = max(min(v1, upper), lower)
 
         return locus
 
-- 
2.43.0


From 0c7074160dcf8324f3a7ad0f386158198ecd6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 52/67] fix: a definition whose text is not one expression, or
 not one distribution, is refused

---
 src/sims_pars/bayesnet/loci.py        | 4 ++++
 src/sims_pars/factory/craftstation.py | 7 ++-----
 src/sims_pars/util.py                 | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 5987805..7b9ad8d 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -1,4 +1,5 @@
 from abc import ABCMeta, abstractmethod
+import ast
 import re
 import numpy as np
 from sims_pars.util import *
@@ -264,6 +265,9 @@ def parse_loci(df):
     elif re.match(r'\A\w+=\S+', df):
         name, loci = re.match(r'\A(\w+)=(\S+)', df).groups()
         if loci.startswith('f('):
+            call = ast.parse(loci, mode='eval').body
+            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name)):
+                raise SyntaxError('A pseudo variable should be a single function')
             loci = PseudoLoci(name, loci)
         elif parse_math_expression(loci).Parents:
             loci = FunctionLoci(name, loci)
diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 793e0e4..74ad02d 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -21,11 +21,8 @@ class Atelier:
         self.Creators[name] = creator
 
     def complete_def(self, seq):
-        root = ast.parse(seq)
-        for inputs in ast.walk(root):
-            if isinstance(inputs, ast.Call):
-                break
-        else:
+        inputs = ast.parse(seq, mode='eval').body
+        if not isinstance(inputs, ast.Call):
             raise AttributeError('Unknown input type')
 
         tp = inputs.func.id
diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index c37e276..d60ff0f 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -119,7 +119,7 @@ def find_ast_parents(seq_ast):
 
 
 def parse_parents(seq):
-    return find_ast_parents(ast.parse(seq))
+    return find_ast_parents(ast.parse(seq, mode='eval'))
 
 
 class MathExpression:
@@ -207,7 +207,7 @@ class ParsedFunction:
 def parse_function(seq):
     seq = re.sub(r'\s+', '', seq)
     try:
-        seq_ast = ast.parse(seq)
+        seq_ast = ast.parse(seq, mode='eval')
     except SyntaxError:
         raise SyntaxError
 
-- 
2.43.0


From 56617c96f528b472a3399445a951ef1dbe45890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 53/67] fix: the data package can be imported

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From e9da1d14b29a0f258117d5150119e3ff7dfb8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 54/67] fix: transition matrices can be sampled from a current
 state

---
 src/sims_pars/data/static.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..bcfda49 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -26,15 +26,9 @@ class TransitionMatrix(AbsDataSet):
         return self[current]()
 
     def sample(self, n=1, **kwargs):
-        if n == 1:
-            return self(current=kwargs)
-        else:
-            if 'currents' in kwargs:
-                ks = kwargs['currents']
-            else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+        if 'currents' in kwargs:
+            return [self(current=k) for k in kwargs['currents']]
+        return AbsDataSet.sample(self, n, current=kwargs['current'])
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From 640b3be401db29ca32dad22b986e2c5a128542cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 55/67] fix: time series extend their earliest and latest rows,
 in whatever order the rows come

---
 src/sims_pars/data/timeseries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index bb6ee1a..630f42b 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -10,6 +10,7 @@ __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeC
 class TimeSeries(AbsDataSet):
     def __init__(self, mat, i_time, i_x, kind='nearest'):
         AbsDataSet.__init__(self, mat)
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         xs = np.array(mat[i_x])
         self.IndexTime = i_time
@@ -28,6 +29,7 @@ class TimeSeriesVector(AbsDataSet):
         AbsDataSet.__init__(self, mat)
         self.IndexTime = i_time
         self.IndexXs = i_xs
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         self.Lines = dict()
 
@@ -47,6 +49,7 @@ class TimeSeriesProbabilityTable(AbsDataSet):
         AbsDataSet.__init__(self, mat)
         self.IndexTime = i_time
         self.IndexXs = i_xs
+        mat = mat.sort_values(i_time)
         ts = np.array(mat[i_time])
         self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts[0], ts[-1]))
         self.PTs = dict()
@@ -69,6 +72,7 @@ class LeeCarter(AbsDataSet):
                  i_age='Age', i_al='Alpha', i_be='Beta', i_ka='Kappa', kind='nearest'):
         AbsDataSet.__init__(self, mat_t)
 
+        mat_t = mat_t.sort_values(i_time)
         self.Times = np.array(mat_t[i_time])
         self.Kappa = np.array(mat_t[i_ka])
         self.Ages = list(mat_a[i_age])
-- 
2.43.0


From 80ea85ee609e107d87c8fbb612c65425865bdc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 56/67] fix: empirical hazards can be made and extend beyond
 their table

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..f23dd39 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From 6a5fdfe124a66ee1c13f098e1a184e8cbca2ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 57/67] fix: density, mean and spread of hazard distributions
 follow hazard and risk ratio

---
 src/sims_pars/data/reg/hazard.py | 40 ++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index f23dd39..a1428bc 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -20,11 +20,11 @@ class Hazard(metaclass=ABCMeta):
         pass
 
     @abstractmethod
-    def mean(self):
+    def mean(self, rr=1):
         pass
 
     @abstractmethod
-    def std(self):
+    def std(self, rr=1):
         pass
 
 
@@ -38,11 +38,11 @@ class ExponentialHazard(Hazard):
     def inv_cum_hazard(self, h):
         return h / self.Rate
 
-    def mean(self):
-        return 1 / self.Rate
+    def mean(self, rr=1):
+        return 1 / (self.Rate * rr)
 
-    def std(self):
-        return 1 / self.Rate
+    def std(self, rr=1):
+        return 1 / (self.Rate * rr)
 
 
 class WeibullHazard(Hazard):
@@ -56,11 +56,11 @@ class WeibullHazard(Hazard):
     def inv_cum_hazard(self, h):
         return pow(h, 1/self.K) / self.Lambda
 
-    def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+    def mean(self, rr=1):
+        return gamma(1+1/self.K) * self.inv_cum_hazard(1/rr)
 
-    def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+    def std(self, rr=1):
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.inv_cum_hazard(1/rr)
 
 
 class EmpiricalHazard(Hazard):
@@ -76,10 +76,10 @@ class EmpiricalHazard(Hazard):
     def inv_cum_hazard(self, h):
         return self.FnInvCumHaz(h)
 
-    def mean(self):
+    def mean(self, rr=1):
         return None  # todo
 
-    def std(self):
+    def std(self, rr=1):
         return None  # todo
 
 
@@ -105,15 +105,17 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
+        if v < 0:
+            return -np.inf
+        s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
+        s2 = np.expm1(-self.Hazard.cum_hazard(v + 1E-5) * self.RiskRatio)
         return np.log((s1 - s2)/1E-5)
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.Hazard.mean(self.RiskRatio)
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return self.Hazard.std(self.RiskRatio)
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
@@ -122,7 +124,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
         self.Prob = pr
 
     def logpdf(self, v):
-        if v <= 0:
+        if v == 0:
             return np.log(self.Prob)
         else:
             return np.log(1-self.Prob) + HazardDistribution.logpdf(self, v)
@@ -139,3 +141,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
 
     def mean(self):
         return HazardDistribution.mean(self) * (1-self.Prob)
+
+    def std(self):
+        m, v = HazardDistribution.mean(self), HazardDistribution.std(self) ** 2
+        return np.sqrt((1-self.Prob) * (v + self.Prob * m ** 2))
-- 
2.43.0


From 56157af813e93b50354b3c0f1340e816cc48dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 58/67] fix: Poisson regressions predict with their expectation

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From 0f029699a659b02e2d27d72f92f95a247fc15828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 59/67] fix: probability tables take labels which are not text

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index bcfda49..17c586c 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -46,7 +46,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.InvGroups = dict()
 
         for i, (k, ir) in enumerate(mat.iterrows()):
-            key = ':'.join([ir[x] for x in indices])
+            key = ':'.join([str(ir[x]) for x in indices])
             p = self.Ps[i]
             self.InvGroups[key] = p
             self.Groups[key] = {x: ir[x] for x in indices}
-- 
2.43.0


From 48bccd08f139c12119cf128ef5867ad66d1b9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 60/67] fix: history matching keeps the settings it was given

---
 src/sims_pars/fit/hme/alg.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 2961cec..522a5a6 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -67,12 +67,6 @@ class BayesHistoryMatching(Fitter):
         model = self.Model
         self.Settings['n_pars'] = n_pars = len(model.Domain)
 
-        if self.Settings['n_sims'] <= 0:
-            self.Settings['n_sims'] = n_pars * 10
-
-        if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
-
         v_m = self.Settings['var_model']
 
         bnd = np.zeros(n_pars), np.ones(n_pars)
@@ -105,11 +99,19 @@ class BayesHistoryMatching(Fitter):
         self.State = StateHME(state.Emulators, state.Converters, state.Matchers, pts_pls, bnd,
                               wave=state.Wave + 1, mse=mse, cutoff=co, acc=acc)
 
+    def _get_sizes(self):
+        n_sims, n_ems = self.Settings['n_sims'], self.Settings['n_ems']
+        if n_sims <= 0:
+            n_sims = self.Settings['n_pars'] * 10
+        if n_ems <= 0:
+            n_ems = n_sims * 100
+        return n_sims, n_ems
+
     def _simulate(self, state):
         lower, upper = state.Bounds
         cons = state.Converters
         model = self.Model
-        n_pars, n_sims = self.Settings['n_pars'], self.Settings['n_sims']
+        n_pars, (n_sims, _) = self.Settings['n_pars'], self._get_sizes()
         xss = LatinHypercube(n_pars).random(n_sims)
         xss = lower + xss * (upper - lower)
         pts_sim = list()
@@ -124,7 +126,7 @@ class BayesHistoryMatching(Fitter):
 
     def _emulate(self, pts_sim, state):
         emulators, matchers, cons = state.Emulators, state.Matchers, state.Converters
-        n_pars, n_ems = self.Settings['n_pars'], self.Settings['n_ems']
+        n_pars, (_, n_ems) = self.Settings['n_pars'], self._get_sizes()
         model = self.Model
 
         xss = [pt.Notes['Xs'] for pt in pts_sim]
-- 
2.43.0


From 2377d71a52f2540faf074be8c4a1d9e214dfa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 61/67] fix: a failed fit does not leave the state of an
 earlier one

---
 src/sims_pars/fit/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 03d4d1d..613c309 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -211,6 +211,7 @@ class Fitter(metaclass=ABCMeta):
     def fit(self, model: DataModel, **kwargs):
         self.attach(model)
         self.Collector = ParameterSet()
+        self.State = None
         self.update_settings(**kwargs)
         self.initialise()
         self.update()
-- 
2.43.0


From b5ebeab4c55814ccf81a91a4f9abcbfd21882381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 62/67] fix: every fit records a trace of its own

---
 src/sims_pars/fit/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 613c309..9f15fb0 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -212,6 +212,7 @@ class Fitter(metaclass=ABCMeta):
         self.attach(model)
         self.Collector = ParameterSet()
         self.State = None
+        self.Monitor.reset()
         self.update_settings(**kwargs)
         self.initialise()
         self.update()
-- 
2.43.0


From 7843e611efbdafc07c2d7c31e4003ba6188f0f33 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:02:42 +0000
Subject: [PATCH 63/67] fix: blanks which separate words are kept when
 definitions are read

Removing every blank made 'b and c' one variable, refused conditional
expressions and ran the words of quoted texts and descriptions together.
---
 src/sims_pars/bayesnet/bn.py   |  3 +--
 src/sims_pars/bayesnet/loci.py | 10 +++++-----
 src/sims_pars/util.py          | 15 +++++++++++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index ace1a3d..1fd6790 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -302,9 +302,8 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [re.sub(r'\s+', '', line) for line in lines]
     for line in lines:
-        mat = re.match(r'pcore(\w+){', line, re.I)
+        mat = re.match(r'\s*pcore\s*([^={~]+?)\s*{', line, re.I)
         if mat:
             bn = BayesianNetwork(mat.group(1))
             break
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 7b9ad8d..e6323f0 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -255,15 +255,15 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df = df.replace(' ', '')
-
     df, _, des = df.partition('#')
+    df, des = squeeze_blanks(df), des.strip()
+    df = re.sub(r'\A[\w ]+', lambda mat: mat.group().replace(' ', ''), df)
 
     if '~' in df:
-        name, loci = re.match(r'\A(\w+)~(\S+)', df).groups()
+        name, loci = re.match(r'\A(\w+)~(.+)', df).groups()
         loci = DistributionLoci(name, loci)
-    elif re.match(r'\A\w+=\S+', df):
-        name, loci = re.match(r'\A(\w+)=(\S+)', df).groups()
+    elif re.match(r'\A\w+=.+', df):
+        name, loci = re.match(r'\A(\w+)=(.+)', df).groups()
         if loci.startswith('f('):
             call = ast.parse(loci, mode='eval').body
             if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name)):
diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index d60ff0f..9750bd3 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -9,7 +9,7 @@ __author__ = 'TimeWz667'
 __all__ = ['add_math_func', 'MATH_FUNC',
            'add_data_func', 'find_data_sampler', 'DATA_FUNC',
            'ScriptException', 'resample',
-           'parse_parents', 'parse_math_expression',
+           'squeeze_blanks', 'parse_parents', 'parse_math_expression',
            'parse_function', 'evaluate_function']
 
 
@@ -107,6 +107,17 @@ def resample(wts, hs, pars=None, log=True, new_size=None):
         return [hs[i] for i in sel], lse - np.log(new_size)
 
 
+def squeeze_blanks(seq):
+    """
+    Drop the blanks which do not separate words, quoted text is kept
+    :param seq: an expression
+    :return: the expression without idle blanks
+    """
+    def fn(mat):
+        return mat.group(1) or (' ' if mat.group(2) else '')
+    return re.sub(r'("[^"]*"|\'[^\']*\')|((?<=\w)\s+(?=\w))|\s+', fn, seq)
+
+
 def find_ast_parents(seq_ast):
     v, f = set(), set()
 
@@ -205,7 +216,7 @@ class ParsedFunction:
 
 
 def parse_function(seq):
-    seq = re.sub(r'\s+', '', seq)
+    seq = squeeze_blanks(seq)
     try:
         seq_ast = ast.parse(seq, mode='eval')
     except SyntaxError:
-- 
2.43.0


From 4cbc588549f4d24d88127b40fb52d14a7b7819b4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 64/67] fix: text and non-finite constants can be written and
 read back

---
 src/sims_pars/bayesnet/loci.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index e6323f0..8389f70 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -60,6 +60,10 @@ class ValueLoci(Loci):
 
     @property
     def Definition(self):
+        if isinstance(self.Value, str):
+            return repr(self.Value)
+        elif isinstance(self.Value, float) and not np.isfinite(self.Value):
+            return f"float('{self.Value}')"
         return self.Value
 
     def render(self, pas=None):
@@ -74,7 +78,7 @@ class ValueLoci(Loci):
         return js
 
     def __repr__(self):
-        return '{} = {}'.format(self.Name, self.Value)
+        return '{} = {}'.format(self.Name, self.Definition)
 
     __str__ = __repr__
 
@@ -255,11 +259,12 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df, _, des = df.partition('#')
+    # marks within quoted text mean nothing
+    df, des = re.match(r'((?:"[^"]*"|\'[^\']*\'|[^#])*)#?(.*)', df, re.S).groups()
     df, des = squeeze_blanks(df), des.strip()
     df = re.sub(r'\A[\w ]+', lambda mat: mat.group().replace(' ', ''), df)
 
-    if '~' in df:
+    if '~' in re.sub(r'"[^"]*"|\'[^\']*\'', '', df):
         name, loci = re.match(r'\A(\w+)~(.+)', df).groups()
         loci = DistributionLoci(name, loci)
     elif re.match(r'\A\w+=.+', df):
-- 
2.43.0


From 45c13c8e218f3b6e55af5cc43de2522c5258b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:09 +0000
Subject: [PATCH 65/67] fix: distributions without a source can be printed

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 804d457..e11ec8a 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -71,7 +71,7 @@ class AbsDistribution(metaclass=ABCMeta):
         if self.source:
             return repr(self.source)
         else:
-            return id(self)
+            return object.__repr__(self)
 
     __str__ = __repr__
 
-- 
2.43.0


From 11777d15b6bc59082878483ce0ecdbbad990c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:25 +0000
Subject: [PATCH 66/67] fix: keep the lower tail of the converter of an
 unbounded domain

Taking one half from a small number lost its digits, so that everything below 1E-16 became minus infinity.
---
 src/sims_pars/fit/converter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/converter.py b/src/sims_pars/fit/converter.py
index d69d2f2..27df957 100644
--- a/src/sims_pars/fit/converter.py
+++ b/src/sims_pars/fit/converter.py
@@ -80,8 +80,9 @@ class ConverterII(Converter):
             return np.inf
         elif u <= 0:
             return - np.inf
-        u = u - 0.5
-        return - np.sign(u) * np.log(1 - 2 * np.abs(u)) * self.Scale + self.Location
+        elif u < 0.5:
+            return np.log(2 * u) * self.Scale + self.Location
+        return - np.log(2 * (1 - u)) * self.Scale + self.Location
 
     def value2uniform(self, v):
         v = v - self.Location
-- 
2.43.0


From fe0ae9a712b2f2ca6632d605bb3c09d68676188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:25 +0000
Subject: [PATCH 67/67] fix: a data function is given the values of the parents
 only

---
 src/sims_pars/bayesnet/loci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8389f70..bc09431 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -143,7 +143,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=loc)
         except KeyError:
-            return find_data_sampler(self.Parsed.Function, loc=pas)
+            return find_data_sampler(self.Parsed.Function, loc=loc)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0

