From 2407e0a1700fd7f5bbca278c438218032b2541a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 1/5] fix: compose YEH and AE with HAMZA ABOVE in the Arabic
 NFC grammar

U+064A U+0654 and U+06D5 U+0654 have canonical compositions (U+0626, U+06C0)
that the grammar left apart, unlike the other compositions with U+0654.
---
 nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
index 74c913d..e231d0b 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
@@ -54,6 +54,16 @@ item {
   to_uname: "HEH GOAL WITH HAMZA ABOVE" to_raw: "ۂ"
 }
 
+item {
+  uname: ["YEH", "HAMZA ABOVE"] raw: "ئ"
+  to_uname: "YEH WITH HAMZA ABOVE" to_raw: "ئ"
+}
+
+item {
+  uname: ["AE", "HAMZA ABOVE"] raw: "ۀ"
+  to_uname: "HEH WITH YEH ABOVE" to_raw: "ۀ"
+}
+
 item {
   uname: ["YEH BARREE", "HAMZA ABOVE"] raw: "ۓ"
   to_uname: "YEH BARREE WITH HAMZA ABOVE" to_raw: "ۓ"
-- 
2.43.0


From 90a59e359b91a4533be1a0f0634e3d80d30c0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 2/5] fix: escape the text in AcceptText as ApplyOnText does

Square brackets and backslashes in the input were read as Pynini syntax: the
word was parsed as another string, or raised on an unbalanced bracket.
---
 nisaba/scripts/utils/far.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..462fab5 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,8 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      # As in `ApplyOnText`, the text is not managed by Pynini.
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From ba030821a953a2d6a30ae77bdb3f7fa32dd0fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 3/5] fix: recover the diphthongs after rewriting /a/ to schwa

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..dfa66d9 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -42,10 +42,15 @@ ph = psa.PHONEME_INVENTORY
 # TODO: Convert this constant to a function where duration and diphthong
 # context are passed as arguments, and remove the recovery rule.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /əi/ -> /ai/ and
+# /əu/ -> /au/. The diphthongs aren't in the phoneme inventory with /ə/.
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite_ls([
+        (pyn.project(ph.A_I @ rw.rewrite(ph.A, ph.EC), 'output'), ph.A_I),
+        (pyn.project(ph.A_U @ rw.rewrite(ph.A, ph.EC), 'output'), ph.A_U),
+    ])
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From 34c10288eea7019c5b9afab601f4090b6d44578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 4/5] fix: geminate only the consonant after addak, with
 aspiration on its second half

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index dfa66d9..59411e0 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -243,8 +243,17 @@ H_ASP = rw.reassign(
     gr.H, ph.H, ph.ASP, (ph.M | ph.NI | ph.VU | ph.L | ph.R)
 )
 
-ADDAK = rw.rewrite_ls(
-    [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+# Geminates the consonant after addak. Aspiration stays on the second half.
+ADDAK = rw.rewrite_op(
+    fl.FstList.make(al.realign, *[
+        (
+            char.gr,
+            char.ph,
+            pyn.project(char.ph @ rw.delete(ph.ASP), 'output') + char.ph,
+        )
+        for char in iso.ONSET_CONSONANT
+    ]).union_opt(),
+    al.align(gr.ADD, ph.SIL),
 )
 
 AUM_AON = rw.reassign(gr.U_I, ph.U, ph.O, following=(gr.ANS + al.SKIP + al.EOW))
-- 
2.43.0


From a9fded2cdabbfb191395667729f0f20d2e0bfeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:09 +0000
Subject: [PATCH 5/5] fix: give each Lattice its own FST and error node

---
 nisaba/scripts/natural_translit/utils/lattice.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..15e4a2c 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Union
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -78,22 +80,22 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
+      error: Union[Node, ty.Nothing] = ty.UNSPECIFIED,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = fst if isinstance(fst, pyn.Fst) else pyn.Fst()
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
-    self.error = error
-    if error.fst is not self.fst:
-      error.fst = self.fst
+    self.error = error if isinstance(error, Node) else Node('error')
+    if self.error.fst is not self.fst:
+      self.error.fst = self.fst
     if not self.error.has_state():
       self.error.state = self.fst.add_state()
     if populate:
-- 
2.43.0

