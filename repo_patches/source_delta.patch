From efc79f2f7cd1cb59262e84157d97acd3cb0dd30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 01/43] fix: restoring iterator state keeps rest of another
 line and end-of-file flag

When the training state was reset in the middle of an epoch, the words left in
the buffer and the end-of-file flag of the position before the reset were kept.
---
 theanolm/parsing/shufflingbatchiterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..3a2e439 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -184,6 +184,9 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+        # Forget the position before restoring the state.
+        self._buffer = []
+        self._end_of_file = False
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 3ecf3929e8681e3c5602fb348cd6e3ecbc6684b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 02/43] fix: rest of a split line is lost when saving and
 restoring iterator state

When the sequence length is limited, a line can be partially read at the time
when the iterator state is saved.
---
 theanolm/parsing/shufflingbatchiterator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 3a2e439..5e7d454 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -14,6 +14,7 @@ from numpy import random
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -137,7 +138,9 @@ class ShufflingBatchIterator(BatchIterator):
         """Saves the iterator state in a HDF5 file.
 
         Sets ``iterator/order`` to the iteration order, and
-        ``iterator/next_line`` the index to the next sentence in the list. Note
+        ``iterator/next_line`` the index to the next sentence in the list. If a
+        sentence is being read in parts, ``iterator/num_buffered`` is the number
+        of words that haven't been read yet from the previous sentence. Note
         that if the program is restarted, the same training files have to be
         loaded in order for this to work. If there already is a
         ``iterator/order`` in the state, it will be replaced, so it has to have
@@ -155,6 +158,7 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        h5_iterator.attrs['num_buffered'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -187,6 +191,13 @@ class ShufflingBatchIterator(BatchIterator):
         # Forget the position before restoring the state.
         self._buffer = []
         self._end_of_file = False
+        num_buffered = int(h5_iterator.attrs.get('num_buffered', 0))
+        if num_buffered > 0:
+            self._next_line -= 1
+            line, file_id = self._readline()
+            self._buffer = [(word, file_id)
+                            for word in utterance_from_line(line)]
+            self._buffer = self._buffer[-num_buffered:]
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 3ff613e2fce439a44a8880a97966acb6e1b5c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:41 +0000
Subject: [PATCH 03/43] fix: output of a bidirectional layer depends on padding
 after the sequence

---
 theanolm/network/grulayer.py  | 4 ++++
 theanolm/network/lstmlayer.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..5fecef0 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -77,6 +77,10 @@ class GRULayer(BasicLayer):
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
+            # The shifted input must not contain the elements that are past the
+            # end of a sequence, so that the output does not depend on padding.
+            layer_input_preact = tensor.switch(
+                self._network.mask[:, :, None], layer_input_preact, 0.0)
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..7e68daa 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -82,6 +82,10 @@ class LSTMLayer(BasicLayer):
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
+            # The shifted input must not contain the elements that are past the
+            # end of a sequence, so that the output does not depend on padding.
+            layer_input_preact = tensor.switch(
+                self._network.mask[:, :, None], layer_input_preact, 0.0)
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
-- 
2.43.0


From 3b260e2b9a010307db93a630d638bd9674574855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:58 +0000
Subject: [PATCH 04/43] fix: order of more than ten inputs is lost when reading
 an architecture from a state

---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 61a71016cb35aa9ff9d0499199903bca779a97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:58 +0000
Subject: [PATCH 05/43] fix: differences in the number of layers, inputs and
 options are not detected in a network state

---
 theanolm/network/architecture.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..3ea71b5 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0} inputs.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,9 +246,19 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0} layers.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
+            for variable in h5_layer.attrs:
+                if variable not in layer:
+                    raise IncompatibleStateError(
+                        "Neural network state has {}={}, which is not "
+                        "specified in this architecture."
+                        .format(variable, h5_layer.attrs[variable]))
 
         if 'output_layer' not in h5_arch.attrs:
             raise IncompatibleStateError(
@@ -334,6 +348,11 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
+                if (variable not in h5_group) or \
+                   (len(h5_group[variable].attrs) != len(values)):
+                    raise IncompatibleStateError(
+                        "Neural network state has a different number of {} "
+                        "than this architecture.".format(variable))
                 h5_values = h5_group[variable]
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
@@ -343,6 +362,10 @@ class Architecture(object):
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
+                if variable not in h5_group.attrs:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {0}, while this "
+                        "architecture has {0}={1}.".format(variable, values))
                 h5_value = h5_group.attrs[variable]
                 if values != h5_value:
                     raise IncompatibleStateError(
-- 
2.43.0


From bacd9bd29f881d28075aaed27b37c30b8c6dd0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:17 +0000
Subject: [PATCH 06/43] fix: parameters of an incompatible state are loaded
 before the architecture is checked

---
 theanolm/network/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theanolm/network/network.py b/theanolm/network/network.py
index 37c2d03..3ef309b 100644
--- a/theanolm/network/network.py
+++ b/theanolm/network/network.py
@@ -386,9 +386,6 @@ class Network(object):
         :param state: HDF5 file that contains the neural network parameters
         """
 
-        for layer in self.layers.values():
-            layer.set_state(state)
-
         try:
             self.architecture.check_state(state)
         except IncompatibleStateError as error:
@@ -396,6 +393,9 @@ class Network(object):
                 "Attempting to restore state of a network that is incompatible "
                 "with this architecture. " + str(error))
 
+        for layer in self.layers.values():
+            layer.set_state(state)
+
     def get_variables(self):
         """Returns a dictionary of the model parameters.
 
-- 
2.43.0


From 8d83f3a51e0b98a42cd1a0bd5197ce5135b31084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:03 +0000
Subject: [PATCH 07/43] fix: scoring a line with an out-of-shortlist word
 raises IndexError

---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 4ddf60b19a58a5bc084d90c5be76945ef8d1c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:03 +0000
Subject: [PATCH 08/43] fix: out-of-shortlist words are not excluded with a
 shortlist model

---
 theanolm/scoring/textscorer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 08d1118..3a41450 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -102,6 +102,9 @@ class TextScorer(object):
             # Always exclude OOV words when using a shortlist - No probability
             # mass is left for them.
             mask *= tensor.neq(target_word_ids, self._unk_id)
+            if exclude_unk:
+                # If requested, ignore also OOS probabilities.
+                mask *= tensor.lt(target_word_ids, shortlist_size)
         elif exclude_unk:
             # If requested, ignore OOS and OOV probabilities.
             mask *= tensor.neq(target_word_ids, self._unk_id)
-- 
2.43.0


From 61169973a59e139b01886b008505ba8cb75405e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 09/43] fix: Kaldi lattices with an arc without weight cannot
 be read

---
 theanolm/scoring/kaldilattice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/kaldilattice.py b/theanolm/scoring/kaldilattice.py
index 35e1363..278a471 100644
--- a/theanolm/scoring/kaldilattice.py
+++ b/theanolm/scoring/kaldilattice.py
@@ -79,10 +79,12 @@ class KaldiLattice(Lattice):
             elif len(parts) == 2:
                 state_to = kaldi_word_id = None
                 str_weight = parts[1]
-            elif len(parts) == 4:
+            elif len(parts) == 3 or len(parts) == 4:
+                # Kaldi omits the weight of an arc, if it is one (no cost and no
+                # transitions).
                 state_to = int(parts[1])
                 kaldi_word_id = int(parts[2])
-                str_weight = parts[3]
+                str_weight = parts[3] if len(parts) == 4 else ""
             else:
                 raise InputError("Invalid number of fields in lattice `{}´ "
                                  "line `{}´.".format(self.utterance_id, line))
-- 
2.43.0


From 861d426d26ea0d902f3cabc8c38cdd535b9ab8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 10/43] fix: words and utterance IDs are cut at a number sign
 when reading SLF lattices

---
 theanolm/scoring/slflattice.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..9fbf4fe 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -28,11 +28,21 @@ def _split_slf_line(line):
               marks removed
     """
 
+    # A number sign starts a comment only at the beginning of a line or a field.
+    # Inside a field it's a normal character.
+    if line.lstrip().startswith('#'):
+        return []
     lex = shlex(line, posix=True)
+    lex.commenters = ''
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-    return list(lex)
+    result = []
+    for field in lex:
+        if field.startswith('#'):
+            break
+        result.append(field)
+    return result
 
 def _split_slf_field(field):
     """Parses the name and value from an SLF lattice field.
-- 
2.43.0


From 977b495f3c9e769479aecdbe8305913591cb83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 11/43] fix: reading an SLF lattice of a thousand nodes exceeds
 the recursion limit

---
 theanolm/scoring/slflattice.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index 9fbf4fe..304a23a 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -273,12 +273,7 @@ class SLFLattice(Lattice):
         in the end nodes in forward lattices.
         """
 
-        visited = {self.initial_node.id}
-
-        def visit_link(link):
-            """A function that is called recursively to move a word from the
-            link end node to the link.
-            """
+        for link in self.links:
             end_node = link.end_node
             if hasattr(end_node, 'word'):
                 if link.word is None:
@@ -286,13 +281,6 @@ class SLFLattice(Lattice):
                 else:
                     raise InputError("SLF lattice contains words both in nodes "
                                      "and links.")
-            if end_node.id not in visited:
-                visited.add(end_node.id)
-                for next_link in end_node.out_links:
-                    visit_link(next_link)
-
-        for link in self.initial_node.out_links:
-            visit_link(link)
 
         for node in self.nodes:
             if hasattr(node, 'word'):
-- 
2.43.0


From a1741311d169a2fe17a47b045d8c0ef92ed4f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 12/43] fix: quotation marks and backslashes are not escaped
 when writing SLF lattices

---
 theanolm/scoring/lattice.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..df49fc7 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -10,6 +10,18 @@ from theanolm.backend import InputError
 class NodeNotFoundError(Exception):
     pass
 
+def _quote_slf_value(value):
+    """Quotes the value of an SLF lattice field.
+
+    :type value: str
+    :param value: a word or another value
+
+    :rtype: str
+    :returns: the value in quotes, with special characters escaped
+    """
+
+    return '"{}"'.format(value.replace('\\', '\\\\').replace('"', '\\"'))
+
 class Lattice(object):
     """Word Lattice
 
@@ -99,7 +111,8 @@ class Lattice(object):
 
         output_file.write("# Header (generated by TheanoLM)\n")
         output_file.write("VERSION=1.1\n")
-        output_file.write('UTTERANCE="{}"\n'.format(self.utterance_id))
+        output_file.write('UTTERANCE={}\n'.format(
+            _quote_slf_value(str(self.utterance_id))))
         fields = []
         if self.lm_scale is not None:
             fields.append("lmscale={}".format(self.lm_scale))
@@ -125,6 +138,8 @@ class Lattice(object):
                       "E={}".format(link.end_node.id)]
             if link.word is None:
                 fields.append("W=!NULL")
+            elif any(char in link.word for char in ' \t"\\'):
+                fields.append("W={}".format(_quote_slf_value(link.word)))
             else:
                 fields.append("W={}".format(link.word))
             if link.ac_logprob is not None:
-- 
2.43.0


From 74600d65187054a4a8d03e1b6fee5b85f270028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 13/43] fix: decode command crashes without GPU support when
 logging free memory

---
 theanolm/backend/gpu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..fba8d44 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,13 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
+    try:
+        names = theano.gpuarray.type.list_contexts()
+    except AttributeError:
+        # No GPU support or an old version of libgpuarray is installed.
+        return
+
+    for name in names:
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
         logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
-- 
2.43.0


From 9c2eb41ffad6549ce6715ee5f1d799e91969783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 14/43] fix: decoder uses class membership probability of the
 previous word

---
 theanolm/scoring/latticedecoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..ff6199a 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,13 +629,15 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
-        target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
-        target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        target_word_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
+        target_word_ids *= target_word_id
+        target_class_ids, membership_probs = \
+            self._vocabulary.get_class_memberships(target_word_ids)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
-- 
2.43.0


From 8ffeac4653493fd5415b9253cb40adcf18da70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:43 +0000
Subject: [PATCH 15/43] fix: transitions of null links are reversed and run
 together in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..43c1aa1 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -11,6 +11,23 @@ from theanolm.scoring.lattice import Lattice
 class NodeNotFoundError(Exception):
     pass
 
+def _join_transitions(first, second):
+    """Concatenates the transition IDs of two links.
+
+    :type first: str
+    :param first: transition IDs of the first link separated by underscores
+
+    :type second: str
+    :param second: transition IDs of the link that follows the first link
+
+    :rtype: str
+    :returns: transition IDs of both links
+    """
+
+    return '_'.join(transitions
+                    for transitions in (first, second)
+                    if transitions)
+
 def _follow_word_from_node(node, word):
     """Follows the link with given word label from given node.
 
@@ -50,8 +67,7 @@ def _follow_word_from_node(node, word):
             ac_logprob += link.ac_logprob
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
+        transitions = _join_transitions(link.transitions, transitions)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
-- 
2.43.0


From c0870351de61c21fbfd6e0dd9c99054131374f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:43 +0000
Subject: [PATCH 16/43] fix: final weights of the original lattice are missing
 from rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 59 +++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 43c1aa1..3c9c9d0 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -70,6 +70,37 @@ def _follow_word_from_node(node, word):
         transitions = _join_transitions(link.transitions, transitions)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_null_links_to_final(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the path to a final node, or ``None`` if there
+              is no such path
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        rest = _follow_null_links_to_final(link.end_node)
+        if rest is None:
+            continue
+        ac_logprob, lm_logprob, transitions = rest
+        if link.ac_logprob is not None:
+            ac_logprob += link.ac_logprob
+        if link.lm_logprob is not None:
+            lm_logprob += link.lm_logprob
+        transitions = _join_transitions(link.transitions, transitions)
+        return (ac_logprob, lm_logprob, transitions)
+
+    return None
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -112,8 +143,9 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of two Lattice.Nodes
+            :returns: the last node of the path, and the corresponding node of
+                      the original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
@@ -135,18 +167,22 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
+            # The original lattice may contain null links to the final node,
+            # for example the final weights of a Kaldi lattice.
+            ac_logprob, lm_logprob, transitions = \
+                _follow_null_links_to_final(orig_node) or (0.0, 0.0, "")
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
             # the entire path probability in the final link.
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -164,7 +200,7 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, _ = follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -177,7 +213,7 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  recomb_link.ac_logprob,
@@ -253,8 +289,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of two Lattice.Nodes
+        :returns: the last node of the path, and the corresponding node of the
+                  original lattice
         """
 
         node = self.initial_node
@@ -287,4 +324,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From 0fe2ecb0b78e0d6fe132fcc0291e2a09663f2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:03 +0000
Subject: [PATCH 17/43] fix: recombined paths have the acoustic score and
 transitions of another link in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 3c9c9d0..aba79d5 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -213,12 +213,19 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node, _ = follow_word_ids(token.history[:-1])
+            from_node, orig_from_node = follow_word_ids(token.history[:-1])
+            orig_end_node, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(orig_from_node, word)
+            if orig_end_node is None:
+                # The original lattice is not determinized.
+                ac_logprob = recomb_link.ac_logprob
+                lm_logprob = recomb_link.lm_logprob
+                transitions = recomb_link.transitions
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
-                                 recomb_link.ac_logprob,
-                                 recomb_link.lm_logprob + lm_logprob_diff,
-                                 recomb_link.transitions)
+                                 ac_logprob,
+                                 lm_logprob + lm_logprob_diff,
+                                 transitions)
             from_node.out_links.append(new_link)
             # Tokens never contain null words, so we can be sure that
             # word_to_link maps in our new lattice never skip nodes.
-- 
2.43.0


From 9a8af622ae61134b39da25f30e9571f088d7cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 18/43] fix: paths that are recombined at the sentence end are
 missing from rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 74 ++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 11 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index aba79d5..670d6ba 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -134,6 +134,20 @@ class RescoredLattice(Lattice):
         :returns: the created lattice
         """
 
+        def words_from_ids(word_ids):
+            """Converts the history of a token to words.
+
+            :type word_ids: list of ints
+            :param word_ids: word IDs starting from the sentence start, which
+                             will be ignored; OOV words may be given as text
+
+            :rtype: list of strs
+            :returns: the words
+            """
+
+            return [vocabulary.id_to_word[id] if isinstance(id, int) else id
+                    for id in word_ids[1:]]
+
         def follow_word_ids(word_ids, create=True):
             """Follows a path from the initial node with given word IDs.
 
@@ -148,9 +162,8 @@ class RescoredLattice(Lattice):
                       the original lattice
             """
 
-            words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
-                     for id in word_ids[1:]]
-            return self._follow_words(words, original_lattice, create)
+            return self._follow_words(words_from_ids(word_ids),
+                                      original_lattice, create)
 
         super().__init__()
 
@@ -165,27 +178,58 @@ class RescoredLattice(Lattice):
 
         self._add_word_maps(original_lattice.nodes)
 
-        # Create all the paths that correspond to the final tokens.
-        for token in final_tokens:
-            node, orig_node = follow_word_ids(token.history)
+        def follow_original(word_ids):
+            """Follows a path in the original lattice with given word IDs.
+
+            :type word_ids: list of ints
+            :param word_ids: IDs of the words to be found on the path
+
+            :rtype: Lattice.Node
+            :returns: the last node of the path in the original lattice
+            """
+
+            node = original_lattice.initial_node
+            for word in words_from_ids(word_ids):
+                end_node = _follow_word_from_node(node, word)[0]
+                if end_node is not None:
+                    node = end_node
+            return node
+
+        def add_final_link(word_ids, nn_lm_logprob):
+            """Creates a path with given word IDs and a link from the path to
+            the final node.
+
+            For the final link we set the NNLM log probability of the entire
+            path. The created paths form a tree, so we can equivalently set the
+            entire path probability in the final link.
+
+            :type word_ids: list of ints
+            :param word_ids: IDs of the words on the path
+
+            :type nn_lm_logprob: float
+            :param nn_lm_logprob: NNLM log probability of the entire path
+            """
+
+            node, orig_node = follow_word_ids(word_ids)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
-                continue
+                return
             # The original lattice may contain null links to the final node,
             # for example the final weights of a Kaldi lattice.
             ac_logprob, lm_logprob, transitions = \
                 _follow_null_links_to_final(orig_node) or (0.0, 0.0, "")
-            # For the final link we set the NNLM log probability of the entire
-            # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
             link = self.Link(node, final_node, word=None,
                              ac_logprob=ac_logprob,
-                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             lm_logprob=lm_logprob + nn_lm_logprob,
                              transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
+        # Create all the paths that correspond to the final tokens.
+        for token in final_tokens:
+            add_final_link(token.history, token.nn_lm_logprob)
+
         # Add recombined tokens.
         oov_words = set()
         for token, new_history, nn_lm_logprob in reversed(recomb_tokens):
@@ -197,6 +241,14 @@ class RescoredLattice(Lattice):
                 word = word_id
                 oov_words.add(word)
 
+            # Tokens may have been recombined after appending the sentence end,
+            # which is not in the lattice. Then the token is complete.
+            orig_node = follow_original(token.history[:-1])
+            if (word == '</s>') and \
+               (_follow_word_from_node(orig_node, word)[0] is None):
+                add_final_link(token.history, token.nn_lm_logprob)
+                continue
+
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-- 
2.43.0


From 7dbcc0d6a5435751a3a16992b2fd1b1c7cd91e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 19/43] fix: recombination after null links adds wrong paths to
 rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 670d6ba..6098713 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -225,6 +225,10 @@ class RescoredLattice(Lattice):
                              transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
+            path_logprobs[node] = nn_lm_logprob
+
+        # NNLM log probabilities of the paths that end at each node.
+        path_logprobs = dict()
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
@@ -261,6 +265,21 @@ class RescoredLattice(Lattice):
                 continue
             recomb_link = recomb_from_node.word_to_link[word]
 
+            # If there are null links after the word (for example, the final
+            # weights of a Kaldi lattice), the tokens may have been recombined
+            # although they have passed the word to a different node. Those
+            # nodes cannot be merged, because different words may follow them,
+            # but the path of the token can be completed, if it has reached the
+            # final node.
+            orig_end_node = follow_original(token.history)
+            if orig_end_node is not follow_original(new_history):
+                if recomb_link.end_node in path_logprobs and \
+                   _follow_null_links_to_final(orig_end_node) is not None:
+                    add_final_link(token.history,
+                                   path_logprobs[recomb_link.end_node] +
+                                   token.nn_lm_logprob - nn_lm_logprob)
+                continue
+
             # Add a link from the previous word in the token history to the node
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
-- 
2.43.0


From a305a0a6c22a4480078874c0aba7b175ed8f9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 20/43] fix: word insertion penalty of a rescored SLF lattice
 is not in the log base of the file

---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..2a3113b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -248,7 +248,7 @@ def decode(args):
                                                recomb_tokens,
                                                network.vocabulary)
             rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            rescored_lattice.wi_penalty = wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From 7b4159bcba7f391d2941c1a931e3734f63b7c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 21/43] fix: linear interpolation is inaccurate when a
 probability is a subnormal number

---
 theanolm/backend/probfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/backend/probfunctions.py b/theanolm/backend/probfunctions.py
index a89eaf8..e314307 100644
--- a/theanolm/backend/probfunctions.py
+++ b/theanolm/backend/probfunctions.py
@@ -34,14 +34,15 @@ def interpolate_linear(logprob1, logprob2, weight1):
 
     prob1 = numpy.exp(numpy.float64(logprob1))
     prob2 = numpy.exp(numpy.float64(logprob2))
-    if (prob1 > 0) and (prob2 > 0):
+    smallest = numpy.finfo(numpy.float64).tiny
+    if (prob1 >= smallest) and (prob2 >= smallest):
         weight2 = 1.0 - weight1
         prob = weight1 * prob1
         prob += weight2 * prob2
         return logprob_type(numpy.log(prob))
     else:
-        # An exp() resulted in an underflow (or -inf logprob). Use the decimal
-        # library.
+        # An exp() resulted in an underflow (or -inf logprob), or in a subnormal
+        # number that has lost precision. Use the decimal library.
         getcontext().prec = 16
         d_weight1 = Decimal(float(weight1))
         d_weight2 = Decimal(1.0) - d_weight1
-- 
2.43.0


From 6adfc17edce255d1e4fc14ce19869157fea0d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:20 +0000
Subject: [PATCH 22/43] fix: parameters become NaN when all words of a
 mini-batch are excluded from the cost

---
 theanolm/training/cost.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..ca5eda9 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,9 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # If all the words are excluded, there is nothing to learn. The cost and
+        # its gradient should be zero instead of NaN.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From ad848ec38b4dbb89d328d8e622785a3ba36ae177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:41 +0000
Subject: [PATCH 23/43] fix: weights of training files have no effect on
 parameter updates

---
 theanolm/training/basicoptimizer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..b8c55fc 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -110,9 +110,12 @@ class BasicOptimizer(object, metaclass=ABCMeta):
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
         weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
-        modified_alpha = tensor.switch(tensor.gt(num_words, 0),
-                                       alpha * weight / num_words_float,
+        # Words that are excluded from the cost are included in both the sum of
+        # the weights and the number of words.
+        num_weights = self.network.mask.sum()
+        num_weights_float = tensor.cast(num_weights, theano.config.floatX)
+        modified_alpha = tensor.switch(tensor.gt(num_weights, 0),
+                                       alpha * weight / num_weights_float,
                                        alpha)
 
         # Ignore unused input, because is_training is only used by dropout
@@ -128,7 +131,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0


From a5fa8972b641e5f024123342b89e3b7b25f6a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:18 +0000
Subject: [PATCH 24/43] fix: RMSProp Nesterov optimizer does not update the
 mean squared gradient

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From fde964c9eacd6352839ce561bd7cec254f35adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:37 +0000
Subject: [PATCH 25/43] fix: last epoch is repeated when continuing training
 without validation

---
 theanolm/training/trainer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..177a457 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -230,9 +230,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -247,6 +244,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # Save the state after advancing to the next epoch, so that this
+            # epoch will not be repeated if training is continued.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From c2a6c0e8fb04954a50daa572117e5e0bc19e1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 26/43] fix: validations are not scheduled when training data
 is sampled

---
 theanolm/training/trainer.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 177a457..8a2b7d6 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -13,7 +13,7 @@ import numpy
 import theano
 
 from theanolm.backend import IncompatibleStateError
-from theanolm.parsing import ShufflingBatchIterator, LinearBatchIterator
+from theanolm.parsing import ShufflingBatchIterator
 from theanolm.training.stoppers import create_stopper
 
 class Trainer(object):
@@ -48,16 +48,19 @@ class Trainer(object):
 
         self._vocabulary = vocabulary
 
-        print("Computing the number of mini-batches in training data.")
-        linear_iter = LinearBatchIterator(
+        self._training_iter = ShufflingBatchIterator(
             training_files,
+            sampling,
             vocabulary,
             batch_size=training_options['batch_size'],
             max_sequence_length=training_options['sequence_length'],
             map_oos_to_unk=True)
+
+        # Only the sampled sentences are used on each epoch.
+        print("Computing the number of mini-batches in training data.")
         sys.stdout.flush()
         self._updates_per_epoch = 0
-        for _, _, _ in linear_iter:
+        for _, _, _ in self._training_iter:
             self._updates_per_epoch += 1
         if self._updates_per_epoch < 1:
             raise ValueError("Training data does not contain any sentences.")
@@ -70,14 +73,6 @@ class Trainer(object):
                       numpy.log(self.class_prior_probs.min()),
                       numpy.log(self.class_prior_probs.max()))
 
-        self._training_iter = ShufflingBatchIterator(
-            training_files,
-            sampling,
-            vocabulary,
-            batch_size=training_options['batch_size'],
-            max_sequence_length=training_options['sequence_length'],
-            map_oos_to_unk=True)
-
         self._stopper = create_stopper(training_options, self)
         self._options = training_options
 
-- 
2.43.0


From 1ddbb59b3e6352ff76a2f4355f64dfa40fbdf30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 27/43] fix: function for combining validation samples cannot
 be selected

---
 theanolm/training/trainer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 8a2b7d6..38c5708 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -110,8 +110,6 @@ class Trainer(object):
         self._total_updates = 0
         # validation set cost history
         self._cost_history = None
-        # function for averaging cross-validation measurements
-        self._statistics_function = None
         # duration of the last mini-batch update
         self._update_duration = None
 
@@ -143,7 +141,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From 6c323db8e1bdd247b5465e79432ab7fe6a4dd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 28/43] fix: samples of an unfinished validation are mixed with
 those of the next epoch

---
 theanolm/training/trainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 38c5708..78da3b2 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -223,6 +223,14 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
+            # If the number of mini-batches varies, the epoch may end before all
+            # the samples of a validation have been collected. Don't mix them
+            # with the samples from the next epoch.
+            self._local_perplexities = []
+            if self._validation_state is not None:
+                self._validation_state.close()
+                self._validation_state = None
+
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
-- 
2.43.0


From ac5fce8fd22fc94543e24ff9819cc168098bb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:00 +0000
Subject: [PATCH 29/43] fix: state of Adam optimizer cannot be saved twice in
 the same file

---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From 3bb789a2bc85d13fb9a3f62966e2843a199f47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:23 +0000
Subject: [PATCH 30/43] fix: word is not moved when class bigram counts are
 zero

The sum of a masked array whose elements are all masked is masked, and 0 log 0
is NaN. In both cases the comparison of the log likelihood change is false and
the move is skipped, even if it would increase the log likelihood.
---
 wordclasses/numpybigramoptimizer.py | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..9d5a1c6 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -100,14 +100,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result += 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +117,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -180,6 +180,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
             result += new_count * numpy.log(new_count)
         return result
 
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        count or an array of counts that may contain zeros.
+        """
+
+        return x * numpy.log(numpy.maximum(x, 1))
+
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
         """
-- 
2.43.0


From 291792228e550a92150b7e7126e46290d436ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:40 +0000
Subject: [PATCH 31/43] fix: Theano word class optimizer skips moves that
 involve zero counts

Python comparison of a Theano variable with zero is always true, so 0 log 0 was
included in the log likelihood change and made it NaN.
---
 wordclasses/theanobigramoptimizer.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..19fd0e1 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,14 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result += 2 * self._xlogx(old_count)
+        result -= 2 * self._xlogx(new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -310,17 +310,13 @@ class TheanoBigramOptimizer(BigramOptimizer):
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return TheanoBigramOptimizer._xlogx(new_count) - \
+               TheanoBigramOptimizer._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
         """A helper function that computes ``x * log(x)``, where ``x`` is a
-        vector that may contain zeros.
+        count or a vector of counts that may contain zeros.
         """
 
         return tensor.switch(tensor.neq(x, 0), tensor.log(x), 0) * x
-- 
2.43.0


From e59a597c0c366eb685a34b0f62ac10df616b8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:31 +0000
Subject: [PATCH 32/43] fix: word class optimization never ends because of
 rounding errors

---
 wordclasses/bigramoptimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wordclasses/bigramoptimizer.py b/wordclasses/bigramoptimizer.py
index 743dd5f..f7215ef 100644
--- a/wordclasses/bigramoptimizer.py
+++ b/wordclasses/bigramoptimizer.py
@@ -25,6 +25,7 @@ class BigramOptimizer(object):
         self.num_classes = vocabulary.num_classes()
         self.num_normal_classes = vocabulary.num_normal_classes
         self._count_type = count_type
+        self._min_ll_diff = 0.0
 
     def move_to_best_class(self, word):
         """Moves a word to the class that minimizes training set log likelihood.
@@ -44,7 +45,7 @@ class BigramOptimizer(object):
             return False
 
         ll_diff, new_class_id = self._find_best_move(word_id)
-        if ll_diff > 0:
+        if ll_diff > self._min_ll_diff:
             self._move(word_id, new_class_id)
             return True
         else:
@@ -82,6 +83,12 @@ class BigramOptimizer(object):
 
         numpy.add.at(class_counts, word_to_class, word_counts)
 
+        # The terms of log likelihood are of the order of N log N. A smaller
+        # change than this is just a rounding error, and moving words because
+        # of rounding errors might never end.
+        total_count = word_counts.sum(dtype='float64')
+        self._min_ll_diff = 1e-13 * total_count * numpy.log(total_count)
+
         left_word_ids, right_word_ids = ww_counts.nonzero()
         counts = ww_counts[left_word_ids, right_word_ids].flat
         left_class_ids = word_to_class[left_word_ids]
-- 
2.43.0


From a4a2110c2ba28d0a816d25564aed4668ee461d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:05 +0000
Subject: [PATCH 33/43] fix: classes whose words do not occur in training data
 cannot be read

wctool writes zero probabilities for such classes. Usually <unk> is one.
---
 theanolm/vocabulary/wordclass.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..0183ded 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,11 +76,18 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If none of the words has a positive probability (wctool writes a class
+        whose words don't occur in the training data like this), the words will
+        be equally probable.
         """
 
         prob_sum = sum(self._probs.values())
         for word_id in self._probs:
-            self._probs[word_id] /= prob_sum
+            if prob_sum > 0:
+                self._probs[word_id] /= prob_sum
+            else:
+                self._probs[word_id] = 1.0 / len(self)
 
     def sample(self):
         """Samples a word from the membership probability distribution.
-- 
2.43.0


From 68e9fa009eb2dcaa835f5ae482c502604ff54537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 34/43] fix: unsupported activation function raises NameError

---
 theanolm/network/basiclayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/network/basiclayer.py b/theanolm/network/basiclayer.py
index 0ebabcb..460010c 100644
--- a/theanolm/network/basiclayer.py
+++ b/theanolm/network/basiclayer.py
@@ -8,7 +8,7 @@ import logging
 
 import theano.tensor as tensor
 
-from theanolm.backend import Parameters, conv1d
+from theanolm.backend import InputError, Parameters, conv1d
 from theanolm.network.weightfunctions import random_matrix, matrix_from_value
 
 class BasicLayer(object, metaclass=ABCMeta):
-- 
2.43.0


From c5c7d2cc617d51a2f2cdb3cacc9002080e31ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 35/43] fix: unigram probabilities of a replaced vocabulary
 stay in the state

---
 theanolm/vocabulary/vocabulary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..6e068f9 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -441,6 +441,8 @@ class Vocabulary(object):
             else:
                 h5_vocabulary.create_dataset('unigram_probs',
                                              data=self._unigram_probs)
+        elif 'unigram_probs' in h5_vocabulary:
+            del h5_vocabulary['unigram_probs']
 
     def num_words(self):
         """Returns the number of words in the vocabulary. This includes
-- 
2.43.0


From c4c262a68b1e3043c9e0ba0a63b51e920efd050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:49 +0000
Subject: [PATCH 36/43] fix: gzip-compressed training and validation text is
 read as binary data

---
 theanolm/backend/__init__.py               |  2 +-
 theanolm/backend/filetypes.py              | 25 ++++++++++++++++++++++
 theanolm/commands/train.py                 |  7 ++----
 theanolm/parsing/shufflingbatchiterator.py |  7 ++----
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/theanolm/backend/__init__.py b/theanolm/backend/__init__.py
index 074c11f..7356132 100644
--- a/theanolm/backend/__init__.py
+++ b/theanolm/backend/__init__.py
@@ -4,7 +4,7 @@
 """
 
 from theanolm.backend.exceptions import *
-from theanolm.backend.filetypes import TextFileType
+from theanolm.backend.filetypes import TextFileType, map_file
 from theanolm.backend.gpu import get_default_device, log_free_mem
 from theanolm.backend.parameters import Parameters
 from theanolm.backend.classdistribution import UniformDistribution
diff --git a/theanolm/backend/filetypes.py b/theanolm/backend/filetypes.py
index 7453e14..abe807a 100644
--- a/theanolm/backend/filetypes.py
+++ b/theanolm/backend/filetypes.py
@@ -8,6 +8,7 @@ import io
 import sys
 import argparse
 import gzip
+import mmap
 
 class TextFileType(object):
     """An object that can be passed as the "type" argument to
@@ -98,3 +99,27 @@ class BinaryFileType(object):
 
     def __repr__(self):
         return '%s(%s)' % (type(self).__name__, self._mode)
+
+def map_file(input_file):
+    """Creates a memory map of the contents of a file.
+
+    The contents of a compressed file cannot be mapped directly, so in that case
+    the data is decompressed into memory.
+
+    :type input_file: file object
+    :param input_file: a file that has been opened for reading
+
+    :rtype: mmap.mmap
+    :returns: a memory map of the (uncompressed) contents of the file
+    """
+
+    binary_file = getattr(input_file, 'buffer', input_file)
+    if not isinstance(binary_file, gzip.GzipFile):
+        return mmap.mmap(input_file.fileno(), 0, prot=mmap.PROT_READ)
+
+    binary_file.seek(0)
+    data = binary_file.read()
+    result = mmap.mmap(-1, len(data))
+    result.write(data)
+    result.seek(0)
+    return result
diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..3f5bf75 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -12,7 +11,7 @@ import numpy
 import theano
 
 from theanolm import Vocabulary, Architecture, Network
-from theanolm.backend import TextFileType, get_default_device
+from theanolm.backend import TextFileType, map_file, get_default_device
 from theanolm.parsing import LinearBatchIterator
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
@@ -455,9 +454,7 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
+            validation_mmap = map_file(args.validation_file)
             validation_iter = \
                 LinearBatchIterator(validation_mmap,
                                     vocabulary,
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5e7d454..00d8d3a 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,13 +5,12 @@ sentence order.
 """
 
 import sys
-import mmap
 import logging
 
 import numpy
 from numpy import random
 
-from theanolm.backend import IncompatibleStateError
+from theanolm.backend import IncompatibleStateError, map_file
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts
 from theanolm.parsing.functions import utterance_from_line
@@ -43,9 +42,7 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
-                                    0,
-                                    prot=mmap.PROT_READ)
+            subset_mmap = map_file(subset_file)
             self.mmaps.append(subset_mmap)
 
             logging.debug("Finding sentence start positions in %s.",
-- 
2.43.0


From dc4caf05e84cfe1f13200dbf25c297f07877d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 37/43] fix: train --print-graph raises AttributeError

---
 theanolm/commands/train.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 3f5bf75..9139621 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -444,7 +444,8 @@ def train(args):
 
         if args.print_graph:
             print("Cost function computation graph:")
-            theano.printing.debugprint(optimizer.gradient_update_function)
+            theano.printing.debugprint(
+                optimizer.update_function.maker.fgraph.outputs)
 
         trainer.initialize(network, state, optimizer)
 
-- 
2.43.0


From 8f7185ee5e502aec6aedd2027689659acaa1ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:59 +0000
Subject: [PATCH 38/43] fix: train continues after finding disconnected
 parameters

---
 theanolm/commands/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 9139621..e82219d 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -441,6 +441,7 @@ def train(args):
                   "parameters are disconnected from the output. Make sure all "
                   "the layers are correctly connected in the network "
                   "architecture. The error message was: `{}´".format(e))
+            sys.exit(1)
 
         if args.print_graph:
             print("Cost function computation graph:")
-- 
2.43.0


From c99e3f68f6f33112c6f36521533e61d94209be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:12 +0000
Subject: [PATCH 39/43] fix: Write the initial state first in a Kaldi lattice

---
 theanolm/scoring/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index df49fc7..087c2a5 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -178,7 +178,9 @@ class Lattice(object):
                 link.transitions))
 
         output_file.write("{}\n".format(self.utterance_id))
-        for node in self.nodes:
+        # The first state in the file is the initial state.
+        for node in sorted(self.nodes,
+                           key=lambda node: node is not self.initial_node):
             for link in node.out_links:
                 if link.end_node.final:
                     write_final_link(link)
-- 
2.43.0


From 038c7f39b623b037b06146b4ed26b7c1b278865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 40/43] fix: Make --prune-relative adjust the limits by the
 number of tokens

---
 theanolm/commands/decode.py        | 8 ++++----
 theanolm/scoring/latticedecoder.py | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index 2a3113b..eee3b47 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,12 +135,12 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
-        help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
+        help="if prune-relative is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
         '--abs-min-beam', metavar='B', type=float, default=150,
-        help="if prune-extra-limit is used, do not tighten the beam further "
+        help="if prune-relative is used, do not tighten the beam further "
              "than this (default is 150)")
 
     argument_group = parser.add_argument_group("configuration")
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index ff6199a..565c79e 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -504,7 +504,7 @@ class LatticeDecoder(object):
 
         limit_divider = 1
         if self._prune_extra_limit is not None:
-            limit_divider = len(sorted_nodes) // self._prune_extra_limit + 1
+            limit_divider = len(node_tokens) / self._prune_extra_limit
             limit_divider = max(1, limit_divider)
 
         new_tokens = self._sorted_recombined_tokens(node_tokens,
@@ -527,7 +527,7 @@ class LatticeDecoder(object):
                                if iter_node.best_logprob is not None)
 
             beam = self._beam / limit_divider
-            beam = max(beam, self._abs_min_beam)
+            beam = max(beam, min(self._beam, self._abs_min_beam))
             threshold = best_logprob - beam
 
             stats['best'] = best_logprob
@@ -551,8 +551,9 @@ class LatticeDecoder(object):
 
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
-            max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            max_tokens = int(self._max_tokens_per_node / limit_divider)
+            max_tokens = max(max_tokens, min(self._max_tokens_per_node,
+                                             self._abs_min_max_tokens), 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0


From 204100ff2d2d647e2235cbaf248861e1b3ec3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 41/43] fix: file IDs of more than 128 training files overflow

The file IDs of a mini-batch were stored in 8-bit integers, so the words of
the 129th and later files got the weight of another file.
---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From 66bd21b6d74fc38612f5fc115a5ea76e411e41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 42/43] fix: Forget the probabilities of an earlier decoding
 when decoding a lattice again

Beam pruning compared the tokens to the best log probability that a node had
when the same lattice was decoded the previous time.
---
 theanolm/scoring/latticedecoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 565c79e..9d7397c 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -370,6 +370,9 @@ class LatticeDecoder(object):
         initial_token.recompute_total(self._nnlm_weight, lm_scale, wi_penalty,
                                       self._linear_interpolation)
         tokens[lattice.initial_node.id].append(initial_token)
+        # The lattice may have been decoded before, with other options.
+        for node in lattice.nodes:
+            node.best_logprob = None
         lattice.initial_node.best_logprob = initial_token.total_logprob
 
         sorted_nodes = lattice.sorted_nodes()
-- 
2.43.0


From 30997794816929decea396532d3cfd14de68a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 43/43] fix: wctool cannot write a compressed file

---
 wordclasses/wctool.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 41aa852..2a16856 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -3,6 +3,7 @@
 
 import sys
 import argparse
+import gzip
 import logging
 from time import time
 from theanolm.backend import TextFileType
@@ -11,10 +12,24 @@ from theanolm.vocabulary import Vocabulary
 from theanolm.vocabulary import compute_word_counts, BigramStatistics
 from wordclasses.functions import is_scheduled
 
+def is_compressed(output_file):
+    """Tells whether the output is compressed. It is not possible to replace
+    what has already been written to a compressed file.
+
+    :type output_file: file object
+    :param output_file: a text file or stream
+
+    :rtype: bool
+    :returns: ``True`` if the output will be compressed with gzip
+    """
+
+    return isinstance(getattr(output_file, 'buffer', None), gzip.GzipFile)
+
 def save(optimizer, output_file, output_format):
     """Writes the current classes to a file.
 
-    If the output file is seekable, first rewinds and truncates the file.
+    If the output file is seekable and not compressed, first rewinds and
+    truncates the file.
 
     :type optimizer: BigramOptimizer
     :param optimizer: save the current state of this optimizer
@@ -27,7 +42,7 @@ def save(optimizer, output_file, output_format):
                           output file format
     """
 
-    if output_file.seekable():
+    if output_file.seekable() and not is_compressed(output_file):
         output_file.seek(0)
         output_file.truncate()
 
@@ -146,7 +161,8 @@ def main():
                      num_moves,
                      optimizer.log_likelihood(),
                      duration * 100)
-            if is_scheduled(num_words,
+            if not is_compressed(args.output_file) and \
+               is_scheduled(num_words,
                             args.output_frequency,
                             vocabulary.num_shortlist_words()):
                 save(optimizer, args.output_file, args.output_format)
-- 
2.43.0

