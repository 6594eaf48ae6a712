From 2541f3672ac6b42bab0cf1857fe3258beb169f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 01/57] fix: log values without swapping the logger's handlers

log_to_file() replaced the console handler by the file handler for the time
of the call. Concurrent calls lost or duplicated records, sent ordinary
messages to the data log and data to the console, and a value that could not
be formatted left the logger without its console handler for good. Records
also propagated to the consoles of parent loggers.
---
 qiskit/ignis/logging/ignis_logging.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..6f3bc50 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -91,17 +91,16 @@ class IgnisLogger(logging.getLoggerClass()):
 
         assert(self._file_handler is not None), "file_handler is not set"
 
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
-        Logger.log(self, 100, logstr)
-
-        Logger.removeHandler(self, self._file_handler)
-        Logger.addHandler(self, self._stream_handler)
+        # Passing the record to the file handler only, to avoid printing to
+        # console here. The handlers of the logger are left alone, since other
+        # threads may be using them
+        if self.isEnabledFor(100):
+            self._file_handler.handle(self.makeRecord(
+                self.name, 100, "(unknown file)", 0, logstr, (), None))
 
     def enable_file_logging(self):
         """
-- 
2.43.0


From 07721e49cc9c168b85de02642853aa93dbef9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 02/57] fix: share one rotating file handler between all Ignis
 loggers

Every logger opened the log file with a rotating handler of its own. When one
of them rotated the file the others went on writing to the renamed one and
rotated it again, so that records were discarded early, files outgrew the
limit and the records were out of order.
---
 qiskit/ignis/logging/ignis_logging.py | 37 ++++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 6f3bc50..9578d90 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -19,6 +19,7 @@ import os
 import glob
 from datetime import datetime
 import re
+import threading
 from typing import List, Union, Optional
 
 
@@ -150,6 +151,8 @@ class IgnisLogging:
     _log_label = "ignis_logging"
     _default_datefmt = '%Y/%m/%d %H:%M:%S'
     _config_file_exists = False
+    _file_handler = None
+    _lock = threading.RLock()
 
     # Making the class a Singleton
     def __new__(cls, log_config_path=None):
@@ -212,6 +215,9 @@ class IgnisLogging:
             IgnisLogging._file_logging_enabled = False
             IgnisLogging._log_file = None
             IgnisLogging._config_file_exists = False
+            if IgnisLogging._file_handler is not None:
+                IgnisLogging._file_handler.close()
+                IgnisLogging._file_handler = None
             logger = logging.getLogger(name)
             if isinstance(logger, IgnisLogger):
                 logger._file_handler = None
@@ -245,18 +251,25 @@ class IgnisLogging:
         Returns:
             RotatingFileHandler: The configured RotatingFileHandler object
         """
-        # Configuring the file handling aspect
-        fh = logging.handlers.RotatingFileHandler(
-            IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
-            backupCount=IgnisLogging._max_rotations)
-
-        # Formatting
-        formatter = logging.Formatter(
-            '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
-            datefmt=IgnisLogging._default_datefmt)
-        fh.setFormatter(formatter)
-
-        return fh
+        # All loggers share one handler: a file must not be rotated by one
+        # handler while another one has it open
+        with IgnisLogging._lock:
+            if IgnisLogging._file_handler is not None:
+                return IgnisLogging._file_handler
+
+            # Configuring the file handling aspect
+            fh = logging.handlers.RotatingFileHandler(
+                IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
+                backupCount=IgnisLogging._max_rotations)
+
+            # Formatting
+            formatter = logging.Formatter(
+                '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
+                datefmt=IgnisLogging._default_datefmt)
+            fh.setFormatter(formatter)
+
+            IgnisLogging._file_handler = fh
+            return fh
 
     def _configure_logger(self, logger):
         """
-- 
2.43.0


From 851e17526b3f940e8652474a917e073387af0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 03/57] fix: initialize Ignis logging atomically and configure
 each logger once

A second thread could get the logging singleton before its settings were
loaded. Each further get_logger() call for a name added another console
handler, which repeated every message, and undid a programmatic
disable_file_logging().
---
 qiskit/ignis/logging/ignis_logging.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 9578d90..0247a0c 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -156,11 +156,14 @@ class IgnisLogging:
 
     # Making the class a Singleton
     def __new__(cls, log_config_path=None):
-        if IgnisLogging._instance is None:
-            IgnisLogging._instance = object.__new__(cls)
-            IgnisLogging._initialize(log_config_path)
+        with IgnisLogging._lock:
+            if IgnisLogging._instance is None:
+                # Visible to other threads only when initialized
+                instance = object.__new__(cls)
+                IgnisLogging._initialize(log_config_path)
+                IgnisLogging._instance = instance
 
-        return IgnisLogging._instance
+            return IgnisLogging._instance
 
     @staticmethod
     def _load_config_file(log_config_path=None):
@@ -223,6 +226,7 @@ class IgnisLogging:
                 logger._file_handler = None
                 logger._file_logging_enabled = False
                 logger.removeHandler(logger._stream_handler)
+                logger._stream_handler = None
 
     def get_logger(self, name: str) -> IgnisLogger:
         """
@@ -236,10 +240,14 @@ class IgnisLogging:
         Returns:
             An IgnisLogger object
         """
-        logger = logging.getLogger(name)
-        assert(isinstance(logger, IgnisLogger)), \
-            "IgnisLogger class was not registered"
-        self._configure_logger(logger)
+        with IgnisLogging._lock:
+            logger = logging.getLogger(name)
+            assert(isinstance(logger, IgnisLogger)), \
+                "IgnisLogger class was not registered"
+            # A logger that is already configured keeps its console handler
+            # and its programmatic settings
+            if logger._stream_handler is None:
+                self._configure_logger(logger)
 
         return logger
 
-- 
2.43.0


From e76c6754a6cd4282a45217766318f79a1f8f9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:12 +0000
Subject: [PATCH 04/57] fix: take the log file path from the configuration as
 it is written

The configuration parser converted the path to lower case and cut it off at a
second colon, so that the log went to another file than the configured one.
An empty path or a size given in non-decimal digits raised an exception later
on instead of selecting the default.
---
 qiskit/ignis/logging/ignis_logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 0247a0c..aa9490c 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -183,10 +183,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -201,15 +201,15 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
-            log_config.get('log_file') is not None else "ignis.log"
+            log_config.get('log_file') else "ignis.log"
         max_size = log_config.get('max_size')
         IgnisLogging._max_bytes = int(max_size) if \
-            max_size is not None and max_size.isdigit() else 0
+            max_size is not None and max_size.isdecimal() else 0
         max_rotations = log_config.get('max_rotations')
         IgnisLogging._max_rotations = int(max_rotations) if \
-            max_rotations is not None and max_rotations.isdigit() else 0
+            max_rotations is not None and max_rotations.isdecimal() else 0
 
     @staticmethod
     def _reset_to_defaults(name):
-- 
2.43.0


From 14f49ce53705c9f776ce8b22b9719bbfb68373d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:46 +0000
Subject: [PATCH 05/57] fix: read back log records with blanks, rotated within
 a second, or damaged

IgnisLogReader split records at blanks, so that values such as the documented
qubits=[1, 2, 4] came back in pieces and were lost by key filtering; a blank
or truncated line made date filtering raise. Special characters in the log
path were taken as patterns, and files rotated within the resolution of their
modification time were listed in arbitrary order.
---
 qiskit/ignis/logging/ignis_logging.py | 34 +++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index aa9490c..ae9a6ef 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -326,6 +326,10 @@ class IgnisLogReader:
     date/time and key criteria
     """
 
+    _record = re.compile(r"(\d{4}/\d\d/\d\d) (\d\d:\d\d:\d\d) " +
+                         IgnisLogging._log_label + r" (.*)$")
+    _key_value = re.compile(r"'[^':]*':'.*?'(?=\s|$)")
+
     def get_log_files(self) -> List[str]:
         """
         Get Names of all log files (several may be present due to logging
@@ -335,19 +339,17 @@ class IgnisLogReader:
             list: list of all log file names
         """
 
-        file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
-        files = sorted(glob.glob(search_path), key=os.path.getmtime)
-
+        file_name = os.path.abspath(IgnisLogging().get_log_file())
+        m = re.compile(re.escape(file_name) + r"(?:\.(\d+))?$")
+        # Files modified within the resolution of the clock are told apart by
+        # their rotation number (the higher the older)
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
-        for f in files:
-            if m.match(f):
-                result.append(f)
+        for f in glob.glob(glob.escape(file_name) + "*"):
+            match = m.match(f)
+            if match:
+                result.append((os.path.getmtime(f), -int(match.group(1) or 0), f))
 
-        return result
+        return [f for _, _, f in sorted(result)]
 
     def read_values(self, log_files: Optional[List[str]] = None,
                     keys: Optional[List[str]] = None,
@@ -388,10 +390,12 @@ class IgnisLogReader:
         retrieved_date = list()
 
         for file in files:
-            with open(file, "r") as f:
+            with open(file, "r", errors="replace") as f:
                 for line in f:
-                    terms = line.split()
-                    date_time = terms[0:2]
+                    match = self._record.match(line)
+                    if match is None:  # e.g. a line cut short by a crash
+                        continue
+                    date_time = list(match.groups()[:2])
 
                     dt_filterd = self._filter_by_datetime(date_time,
                                                           from_datetime,
@@ -401,7 +405,7 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._key_value.findall(match.group(3))
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
-- 
2.43.0


From 3cadd6cb658e2d1750d5d66cd6fd82fe8aa07f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:46 +0000
Subject: [PATCH 06/57] fix: do not append to a log record that a crash has cut
 short

After a crash in the middle of a write the next record was appended to the
torn line, and both were lost for the reader.
---
 qiskit/ignis/logging/ignis_logging.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index ae9a6ef..85e11d0 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -265,6 +265,15 @@ class IgnisLogging:
             if IgnisLogging._file_handler is not None:
                 return IgnisLogging._file_handler
 
+            # A crash may have cut the last record short. Ending its line to
+            # keep it apart from the next record
+            if os.path.isfile(IgnisLogging._log_file):
+                with open(IgnisLogging._log_file, "rb+") as log:
+                    if log.seek(0, os.SEEK_END) > 0:
+                        log.seek(-1, os.SEEK_END)
+                        if log.read(1) != b"\n":
+                            log.write(os.linesep.encode())
+
             # Configuring the file handling aspect
             fh = logging.handlers.RotatingFileHandler(
                 IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
-- 
2.43.0


From 79e8d9724e922773f4e9d7c97cc1c49a77318a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:31 +0000
Subject: [PATCH 07/57] fix: warn about disabled file logging once, whatever
 the threads do

---
 qiskit/ignis/logging/ignis_logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 85e11d0..bd217c2 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -76,13 +76,15 @@ class IgnisLogger(logging.getLoggerClass()):
                 qubits=[1,2,4]
         """
         if not self._file_logging_enabled:
-            if not self._warning_omitted:  # Omitting this warning only once
+            with IgnisLogging._lock:
+                warned = self._warning_omitted
+                self._warning_omitted = True
+            if not warned:  # Omitting this warning only once
                 msg = "File logging is disabled"
                 if not self._conf_file_exists:
                     msg += ": no config file"
                 logger = logging.getLogger(__name__)
                 logger.warning(msg)
-                self._warning_omitted = True
             return
 
         # We defer setting up the file handler, since its __init__ method
-- 
2.43.0


From 234ba5b43f7cd274cd7e46f057a83e72e95c26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:27 +0000
Subject: [PATCH 08/57] fix: pick the right qubits from the labels in
 subset_fitter

---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..d7a878e 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # the first qubit is the rightmost character of a label
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From 437663843c3701b19dfee4dc594facf6d6f274d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 09/57] fix: count every calibration experiment of a result,
 same name or not

---
 qiskit/ignis/mitigation/measurement/fitters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index d7a878e..7487aff 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -403,7 +403,7 @@ class TensoredMeasFitter():
 
         # go through for each calibration experiment
         for result in self._result_list:
-            for experiment in result.results:
+            for exp_ind, experiment in enumerate(result.results):
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
@@ -416,8 +416,9 @@ class TensoredMeasFitter():
 
                 state = circ_search.group(0)
 
-                # get the counts from the result
-                state_cnts = result.get_counts(circ_name)
+                # get the counts of this very experiment, several may have
+                # the same name
+                state_cnts = result.get_counts(exp_ind)
                 for measured_state, counts in state_cnts.items():
                     end_index = self.nqubits
                     for cal_ind, cal_mat in enumerate(self._cal_matrices):
-- 
2.43.0


From 351353483e8684c455d4f08d138744cfc4c87eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 10/57] fix: take circlabel literally when looking for
 calibration circuits

---
 qiskit/ignis/mitigation/measurement/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 7487aff..6c04420 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -407,7 +407,8 @@ class TensoredMeasFitter():
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
-                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+',
+                circ_search = re.search('(?<=' + re.escape(self._circlabel) +
+                                        'cal_)\\w+',
                                         circ_name)
 
                 # this experiment is not one of the calcs so skip
-- 
2.43.0


From 9e8fe23368df9a81461a160c967f43329424e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:04 +0000
Subject: [PATCH 11/57] fix: drop numpy type aliases that current numpy has
 removed

Without them the CTMP mitigator raises AttributeError on every use.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 8 ++++----
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..892fc38 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -192,4 +192,4 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             gammas = self._gammas
         else:
             gammas = self._gammas[list(qubits)]
-        return np.product(gammas)
+        return np.prod(gammas)
-- 
2.43.0


From 2aa985842b9ceac42c9d5ea99c193c91e14ee169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:04 +0000
Subject: [PATCH 12/57] fix: build tensored mitigation matrices from the qubits
 asked for

mitigation_matrix and assignment_matrix indexed the qubit list with a
qubit, so that any list but range(n) took the wrong matrices or failed.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 892fc38..b545cb8 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From 94e80d694c86a596dcafddf8580cb735a554c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 13/57] fix: give each CTMP generator its own rate and orient
 its matrices

The fitter assigned the rate of 1->0 errors to the 0->1 generator and
vice versa. The assignment matrix was flipped to hide it, which is wrong
for two-qubit generators, and the sampled expectation values were
mitigated with the two rates exchanged.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 29560ff..5ae1697 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -206,12 +206,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(-gmat)
+        return la.expm(-gmat.toarray())
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
         r"""Return the measurement assignment matrix for specified qubits.
@@ -226,12 +222,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(gmat)
+        return la.expm(gmat.toarray())
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
         """Return the noise strength :math:`gamma` on the specified qubits"""
-- 
2.43.0


From 938d8502c318065984c2bfb276e067192adfb8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 14/57] fix: calibrate the CTMP mitigator on a single qubit,
 too

Its rates were the mean of an empty list, so nothing was mitigated.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..86aa2cc 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -90,7 +90,7 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
 
 
 def _ctmp_err_rate_2_q(gen, g_mat_dict) -> float:
-    """Compute the 2 qubit error rate for a given generator."""
+    """Compute the error rate of a generator from its own G matrix."""
     # pylint: disable=invalid-name
     g_mat = g_mat_dict[gen]
     b, a, _ = gen
@@ -116,9 +116,9 @@ def _get_ctmp_error_rate(gen: Generator,
     """
     # pylint: disable=invalid-name
     b, a, c = gen
-    if len(b) == 1:
+    if len(b) == 1 and num_qubits > 1:
         rate = _ctmp_err_rate_1_q(a, b, c[0], g_mat_dict, num_qubits)
-    elif len(b) == 2:
+    else:
         rate = _ctmp_err_rate_2_q(gen, g_mat_dict)
     return rate
 
@@ -126,17 +126,16 @@ def _get_ctmp_error_rate(gen: Generator,
 def _local_g_matrix(gen: Generator,
                     cal_data: Dict[int, Dict[int, int]],
                     num_qubits: int) -> np.array:
-    """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
+    """Computes the G(j,k) matrix in the basis [00, 01, 10, 11] (or G(j) in [0, 1])."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 4935f3ac35baa9e9fe757a4175358cc125a6d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:06 +0000
Subject: [PATCH 15/57] fix: keep observables and bits aligned when mitigating
 reordered qubits

The complete and CTMP mitigators sorted the probabilities by qubit but
not the observable, and all methods paired the qubits with the sorted
classical bits instead of with the bits they were measured to.
---
 .../mitigation/expval/complete_mitigator.py   |  5 ++-
 .../ignis/mitigation/expval/ctmp_mitigator.py |  4 ++-
 .../mitigation/expval/tensored_mitigator.py   |  4 +--
 qiskit/ignis/mitigation/expval/utils.py       | 35 +++++++++++++++++--
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..067cb98 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,8 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, measured_qubits, sort_by_qubits,
+                    _expval_with_stddev)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +103,8 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        # The mitigation matrix and probs are ordered by ascending qubit
+        diagonal = sort_by_qubits(diagonal, measured_qubits(qubits, clbits))
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 5ae1697..bac88f6 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, measured_qubits, sort_by_qubits
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -124,6 +124,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
+        # The generator matrices and probs are ordered by ascending qubit
+        diagonal = sort_by_qubits(diagonal, measured_qubits(qubits, clbits))
 
         # Get arrays from CSC sparse matrix format
         # TODO: To use qubits kwarg we should compute the B-matrix and gamma
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index b545cb8..d224159 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -17,7 +17,7 @@ Single-qubit tensor-product measurement error mitigation generator.
 from typing import Optional, List, Dict, Tuple
 import numpy as np
 
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, measured_qubits, _expval_with_stddev)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -103,7 +103,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         num_qubits = int(np.log2(probs.shape[0]))
 
         if qubits is not None:
-            ainvs = self._mitigation_mats[list(qubits)]
+            ainvs = self._mitigation_mats[measured_qubits(qubits, clbits)]
         else:
             ainvs = self._mitigation_mats
 
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..c26b820 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -139,14 +139,43 @@ def counts_probability_vector(
     if qubits is not None:
         if len(qubits) != num_qubits:
             raise QiskitError("Num qubits does not match vector length.")
-        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
-        vec = np.reshape(vec,
-                         num_qubits * [2]).transpose(axes).reshape(vec.shape)
+        vec = sort_by_qubits(vec, measured_qubits(qubits, clbits))
     if return_shots:
         return vec, shots
     return vec
 
 
+def measured_qubits(qubits: List[int],
+                    clbits: Optional[List[int]] = None) -> List[int]:
+    """Return the qubits in the order of the bits of the (marginal) counts.
+
+    Args:
+        qubits: the measured qubits.
+        clbits: the bits they were measured to, as ``circuit.measure(qubits, clbits)``.
+
+    Returns:
+        list: the qubit of each count bit, starting from bit 0.
+    """
+    if clbits is None:
+        return list(qubits)
+    return [qubits[i] for i in np.argsort(clbits)]
+
+
+def sort_by_qubits(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Reorder the bits of a vector's indexes so that their qubits ascend.
+
+    Args:
+        vec: vector of length ``2 ** len(qubits)``.
+        qubits: the qubit of each index bit, starting from bit 0.
+
+    Returns:
+        np.ndarray: the reordered vector.
+    """
+    num_qubits = len(qubits)
+    axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(vec, num_qubits * [2]).transpose(axes).reshape(-1)
+
+
 def calibration_data(result: Result,
                      metadata: List[Dict[str, any]]) -> Tuple[
                          Dict[int, Dict[int, int]], int]:
-- 
2.43.0


From f97b79c8a64b6442e60334e4e9fda65b86e824af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:06 +0000
Subject: [PATCH 16/57] fix: mitigate counts of the first qubits when no qubits
 are given

The tensored mitigator raised an error and the CTMP mitigator took the
missing qubits for qubits measured in 0.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 3 ++-
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index bac88f6..62debf6 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -113,7 +113,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
             ``circuit.measure(qubits, clbits)``.
         """
         if qubits is None:
-            qubits = list(range(self._num_qubits))
+            num_bits = len(next(iter(counts))) if clbits is None else len(clbits)
+            qubits = list(range(num_bits))
 
         # Convert counts to probs
         probs, shots = counts_probability_vector(
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index d224159..22ab8a6 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -105,7 +105,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[measured_qubits(qubits, clbits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From 56fdebd0ee39f11915c4f630b21e60780e41920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 17/57] fix: accept length_multiplier=None, as documented for
 purity RB

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..655848d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -51,6 +51,9 @@ def handle_length_multiplier(length_multiplier, len_pattern,
         ValueError: if the input is invalid
     """
 
+    if length_multiplier is None:
+        length_multiplier = 1
+
     if hasattr(length_multiplier, "__len__"):
         if is_purity:
             raise ValueError(
-- 
2.43.0


From 5b6b001f0556083145509477389cbdfe7b5a8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 18/57] fix: RB sequences honour rand_seed=0 and a RandomState
 as rand_seed

---
 .../verification/randomized_benchmarking/circuits.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index 655848d..0834d38 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -444,9 +444,13 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
-                        rand_seed += (seed + 1)
-                    new_elmnt = rb_group.random(rb_q_num, rand_seed)
+                    if isinstance(rand_seed, RandomState):
+                        elmnt_seed = rand_seed.randint(2**31 - 1)
+                    else:
+                        if rand_seed is not None:
+                            rand_seed += (seed + 1)
+                        elmnt_seed = rand_seed
+                    new_elmnt = rb_group.random(rb_q_num, elmnt_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
                         Elmnts[rb_pattern_index], new_elmnt)
                     general_circ += replace_q_indices(
-- 
2.43.0


From fb6cc25655deed6ccdab4c3a95c1beaf39b08d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 19/57] fix: round u1 angles to the nearest multiple of pi/4 in
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..a00d707 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -901,7 +901,7 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            elem.phase(int(np.round(4 * float(instr.params[0]) / np.pi)), new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From 5d685b0ffd8fac2937e198c19d7d58b2b58e0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 20/57] fix: accept a CZGate object as CNOT-Dihedral element

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a00d707..98e3f96 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -872,6 +872,12 @@ def append_circuit(elem, circuit, qargs=None):
         elem.cnot(qargs[0], qargs[1])
         return elem
 
+    # A cz gate object is applied as a whole (its definition contains h gates)
+    if gate.name == 'cz' and len(qargs) == 2:
+        gate = QuantumCircuit(2)
+        gate.cz(0, 1)
+        gate = gate.to_instruction()
+
     if gate.definition is None:
         raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
     if not isinstance(gate.definition, QuantumCircuit):
-- 
2.43.0


From c5deb2b84f00dd8271ca572baf66c5e612f0e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 21/57] fix: count the results given to the RB fitters'
 constructors once

---
 .../verification/randomized_benchmarking/fitters.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..d973c98 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -520,9 +520,9 @@ class InterleavedRBFitter(RBFitterBase):
         self._fit_interleaved = []
 
         self._rbfit_original = RBFitter(
-            original_result, cliff_lengths, rb_pattern)
+            None, cliff_lengths, rb_pattern)
         self._rbfit_interleaved = RBFitter(
-            interleaved_result, cliff_lengths, rb_pattern)
+            None, cliff_lengths, rb_pattern)
 
         self.rbfit_std.add_data(original_result)
         self.rbfit_int.add_data(interleaved_result)
@@ -808,7 +808,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
+        self._rbfit_purity = RBFitter(None, cliff_lengths,
                                       rb_pattern)
         self.add_data(purity_result)
 
@@ -1180,9 +1180,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._fit_cnotdihedral = []
 
         self._rbfit_Z = RBFitter(
-            cnotdihedral_Z_result, elmnts_lengths, rb_pattern)
+            None, elmnts_lengths, rb_pattern)
         self._rbfit_X = RBFitter(
-            cnotdihedral_X_result, elmnts_lengths, rb_pattern)
+            None, elmnts_lengths, rb_pattern)
 
         self.rbfit_Z.add_data(cnotdihedral_Z_result)
         self.rbfit_X.add_data(cnotdihedral_X_result)
-- 
2.43.0


From e82066d7ef80b44591ee477b49d05b0cac2dee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 22/57] fix: find the purity RB circuits by name, not by the
 order of the results

---
 .../randomized_benchmarking/fitters.py             | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index d973c98..5e8c6d4 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -921,7 +921,7 @@ class PurityRBFitter(RBFitterBase):
         if new_purity_result is None:
             return
 
-        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
+        self.rbfit_pur.add_data(new_purity_result, rerun_fit=False)
 
         if rerun_fit:
             self.calc_data()
@@ -943,16 +943,20 @@ class PurityRBFitter(RBFitterBase):
         """
         circ_counts = {}
         circ_shots = {}
-        result_count = 0
+
+        # The common part of the circuit names (before the purity bases)
+        name_prefix = self.rbfit_pur.results[0].results[0]. \
+            header.name.split("_purity_")[0]
 
         # Calculating the result output
         for _, seed in enumerate(self.rbfit_pur.seeds):
 
             for pur in range(self._npurity):
 
-                self._circ_name_type = self.rbfit_pur.results[
-                    result_count].results[0].header.name.split("_length")[0]
-                result_count += 1
+                # purity circuit no. "pur" rotates qubit i of each pattern
+                # according to the i-th base 3 digit of "pur"
+                self._circ_name_type = name_prefix + '_purity_' + ''.join(
+                    'ZXY'[pur // 3 ** i % 3] for i in range(self._nq))
 
                 for circ, _ in enumerate(self._cliff_lengths[0]):
                     circ_name = self._circ_name_type + '_length_%d_seed_%d' \
-- 
2.43.0


From f8b41c0ff6e0fc33935073762692405bb4f0577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 23/57] fix: endless recursion in PurityRBFitter.cliff_lengths

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5e8c6d4..58ed703 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From a6d2d0ff914bc33a5cac1b0859d88b5696ca7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 24/57] fix: default rb_pattern of the interleaved and
 CNOT-Dihedral RB fitters

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 58ed703..907c6ef 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1178,6 +1181,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         # Initialize a new CNOTDihedralRBFitter.
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
-- 
2.43.0


From 3ac975778de4d6ce84ff6717b44eaf4b9149a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 25/57] fix: quantum volume circuits act on the requested
 qubits whatever their number

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..636cf6e 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -89,11 +89,8 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
-                qc = QuantumCircuit(int(n_q_max + 1))
-                qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            else:
-                qc = qv_circ
+            qc = QuantumCircuit(int(n_q_max + 1))
+            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             qc.measure_active()
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
-- 
2.43.0


From 603cd571899f549bdca084a4b8f67bedb63f4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 26/57] fix: measure quantum volume circuits in the order of
 the qubit list

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 636cf6e..580c5e1 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -23,6 +23,7 @@ import warnings
 import numpy as np
 
 from qiskit.circuit.library import QuantumVolume
+from qiskit.circuit import ClassicalRegister
 from qiskit.circuit.quantumcircuit import QuantumCircuit
 
 
@@ -91,7 +92,11 @@ def qv_circuits(qubit_lists, ntrials=1,
             # via qubit lists
             qc = QuantumCircuit(int(n_q_max + 1))
             qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            qc.measure_active()
+            # qubit i of the list is measured to bit i, as in the ideal circuit
+            cr_meas = ClassicalRegister(depth, 'measure')
+            qc.add_register(cr_meas)
+            qc.barrier()
+            qc.measure(qubit_lists[depthidx], cr_meas)
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From b90b955c178e3b1b475a6d4e039411957b9fd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 27/57] fix: quantum volume circuits honour seed=0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 580c5e1..9affbeb 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -73,7 +73,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -84,7 +84,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From 1d2033706e405cf4debd996462066c905b76eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 28/57] fix: a refused quantum volume result leaves the fitter
 unchanged

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..51cf4b2 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -170,6 +170,12 @@ class QVFitter:
         if not isinstance(new_backend_result, list):
             new_backend_result = [new_backend_result]
 
+        for result in new_backend_result:
+            for qvcirc in result.results:
+                if qvcirc.header.name not in self._heavy_output_prob_ideal:
+                    raise QiskitError('Ideal distribution '
+                                      'must be loaded first')
+
         for result in new_backend_result:
             self._result_list.append(result)
 
@@ -180,10 +186,6 @@ class QVFitter:
                 if (ntrials_circ+1) > self._ntrials:
                     self._ntrials = ntrials_circ+1
 
-                if qvcirc.header.name not in self._heavy_output_prob_ideal:
-                    raise QiskitError('Ideal distribution '
-                                      'must be loaded first')
-
         if rerun_fit:
             self.calc_data()
             self.calc_statistics()
-- 
2.43.0


From 94a2bdb7ab69be7d34fa92ec36eab213f002a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:39 +0000
Subject: [PATCH 29/57] fix: spread of an ideal heavy output probability of one
 is not NaN

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 51cf4b2..8d4e826 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -267,8 +267,9 @@ class QVFitter:
 
             # Calculate mean and error for ideal data
             self._ydata[2][depthidx] = np.mean(ideal_vals)
+            # (rounding may lift the ideal probability slightly above one)
             self._ydata[3][depthidx] = (self._ydata[2][depthidx] *
-                                        (1.0-self._ydata[2][depthidx])
+                                        max(0.0, 1.0-self._ydata[2][depthidx])
                                         / self._ntrials)**0.5
 
     def plot_qv_data(self, ax=None, show_plt=True, figsize=(7, 5), set_title=True, title=None):
-- 
2.43.0


From 0f8163ce2c207392393092505c10254c78335d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 30/57] fix: each AccreditationFitter keeps its own outputs

---
 qiskit/ignis/verification/accreditation/fitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..5667c4a 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -43,11 +43,12 @@ class AccreditationFitter:
     N_acc = 0
     num_runs = 0
     flag = 'accepted'
-    outputs = []
-    num_runs = 0
     num_traps = 0
     g_num = 1
 
+    def __init__(self):
+        self.outputs = []
+
     def single_protocol_run(self, results, postp_list, v_zero):
         """
         Single protocol run of accreditation protocol on simul backend
-- 
2.43.0


From e502c0949835fcc1342936851356451843282484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 31/57] fix: refuse malformed accreditation runs instead of
 counting them

---
 .../verification/accreditation/fitters.py     | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 5667c4a..fa75967 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -57,20 +57,18 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: if the run is malformed; it is not counted then
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the "
+                              "same number of traps")
+
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -83,15 +81,18 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+        output_target = allcounts[v_zero]
+
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
                 if count != '0' * len(count):
                     self.flag = 'rejected'
-            else:
-                output_target = count
         if self.flag == 'accepted':
             self.N_acc += 1
             self.outputs.append(output_target)
@@ -103,10 +104,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: if no run has been accepted
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires "
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 1b92bd2e073900940b9a898b6cc45e40c591293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 32/57] fix: do not report the accreditation bound of an
 earlier call

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index fa75967..2e406a2 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -111,6 +111,8 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires "
                               "at least one accepted run")
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From b1a147997562bcd7eece7a90912f335a4cf3b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 33/57] fix: remove the one-time pad from the classical bit
 each qubit is measured to

---
 qiskit/ignis/verification/accreditation/qotp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..4281390 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,12 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, in the order of the count strings: the pad of a
+    # qubit belongs to the classical bit that the qubit is measured to
+    qotp_postp = np.zeros(len(cregs), dtype=paulixs.dtype)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From dd6fc7ff549c9d1bd3845cf404747afa2c0c7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:56 +0000
Subject: [PATCH 34/57] fix: seed the mapping of accreditation circuits onto a
 coupling map

---
 qiskit/ignis/verification/accreditation/circuits.py | 4 +++-
 qiskit/ignis/verification/accreditation/qotp.py     | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/circuits.py b/qiskit/ignis/verification/accreditation/circuits.py
index 018622f..e9be9e3 100644
--- a/qiskit/ignis/verification/accreditation/circuits.py
+++ b/qiskit/ignis/verification/accreditation/circuits.py
@@ -47,6 +47,7 @@ class AccreditationCircuits:
                 as list of list (e.g. [[0,1],[1,2],[2,0]])
             seed (int): seed to the random number generator
         """
+        self._seed = seed
         self._rng = np.random.RandomState(seed)
         self.target_circuit(target_circ,
                             two_qubit_gate=two_qubit_gate,
@@ -67,7 +68,8 @@ class AccreditationCircuits:
         # parse circuit into layers
         self.layers = layer_parser(self.target,
                                    two_qubit_gate=two_qubit_gate,
-                                   coupling_map=coupling_map)
+                                   coupling_map=coupling_map,
+                                   seed=self._seed)
 
     def generate_circuits(self, num_trap):
         """
diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index 4281390..3f844ed 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -26,7 +26,7 @@ from qiskit.compiler import transpile
 from qiskit.exceptions import QiskitError
 
 
-def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
+def layer_parser(circ, two_qubit_gate='cx', coupling_map=None, seed=None):
     """
     Tranforms general circuits into a nice form for a qotp.
 
@@ -36,6 +36,7 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
             gate to compile with, can be cx or cz
         coupling_map (list): some particular device topology as list
             of list (e.g. [[0,1],[1,2],[2,0]])
+        seed (int): seed to the mapping onto the coupling map
     Returns:
         dict: A dictionary of the parsed layers with the following keys:
             ``singlequbit_layers`` (lsit):  a list of circuits describing
@@ -52,7 +53,8 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
     circ_internal = transpile(circ,
                               optimization_level=2,
                               basis_gates=['u1', 'u2', 'u3', 'cx'],
-                              coupling_map=coupling_map)
+                              coupling_map=coupling_map,
+                              seed_transpiler=seed)
     # quantum and classial registers
     qregs = circ_internal.qregs[0]
     cregs = circ_internal.cregs[0]
@@ -251,7 +253,8 @@ def QOTP(circ, num, two_qubit_gate='cx', coupling_map=None, seed=None):
     # break into layers
     layers = layer_parser(circ,
                           two_qubit_gate=two_qubit_gate,
-                          coupling_map=coupling_map)
+                          coupling_map=coupling_map,
+                          seed=seed)
     # output lists
     qotp_circs = []
     qotp_postps = []
-- 
2.43.0


From 65b66a92ceee3c6ff6974bfa2d10d001fedc23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 35/57] fix: keep the weights of syndrome edges never seen
 finite

---
 qiskit/ignis/verification/topological_codes/fitters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..0f2390a 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -195,7 +195,10 @@ class GraphDecoder():
             for elements in [('00', '11'), ('11', '00'),
                              ('01', '10'), ('10', '01')]:
                 if count[elements[1]][edge] > 0:
-                    ratio = count[elements[0]][edge]/count[elements[1]][edge]
+                    # an error that was never seen is taken as half a count,
+                    # so that its edge keeps a finite weight
+                    ratio = max(count[elements[0]][edge], 0.5)\
+                        / count[elements[1]][edge]
                     ratios.append(ratio)
             edge_data['distance'] = -np.log(min(ratios))
 
-- 
2.43.0


From def3ac62a9b520c9660b94ec0ae8e896fbd227e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 36/57] fix: add the tomography data of every result, with any
 registers, or none of it

---
 .../tomography/fitters/base_fitter.py         | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..7431991 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -258,29 +258,33 @@ class TomographyFitter:
         if len(circuits) == 0:
             raise QiskitError("No circuit data given")
 
-        if isinstance(circuits[0], str) or len(circuits[0].cregs) == 1:
-            marginalize = False
-        else:
-            marginalize = True
-
         # Process measurement counts into probabilities
+        new_data = []
         for circ in circuits:
-            counts = None
-            for result in results:
-                try:
-                    counts = result.get_counts(circ)
-                except QiskitError:
-                    pass
-            if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
                 tup = literal_eval(circ.name)
             else:
                 tup = circ
-            if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+            # The tomography measurements are in the first classical bits
+            meas_label = tup[1] if isinstance(tup[0], tuple) else tup
+            found = False
+            for result in results:
+                try:
+                    counts = result.get_counts(circ)
+                except QiskitError:
+                    continue
+                found = True
+                num_bits = len(next(iter(counts)).replace(' ', ''))
+                if num_bits >= len(meas_label):
+                    counts = marginal_counts(counts, range(len(meas_label)))
+                new_data.append((tup, counts))
+            if not found:
+                raise QiskitError("Result for {} not found".format(tup))
+
+        # Only complete data is added
+        for tup, counts in new_data:
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 70f4562f04f880edb4fd1644c6c4e5b8711dfdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 37/57] fix: combine_counts does not change its input

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From d00f62e0f0a4efae5c4c1ac1ab6094e588a02b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 38/57] fix: start the gauge optimization of gate set
 tomography from a vector

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..89ec7e1 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.ravel())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From 8d2d88274cc79fb9b28360fa345f61771fbc8988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 39/57] fix: tomography circuits keep the qubit order of their
 circuit

---
 qiskit/ignis/verification/tomography/basis/circuits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/basis/circuits.py b/qiskit/ignis/verification/tomography/basis/circuits.py
index f276a0f..f5b3954 100644
--- a/qiskit/ignis/verification/tomography/basis/circuits.py
+++ b/qiskit/ignis/verification/tomography/basis/circuits.py
@@ -450,10 +450,14 @@ def _tomography_circuits(
     # the returned circuits add a new classical register for the tomography
     # measurements which will be inserted as the first classical register in
     # the list of returned circuits.
-    registers = qubit_registers.copy()
+    # The qubits keep their order in the input circuit.
+    registers = circuit.qregs + [
+        reg for reg in dict.fromkeys(q.register for q in
+                                     prep_qubits + meas_qubits)
+        if reg not in circuit.qregs]
     if measurement is not None:
         clbits = ClassicalRegister(num_qubits)
-        registers.add(clbits)
+        registers = registers + [clbits]
 
     # Generate the circuits
     qst_circs = []
-- 
2.43.0


From 5090b77e9bea3812779285467ccd3cd117655740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 40/57] fix: characterization fitters do not keep results they
 cannot use

---
 qiskit/ignis/characterization/fitters.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..9773b80 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -76,6 +76,7 @@ class BaseFitter:
         self._circuit_names = circuit_names
 
         self._backend_result_list = []
+        self._ydata = {}
         autofit = False
 
         if backend_result is not None:
@@ -228,14 +229,19 @@ class BaseFitter:
             refit: whether to refit the data
         """
 
-        if isinstance(results, list):
-            for result in results:
-                self._backend_result_list.append(result)
-        else:
-            self._backend_result_list.append(results)
+        old_results = self._backend_result_list
+        old_ydata = self._ydata
+        self._backend_result_list = old_results + \
+            (results if isinstance(results, list) else [results])
 
         if recalc:
-            self._calc_data()  # computes self._ydata
+            try:
+                self._calc_data()  # computes self._ydata
+            except Exception:
+                # do not keep results that cannot be used
+                self._backend_result_list = old_results
+                self._ydata = old_ydata
+                raise
 
         if refit:
             self.fit_data()
-- 
2.43.0


From d981025e180645ddc66905c048b01f651ee2cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 41/57] fix: average single-shot IQ data per qubit over all
 shots

---
 qiskit/ignis/characterization/fitters.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 9773b80..de77903 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -453,12 +453,10 @@ class IQFitter(BaseFitter):
 
                 else:
 
-                    # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    # data is in single shot IQ mode: collect all the shots
+                    iq_list[sname] = np.vstack(
+                        (iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -466,8 +464,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From d083d7cfc5c14cfa9fca9e1a9301434a8cee694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 42/57] fix: keep the IQ signal of quadratures with opposite
 signs

---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index de77903..5a15b1d 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -503,6 +503,9 @@ class IQFitter(BaseFitter):
                 mean_list -= q_exp_mean
                 real_ext = np.mean(np.abs(np.real(mean_list)))
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
+                # the line falls if the quadratures have opposite signs
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    imag_ext = -imag_ext
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
-- 
2.43.0


From b96d26eceaf14fe5ebffc23ed099971dfff96fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 43/57] fix: zz_circuits accepts a list of gate numbers, as
 documented

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From f3c8e2ab510be2a36d23c58b9dc8a4fd277d37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 44/57] fix: tilt the last pulse of the angle calibration like
 the others

---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..9bdfb9c 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From f98e13254f7750c43c0d4b5475c0c7c9f5d23e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 45/57] fix: take the expected states of calibration schedules
 from their names

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From d35cdb4b7284160c100052c42e812b844604b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 46/57] fix: adding data to a discriminator keeps its earlier
 data and the caller's lists

---
 .../measurement/discriminator/discriminators.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..2a03093 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
@@ -112,11 +112,20 @@ class BaseDiscriminationFitter(ABC):
         if schedules is None:
             schedules = self._get_schedules(result, 0)
 
-        self._backend_result_list.append(result)
+        old_states = dict(self._expected_state)
         self._add_expected_states(expected_states, schedules)
+
+        try:
+            xdata = self.get_xdata(result, 0, schedules)
+            ydata = self.get_ydata(result, 0, schedules)
+        except Exception:
+            self._expected_state = old_states
+            raise
+
+        self._backend_result_list.append(result)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(xdata)
+        self._ydata = list(self._ydata) + list(ydata)
 
         if refit:
             self.fit()
-- 
2.43.0


From 495c8ba032642b950f7acf5fea00e6c114426aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 47/57] fix: train discriminators on the same shots and labels
 when schedules repeat

---
 .../discriminator/discriminators.py           |  4 +-
 .../discriminator/iq_discriminators.py        | 63 +++++++++++--------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 2a03093..9e0868a 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -316,8 +316,8 @@ class BaseDiscriminationFitter(ABC):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
+                     If result is a list of Result, then the data of all the
+                     Results in the list that return data of schedule
                      (through get_memory(schedule)) is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..7017cc7 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -79,8 +79,8 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
+                     If result is a list of Result, then the data of all the
+                     Results in the list that return data of schedule
                      (through get_memory(schedule)) is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
@@ -98,21 +98,12 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
-            iq_data = None
-            if isinstance(results, list):
-                for result in results:
-                    try:
-                        iq_data = result.get_memory(schedule)
-                    except QiskitError:
-                        pass
-            else:
-                iq_data = results.get_memory(schedule)
-
-            if iq_data is None:
+        for schedule, iq_data in self._get_iq_data(results, schedules):
+            if not iq_data:
                 raise PulseError('Could not find IQ data for %s' % schedule)
 
-            xdata.extend(self.format_iq_data(iq_data))
+            for data in iq_data:
+                xdata.extend(self.format_iq_data(data))
 
         return self._scale_data(xdata)
 
@@ -139,24 +130,44 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
-            if isinstance(schedule, Schedule):
-                shed_name = schedule.name
-            else:
-                shed_name = schedule
+        for schedule, iq_data in self._get_iq_data(results, schedules):
+            for data in iq_data:
+                ydata.extend([self._expected_state[schedule]] *
+                             len(self.format_iq_data(data)))
+
+        return ydata
+
+    @staticmethod
+    def _get_iq_data(results: Union[Result, List[Result]],
+                     schedules: Union[List[str], List[Schedule]]):
+        """
+        Retrieves the level 1 data of each schedule from all the results that
+        have it.
 
-            if isinstance(results, Result):
-                results = [results]
+        Args:
+            results: the results to take the data from.
+            schedules: Either the names of the schedules or the schedules themselves.
 
+        Returns:
+            list: A list of tuples of a schedule name and the list of its data, with
+                each name once.
+        """
+        if isinstance(results, Result):
+            results = [results]
+
+        iq_data = {}
+        for schedule in schedules:
+            name = schedule.name if isinstance(schedule, Schedule) else schedule
+            if name in iq_data:
+                continue
+            iq_data[name] = []
             for result in results:
                 try:
-                    iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
-                    ydata.extend([self._expected_state[shed_name]]*n_shots)
+                    iq_data[name].append(result.get_memory(name))
                 except QiskitError:
                     pass
 
-        return ydata
+        return list(iq_data.items())
 
     def format_iq_data(self, iq_data: np.ndarray) -> List[List[float]]:
         """
-- 
2.43.0


From f8ca80d5fb6f3b005703d80e023195adc9afd112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 48/57] fix: discriminate each experiment of each result by its
 own data

---
 .../measurement/discriminator/filters.py      | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..a448a50 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -68,29 +68,27 @@ class DiscriminationFilter:
         Returns:
             A list of qiskit.Result or qiskit.Result.
         """
+        if isinstance(raw_data, list):
+            return [self.apply(result) for result in raw_data]
+
         new_results = deepcopy(raw_data)
 
         to_be_discriminated = []
 
         # Extract all the meas level 1 data from the Result.
-        shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
                 to_be_discriminated.append(result)
 
-        new_results.results = to_be_discriminated
-
-        x_data = self.discriminator.get_xdata(new_results, 2)
-        y_data = self.discriminator.discriminate(x_data)
+        for result in to_be_discriminated:
+            new_results.results = [result]
+            x_data = self.discriminator.get_xdata(new_results, 2)
+            y_data = self.discriminator.discriminate(x_data)
+            memory = [hex(int(label, self.base)) for label in y_data]
+            result.data = ExperimentResultData(counts=self.count(y_data),
+                                               memory=memory)
 
-        start = 0
-        for idx, n_shots in enumerate(shots_per_experiment_result):
-            memory = y_data[start:(start+n_shots)]
-            counts = self.count(memory)
-            new_results.results[idx].data = ExperimentResultData(counts=counts,
-                                                                 memory=memory)
-            start += n_shots
+        new_results.results = to_be_discriminated
 
         for result in new_results.results:
             result.meas_level = 2
-- 
2.43.0


From 38fff2c08acd5dfc8bfebc55bffd0057d2f75e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:35 +0000
Subject: [PATCH 49/57] fix: scale the data of a discriminator by all of its
 data, not the first delivery

---
 qiskit/ignis/measurement/discriminator/discriminators.py  | 8 ++++++++
 .../ignis/measurement/discriminator/iq_discriminators.py  | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 9e0868a..3089cc7 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -306,6 +306,14 @@ class BaseDiscriminationFitter(ABC):
 
         return self._scaler.transform(xdata)
 
+    def _rescale_xdata(self):
+        """
+        Scales self._xdata anew, with a scaler that is fit to all of it.
+        """
+        if self._standardize and self._scaler:
+            xdata = self._scaler.inverse_transform(self._xdata)
+            self._xdata = self._scale_data(xdata, refit=True)
+
     @abstractmethod
     def get_xdata(self, results: Union[Result, List[Result]],
                   schedule_type_to_get: int,
diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 7017cc7..3e9ab4a 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -461,6 +461,7 @@ class LinearIQDiscriminator(IQDiscriminationFitter):
         if len(self._xdata) == 0:
             return
 
+        self._rescale_xdata()
         self._lda.fit(self._xdata, self._ydata)
         self._fitted = True
 
@@ -528,6 +529,7 @@ class QuadraticIQDiscriminator(IQDiscriminationFitter):
         if len(self._xdata) == 0:
             return
 
+        self._rescale_xdata()
         self._qda.fit(self._xdata, self._ydata)
         self._fitted = True
 
@@ -603,6 +605,7 @@ class SklearnIQDiscriminator(IQDiscriminationFitter):
         if len(self._xdata) == 0:
             return
 
+        self._rescale_xdata()
         self._classifier.fit(self._xdata, self._ydata)
         self._fitted = True
 
-- 
2.43.0


From 21c115f1809285593b677eb4dc0fe3b7922ed9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:35 +0000
Subject: [PATCH 50/57] fix: benchmarking fitters keep their data and fits when
 a call fails

---
 qiskit/ignis/utils.py                         | 45 +++++++++++++++++++
 .../randomized_benchmarking/fitters.py        | 18 +++++++-
 2 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/utils.py b/qiskit/ignis/utils.py
index 8bd7528..aec3a72 100644
--- a/qiskit/ignis/utils.py
+++ b/qiskit/ignis/utils.py
@@ -14,6 +14,51 @@
 
 """Utility functions"""
 
+from functools import wraps
+
+
+def all_or_nothing(*parts):
+    """
+    Decorator for methods that accumulate or evaluate data: when the method
+    raises, its object is left as it was before the call.
+
+    Restores the attributes of the object, and the contents of those that are
+    lists or dictionaries.
+
+    Parameters:
+        parts (str): attributes that hold further objects to restore.
+
+    Returns:
+        function: Decorator of a method.
+
+    """
+    def decorate(method):
+
+        @wraps(method)
+        def wrapper(self, *args, **kwargs):
+            saved = []
+            for obj in [self] + [getattr(self, part) for part in parts]:
+                saved.append((obj, [
+                    (name, value, value.copy()
+                     if isinstance(value, (list, dict)) else None)
+                    for name, value in vars(obj).items()]))
+            try:
+                return method(self, *args, **kwargs)
+            except BaseException:
+                for obj, attributes in saved:
+                    for name, value, contents in attributes:
+                        if isinstance(value, list):
+                            value[:] = contents
+                        elif isinstance(value, dict):
+                            value.clear()
+                            value.update(contents)
+                        setattr(obj, name, value)
+                raise
+
+        return wrapper
+
+    return decorate
+
 
 def build_counts_dict_from_list(count_list):
     """
diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 907c6ef..0704f4b 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -29,7 +29,7 @@ import numpy as np
 from qiskit import QiskitError
 from qiskit.quantum_info.analysis.average import average_data
 from ..tomography import marginal_counts
-from ...utils import build_counts_dict_from_list
+from ...utils import all_or_nothing, build_counts_dict_from_list
 
 try:
     from matplotlib import pyplot as plt
@@ -217,6 +217,7 @@ class RBFitter(RBFitterBase):
         """Return all the results."""
         return self._result_list
 
+    @all_or_nothing()
     def add_data(self, new_backend_result, rerun_fit=True):
         """
         Add a new result. Re calculate the raw data, means and
@@ -259,6 +260,7 @@ class RBFitter(RBFitterBase):
         # pylint: disable=invalid-name
         return a * alpha ** x + b
 
+    @all_or_nothing()
     def calc_data(self):
         """Retrieve probabilities of success from execution results.
 
@@ -320,6 +322,7 @@ class RBFitter(RBFitterBase):
                         / circ_shots[circ_name])
             startind = endind
 
+    @all_or_nothing()
     def calc_statistics(self):
         """Extract averages and std dev from the raw data (self._raw_data).
 
@@ -391,6 +394,7 @@ class RBFitter(RBFitterBase):
         self._fit[patt_ind] = {'params': params, 'params_err': params_err,
                                'epc': epc, 'epc_err': epc_err}
 
+    @all_or_nothing()
     def fit_data(self):
         """Fit the RB results to an exponential curve.
 
@@ -585,6 +589,7 @@ class InterleavedRBFitter(RBFitterBase):
         """Return raw_data as a 2 element list."""
         return [self.rbfit_std.raw_data, self.rbfit_int.raw_data]
 
+    @all_or_nothing('_rbfit_original', '_rbfit_interleaved')
     def add_data(self, new_original_result,
                  new_interleaved_result, rerun_fit=True):
         """
@@ -606,6 +611,7 @@ class InterleavedRBFitter(RBFitterBase):
         if rerun_fit:
             self.fit_data()
 
+    @all_or_nothing('_rbfit_original', '_rbfit_interleaved')
     def calc_data(self):
         """Retrieve probabilities of success from execution results.
 
@@ -615,6 +621,7 @@ class InterleavedRBFitter(RBFitterBase):
         self.rbfit_std.calc_data()
         self.rbfit_int.calc_data()
 
+    @all_or_nothing('_rbfit_original', '_rbfit_interleaved')
     def calc_statistics(self):
         """Extract averages and std dev.
 
@@ -640,6 +647,7 @@ class InterleavedRBFitter(RBFitterBase):
         else:
             self.rbfit_int.fit_data_pattern(patt_ind, fit_guess)
 
+    @all_or_nothing('_rbfit_original', '_rbfit_interleaved')
     def fit_data(self):
         """
         Fit the interleaved RB results.
@@ -906,6 +914,7 @@ class PurityRBFitter(RBFitterBase):
                     self._zdict_ops[-1][("{0:0%db}"
                                          % self._nq).format(j)] = -1
 
+    @all_or_nothing('_rbfit_purity')
     def add_data(self, new_purity_result, rerun_fit=True):
         """
         Add a new result.
@@ -931,6 +940,7 @@ class PurityRBFitter(RBFitterBase):
             self.calc_statistics()
             self.fit_data()
 
+    @all_or_nothing('_rbfit_purity')
     def calc_data(self):
         """
         Retrieve probabilities of success from execution results.
@@ -1029,6 +1039,7 @@ class PurityRBFitter(RBFitterBase):
 
             startind = endind
 
+    @all_or_nothing('_rbfit_purity')
     def calc_statistics(self):
         """Extract averages and std dev from the raw data (self._raw_data).
 
@@ -1067,6 +1078,7 @@ class PurityRBFitter(RBFitterBase):
         """
         self.rbfit_pur.fit_data_pattern(patt_ind, fit_guess)
 
+    @all_or_nothing('_rbfit_purity')
     def fit_data(self):
         """Fit the Purity RB results to an exponential curve.
 
@@ -1253,6 +1265,7 @@ class CNOTDihedralRBFitter(RBFitterBase):
         """Return raw_data as 2 element list."""
         return [self.rbfit_Z.raw_data, self.rbfit_X.raw_data]
 
+    @all_or_nothing('_rbfit_Z', '_rbfit_X')
     def add_data(self, new_cnotdihedral_Z_result,
                  new_cnotdihedral_X_result, rerun_fit=True):
         """
@@ -1275,6 +1288,7 @@ class CNOTDihedralRBFitter(RBFitterBase):
         if rerun_fit:
             self.fit_data()
 
+    @all_or_nothing('_rbfit_Z', '_rbfit_X')
     def calc_data(self):
         """
         Retrieve probabilities of success from execution results.
@@ -1283,6 +1297,7 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self.rbfit_Z.calc_data()
         self.rbfit_X.calc_data()
 
+    @all_or_nothing('_rbfit_Z', '_rbfit_X')
     def calc_statistics(self):
         """
         Extract averages and std dev.
@@ -1308,6 +1323,7 @@ class CNOTDihedralRBFitter(RBFitterBase):
         else:
             self.rbfit_X.fit_data_pattern(patt_ind, fit_guess)
 
+    @all_or_nothing('_rbfit_Z', '_rbfit_X')
     def fit_data(self):
         """Fit the non-Clifford cnot-dihedral RB results.
 
-- 
2.43.0


From 4bdd40e9ab2e68db6fbd14609041e965eea9289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:35 +0000
Subject: [PATCH 51/57] fix: quantum volume fitters keep their data when a call
 fails

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 8d4e826..360f69e 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -24,7 +24,7 @@ import warnings
 import numpy as np
 from qiskit import QiskitError
 from qiskit.visualization import plot_histogram
-from ...utils import build_counts_dict_from_list
+from ...utils import all_or_nothing, build_counts_dict_from_list
 
 try:
     from matplotlib import get_backend
@@ -99,6 +99,7 @@ class QVFitter:
         """Return the average and std of the output probability."""
         return self._ydata
 
+    @all_or_nothing()
     def add_statevectors(self, new_statevector_result):
         """
         Add the ideal results and convert to the heavy outputs.
@@ -148,6 +149,7 @@ class QVFitter:
                         self._heavy_outputs[circ_name],
                         self._all_output_prob_ideal[circ_name])
 
+    @all_or_nothing()
     def add_data(self, new_backend_result, rerun_fit=True):
         """
         Add a new result. Re calculate fit
@@ -190,6 +192,7 @@ class QVFitter:
             self.calc_data()
             self.calc_statistics()
 
+    @all_or_nothing()
     def calc_data(self):
         """
         Make a count dictionary for each unique circuit from all the results.
@@ -233,6 +236,7 @@ class QVFitter:
                 self._heavy_output_prob_exp[circ_name] = \
                     self._heavy_output_counts[circ_name] / self._circ_shots[circ_name]
 
+    @all_or_nothing()
     def calc_statistics(self):
         """
         Convert the heavy outputs in the different trials into mean and error
-- 
2.43.0


From b5b2e0565bdf843396b15aec3e6bbe5fa8faada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:35 +0000
Subject: [PATCH 52/57] fix: readout calibrations keep their data and matrices
 when a call fails

---
 qiskit/ignis/mitigation/measurement/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 6c04420..8b2e680 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -25,6 +25,7 @@ import numpy as np
 from qiskit import QiskitError
 from qiskit.result import Result
 from qiskit.ignis.verification.tomography import count_keys
+from ...utils import all_or_nothing
 from .filters import MeasurementFilter, TensoredFilter
 
 
@@ -307,6 +308,7 @@ class TensoredMeasFitter():
         """Return _qubit_list_sizes."""
         return sum(self._qubit_list_sizes)
 
+    @all_or_nothing()
     def add_data(self, new_results, rebuild_cal_matrix=True):
         """
         Add measurement calibration data
@@ -389,6 +391,7 @@ class TensoredMeasFitter():
 
         return np.mean(assign_fid_list)
 
+    @all_or_nothing()
     def _build_calibration_matrices(self):
         """
         Build the measurement calibration matrices from the results of running
-- 
2.43.0


From 301eb22713612c451ee279e5db48c864ae90b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:35 +0000
Subject: [PATCH 53/57] fix: characterization fits replace earlier ones only
 when all succeed

---
 qiskit/ignis/characterization/fitters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5a15b1d..c6fd572 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -325,6 +325,7 @@ class BaseFitter:
         if p0 is None:
             p0 = self._defaultp0
 
+        fits = []
         for _, serieslbl in enumerate(series):
             for qind in qfit:
                 tmp_params, fcov = \
@@ -333,8 +334,13 @@ class BaseFitter:
                                sigma=self._ydata[serieslbl][qind]['std'],
                                p0=p0, bounds=bounds)
 
-                self._params[serieslbl][qind] = tmp_params.copy()
-                self._params_err[serieslbl][qind] = np.sqrt(np.diag(fcov))
+                fits.append((serieslbl, qind, tmp_params.copy(),
+                             np.sqrt(np.diag(fcov))))
+
+        # keep the earlier fits unless all of these have succeeded
+        for serieslbl, qind, tmp_params, tmp_params_err in fits:
+            self._params[serieslbl][qind] = tmp_params
+            self._params_err[serieslbl][qind] = tmp_params_err
 
     @staticmethod
     def _exp_fit_fun(x, a, tau, c):
-- 
2.43.0


From 04777602783aa3d9ea1f6f5f01061e1d6f76d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:35 +0000
Subject: [PATCH 54/57] fix: GraphDecoder does not weight the graph of the
 caller

---
 qiskit/ignis/verification/topological_codes/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 0f2390a..527a2b7 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -59,7 +59,8 @@ class GraphDecoder():
         self.code = code
 
         if S:
-            self.S = S
+            # the decoder weights the graph, so keep the caller's as it is
+            self.S = S.copy()
         else:
             self.S = self._make_syndrome_graph()
 
-- 
2.43.0


From f18fd52a9e61ae543212e09a8c41f0011999c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 55/57] fix: raw MQC fidelity uses the raw populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From 625989dfd5de4c5681d41b6ac5b63a3ab5e4b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 56/57] fix: GHZ plans work on devices whose qubit 0 is
 uncoupled

---
 qiskit/ignis/verification/entanglement/parallelize.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..a8815a8 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -76,13 +76,7 @@ class BConfig:
         based on error, but that is probably not too useful
         """
 
-        best_node = 0
-        for i in self.nodes:
-            if len(self.nodes[i]) > len(self.nodes[best_node]):
-                best_node = i
-            else:
-                pass
-        return best_node
+        return max(self.nodes, key=lambda node: len(self.nodes[node]))
 
     def _indicator_off(self):
         """
-- 
2.43.0


From 2cf6810559e787e7990e8a8dd54ecf5dae1bac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 57/57] fix: GHZ plans reach every connected qubit of large
 devices in linear time

---
 qiskit/ignis/verification/entanglement/parallelize.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index a8815a8..c89efb8 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -170,27 +170,23 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
         while True:
             totalchildren = []
             for parent in parentlist:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
                     tier_DM[children[i]] = j+1
                     j += 1
                     trashlist.append(children[i])
-                parentlist = totalchildren
+            parentlist = totalchildren
 
-            if len(trashlist) == length:
-                break
-            ii += 1
-            if ii > 50:
+            if not parentlist:
                 break
 
         newtier = {}
-- 
2.43.0

