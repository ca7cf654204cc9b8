From b55e1e5546558f0db56326571a618a7c619b46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 01/48] fix: wait for jobs on the monotonic clock and treat
 cancelled jobs as final

---
 src/mqt/qudits/simulation/jobs/job.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..1eb03c9 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -5,7 +5,7 @@ import time
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -68,7 +68,7 @@ class Job:
 
     def in_final_state(self) -> bool:
         """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
@@ -85,10 +85,10 @@ class Job:
         """
         if not self._async:
             return
-        start_time = time.time()
+        start_time = time.monotonic()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
-            elapsed_time = time.time() - start_time
+        while status not in JOB_FINAL_STATES:
+            elapsed_time = time.monotonic() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
                 raise JobTimeoutError(msg)
-- 
2.43.0


From aca5587cecad2b3e741a499d39fbc862fc9de696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 02/48] fix: give every job a unique id

---
 src/mqt/qudits/simulation/jobs/job.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index 1eb03c9..27fa919 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
-- 
2.43.0


From 3ccadda3de0d8f048cc0c3c805e0abb08c4eb378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 03/48] fix: embed controlled gates with the dimension of their
 own target line

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From 219174957afb7b190b94b8a1b4d0bfc84ce5963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 04/48] fix: check control levels against the dimensions of the
 control lines

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..cfb8370 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 4fb3c6711bfa334b91f5f298d309862a769c7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 05/48] fix: update the long-range flag of a gate when controls
 are added

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index cfb8370..2b5736d 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From 445d3cde002d42ac16bc3b67cdc2769481cf0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 06/48] fix: build LS and MS matrices in the order of the lines
 like the other two-qudit gates

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 8 ++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py | 8 +++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..85969fe 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,15 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # matrices of two-qudit gates are given in the order of the lines
+        dimension_0, dimension_1 = [d for _, d in sorted(zip(cast(list[int], self.target_qudits), self.dimensions))]
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], [dimension_0, dimension_1])),
+                np.array(from_dirac_to_basis([i, i], [dimension_0, dimension_1])),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..edaba73 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,10 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # matrices of two-qudit gates are given in the order of the lines
+        lines = sorted(zip(cast(list[int], self.target_qudits), self.dimensions))
+        (qudit_targeted_0, dimension_0), (qudit_targeted_1, dimension_1) = lines
         ps: list[int | str] = [0, 1, "s"]
-        qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From 8c470ca9bc45fd74cdf67855ad5e6e3da108c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 07/48] fix: keep options of one run from leaking into later
 runs and accept recognised options in set_options

---
 src/mqt/qudits/simulation/backends/backendv2.py    |  2 +-
 src/mqt/qudits/simulation/backends/innsbruck_01.py | 14 +++++++-------
 src/mqt/qudits/simulation/backends/misim.py        | 14 +++++++-------
 src/mqt/qudits/simulation/backends/tnsim.py        | 14 +++++++-------
 4 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..7295d7b 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in self.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index e291306..d286067 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -81,13 +81,13 @@ class Innsbruck01(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        run_options = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         assert self.shots >= 50, "Number of shots should be above 50"
         self.execute(circuit)
diff --git a/src/mqt/qudits/simulation/backends/misim.py b/src/mqt/qudits/simulation/backends/misim.py
index 8ed35db..84ce9fa 100644
--- a/src/mqt/qudits/simulation/backends/misim.py
+++ b/src/mqt/qudits/simulation/backends/misim.py
@@ -36,13 +36,13 @@ class MISim(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        run_options = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
diff --git a/src/mqt/qudits/simulation/backends/tnsim.py b/src/mqt/qudits/simulation/backends/tnsim.py
index 3ac8a8d..7da8a69 100644
--- a/src/mqt/qudits/simulation/backends/tnsim.py
+++ b/src/mqt/qudits/simulation/backends/tnsim.py
@@ -39,13 +39,13 @@ class TNSim(Backend):
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
-        self._options.update(options)
-        self.noise_model: NoiseModel | None = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        run_options = {**self._options, **options}
+        self.noise_model: NoiseModel | None = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
-- 
2.43.0


From c4cc2baae048da25e3a5a80b4d1a723908fb915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 08/48] fix: let a noise model given to a fake backend's
 constructor take effect

---
 .../qudits/simulation/backends/fake_backends/fake_traps2six.py | 3 ++-
 .../simulation/backends/fake_backends/fake_traps2three.py      | 3 ++-
 .../qudits/simulation/backends/fake_backends/fake_traps3six.py | 3 ++-
 src/mqt/qudits/simulation/backends/innsbruck_01.py             | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
index 1fea81a..3a5e642 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2six.py
@@ -24,7 +24,8 @@ class FakeIonTraps2Six(TNSim):
         super().__init__(
             provider=provider, name="FakeTrap2Six", description="A Fake backend of an ion trap qudit machine", **fields
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
index 7bc8be8..b82f7bf 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps2three.py
@@ -31,7 +31,8 @@ class FakeIonTraps2Trits(TNSim):
             description="A Fake backend of an ion trap qudit machine",
             **fields,
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
index b926bdb..3ce8402 100644
--- a/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
+++ b/src/mqt/qudits/simulation/backends/fake_backends/fake_traps3six.py
@@ -31,7 +31,8 @@ class FakeIonTraps3Six(TNSim):
             description="A Fake backend of an ion trap qudit machine",
             **fields,
         )
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index d286067..8217843 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -33,7 +33,8 @@ class Innsbruck01(Backend):
             **fields,
         )
         self.outcome: list[int] = []
-        self.options["noise_model"] = self.__noise_model()
+        if "noise_model" not in fields:
+            self.options["noise_model"] = self.__noise_model()
         self.author = "<Kevin Mato>"
         self._energy_level_graphs: list[LevelGraph] = []
 
-- 
2.43.0


From e18d610b91a00d7f35fda9c5cf7e4e022dafa633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 09/48] fix: write result and circuit files completely or not
 at all

---
 src/mqt/qudits/core/atomic_write.py       | 24 +++++++++++++++++++++++
 src/mqt/qudits/quantum_circuit/circuit.py |  3 ++-
 src/mqt/qudits/simulation/save_info.py    |  6 ++++--
 3 files changed, 30 insertions(+), 3 deletions(-)
 create mode 100644 src/mqt/qudits/core/atomic_write.py

diff --git a/src/mqt/qudits/core/atomic_write.py b/src/mqt/qudits/core/atomic_write.py
new file mode 100644
index 0000000..2ba3a9f
--- /dev/null
+++ b/src/mqt/qudits/core/atomic_write.py
@@ -0,0 +1,24 @@
+from __future__ import annotations
+
+import os
+import uuid
+from contextlib import contextmanager, suppress
+from pathlib import Path
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Iterator
+
+
+@contextmanager
+def atomic_write(path: Path) -> Iterator[Path]:
+    """Provide a temporary file name next to `path` which replaces `path` only if the block succeeds."""
+    path = Path(os.path.realpath(path))
+    temporary = path.with_name(f".{uuid.uuid4().hex}.tmp")
+    try:
+        yield temporary
+        os.replace(temporary, path)
+    except BaseException:
+        with suppress(OSError):
+            temporary.unlink()
+        raise
diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..aeca741 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, TypeVar, cast
 
 import numpy as np
 
+from ..core.atomic_write import atomic_write
 from .components import ClassicRegister, QuantumRegister
 from .gates import (
     LS,
@@ -393,7 +394,7 @@ class QuantumCircuit:
         full_file_path = Path(file_path) / (file_name + ".qasm")
 
         # Write the text to the file
-        with full_file_path.open("w+") as file:
+        with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
             file.write(self.to_qasm())
 
         self.path_save = None
diff --git a/src/mqt/qudits/simulation/save_info.py b/src/mqt/qudits/simulation/save_info.py
index d921356..436957b 100644
--- a/src/mqt/qudits/simulation/save_info.py
+++ b/src/mqt/qudits/simulation/save_info.py
@@ -8,6 +8,8 @@ from pathlib import Path
 import h5py  # type: ignore[import-not-found]
 import numpy as np
 
+from ..core.atomic_write import atomic_write
+
 if typing.TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -36,7 +38,7 @@ def save_full_states(
     ]
 
     # Open the HDF5 file in write mode
-    with h5py.File(full_path, "w") as hdf_file:
+    with atomic_write(full_path) as temporary, h5py.File(temporary, "w") as hdf_file:
         # Create a table dataset within the file to store the vectors
         dtype = [("name", "S36"), ("vector_data", np.complex128, size)]
         table_data = np.array(
@@ -57,7 +59,7 @@ def save_shots(shots: list[int], file_path: str | Path, file_name: str) -> None:
     # Combine names and vectors into a list of dictionaries
     list_of_outcomes = [{"shot_nr": nr, "outcome": outcome} for nr, outcome in zip(indexes, shots)]
 
-    with h5py.File(full_path, "w") as hdf_file:
+    with atomic_write(full_path) as temporary, h5py.File(temporary, "w") as hdf_file:
         # Create a table dataset within the file to store the vectors
         dtype = [("nr", int), ("shot", int)]
         table_data = np.array(
-- 
2.43.0


From ed58680a1844e59ea3b5bcff53a250ea464a6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 10/48] fix: forget the save directory of a circuit when saving
 fails

---
 src/mqt/qudits/quantum_circuit/circuit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index aeca741..6b6b142 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -394,10 +394,11 @@ class QuantumCircuit:
         full_file_path = Path(file_path) / (file_name + ".qasm")
 
         # Write the text to the file
-        with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
-            file.write(self.to_qasm())
-
-        self.path_save = None
+        try:
+            with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
+                file.write(self.to_qasm())
+        finally:
+            self.path_save = None
         return str(full_file_path)
 
     def load_from_file(self, file_path: str) -> None:
-- 
2.43.0


From 3211dcc65113ef86aca5ea74a8afbe3247b60a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 11/48] fix: save custom matrices under unique absolute names
 that load back from anywhere

---
 src/mqt/qudits/quantum_circuit/gate.py | 6 ++----
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 2b5736d..1035df8 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
-import random
-import string
+import uuid
 from abc import ABC, abstractmethod
 from pathlib import Path
 from typing import TYPE_CHECKING, Optional, Union
@@ -219,7 +218,6 @@ class Gate(Instruction):
         if not self.parent_circuit.path_save:
             return "(custom_data) "
 
-        key = "".join(random.choice(string.ascii_letters) for _ in range(4))  # noqa: S311
-        file_path = Path(self.parent_circuit.path_save) / f"{self._name}_{key}.npy"
+        file_path = Path(self.parent_circuit.path_save).absolute() / f"{self._name}_{uuid.uuid4().hex}.npy"
         np.save(file_path, self._params)
         return f"({file_path}) "
diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..0505b7a 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -182,7 +182,7 @@ class QASM:
             # "gate_matrix":
             # re.compile(r"(\w+)\s*(?:\(([^)]*)\))?\s*(\w+\[\other_size+\]\s*(,\s*\w+\[\other_size+\])*)\s*;"),
             "gate_matrix": re.compile(
-                r"(\w+)\s*(?:\(([^)]*)\))?\s*(\w+\[\d+\]\s*(,\s*\w+\[\d+\])*)\s*"
+                r"(\w+)\s*(?:\((.*?\.npy|[^)]*)\))?\s*(\w+\[\d+\]\s*(,\s*\w+\[\d+\])*)\s*"
                 r"(ctl(\s+\w+\[\d+\]\s*(\s*\w+\s*\[\d+\])*)\s*(\[(\d+(,\s*\d+)*)\]))?"
                 r"\s*;"
             ),
-- 
2.43.0


From dd53cb233b7cd279e4476275beaabb20e401c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 12/48] fix: export the control lines of a gate instead of its
 target

---
 src/mqt/qudits/quantum_circuit/gate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 1035df8..23c8299 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -176,9 +176,9 @@ class Gate(Instruction):
         string = string[:-2]
         if self._controls_data is not None:
             string += " ctl "
-            for _ctrl in self._controls_data.indices:
+            for ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[ctrl][0]}[{self.parent_circuit.inverse_sitemap[ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From 72147d10c85f315b8451cdb204fdfcdc068d5777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 13/48] fix: load gate parameters with their types and load
 noisex and noisey gates

---
 src/mqt/qudits/quantum_circuit/circuit.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 6b6b142..4171265 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -87,7 +87,11 @@ class QuantumCircuit:
         "s": "s",
         "x": "x",
         "z": "z",
+        "noisex": "noisex",
+        "noisey": "noisey",
     }
+    # number of leading gate parameters that are levels, the remaining ones are angles
+    qasm_level_parameters: ClassVar = {"cx": 3, "rxy": 2, "rh": 2, "rz": 2, "virtrz": 1, "noisex": 2, "noisey": 2}
 
     def __init__(self, *args: int | QuantumRegister | list[int] | None) -> None:
         self.cl_inverse_sitemap: InverseSitemap = {}
@@ -347,11 +351,17 @@ class QuantumCircuit:
                     # Extract the first element from each tuple and return as a list
                     else:
                         qudits_call = [t[0] for t in list(tuples_qudits)]
-                    if is_not_none_or_empty(op["params"]):
+                    params = op["params"]
+                    if is_not_none_or_empty(params):
+                        if isinstance(params, tuple):
+                            n_levels = (
+                                len(params) if op["name"] == "pm" else self.qasm_level_parameters.get(op["name"], 0)
+                            )
+                            params = [int(param) for param in params[:n_levels]] + list(params[n_levels:])
                         if op["controls"]:
-                            function(qudits_call, op["params"], op["controls"])
+                            function(qudits_call, params, op["controls"])
                         else:
-                            function(qudits_call, op["params"])
+                            function(qudits_call, params)
                     elif op["controls"]:
                         function(qudits_call, op["controls"])
                     else:
-- 
2.43.0


From ffbd3100b9a99e779710690c394cb68722692dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 14/48] fix: keep inverses when exporting and loading circuits

---
 src/mqt/qudits/quantum_circuit/circuit.py | 18 +++++++++++-------
 src/mqt/qudits/quantum_circuit/gate.py    |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 4171265..54a0ac8 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -336,8 +336,10 @@ class QuantumCircuit:
         qasm_set = self.get_qasm_set()
 
         for op in instructions:
-            if op["name"] in qasm_set:
-                gate_constructor_name = qasm_set[op["name"]]
+            name = op["name"].removesuffix("_dag")
+            dagger = name != op["name"]
+            if name in qasm_set:
+                gate_constructor_name = qasm_set[name]
                 if hasattr(self, gate_constructor_name):
                     function = getattr(self, gate_constructor_name)
 
@@ -355,17 +357,19 @@ class QuantumCircuit:
                     if is_not_none_or_empty(params):
                         if isinstance(params, tuple):
                             n_levels = (
-                                len(params) if op["name"] == "pm" else self.qasm_level_parameters.get(op["name"], 0)
+                                len(params) if name == "pm" else self.qasm_level_parameters.get(name, 0)
                             )
                             params = [int(param) for param in params[:n_levels]] + list(params[n_levels:])
                         if op["controls"]:
-                            function(qudits_call, params, op["controls"])
+                            gate = function(qudits_call, params, op["controls"])
                         else:
-                            function(qudits_call, params)
+                            gate = function(qudits_call, params)
                     elif op["controls"]:
-                        function(qudits_call, op["controls"])
+                        gate = function(qudits_call, op["controls"])
                     else:
-                        function(qudits_call)
+                        gate = function(qudits_call)
+                    if dagger:
+                        gate.dag()
                 else:
                     msg = "the required gate_matrix is not available anymore."
                     raise NotImplementedError(msg)
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 23c8299..4f83da3 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -156,7 +156,7 @@ class Gate(Instruction):
 
     def __qasm__(self) -> str:  # noqa: PLW3201
         """Generate QASM for Gate export."""
-        string = f"{self.qasm_tag} "
+        string = f"{self.qasm_tag}_dag " if self.dagger else f"{self.qasm_tag} "
         if isinstance(self._params, np.ndarray):
             string += self.return_custom_data()
         elif self._params:
-- 
2.43.0


From 632bf2532b9e8f88c50b62f9578e2dd9f83694a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 15/48] fix: give every shot a random stream of its own

---
 .../simulation/backends/stochastic_sim.py     | 32 ++++++++-----------
 .../noise_tools/noisy_circuit_factory.py      | 10 +-----
 2 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..a8e0e7d 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import multiprocessing as mp
-import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -11,6 +9,7 @@ from ..noise_tools import NoiseModel, NoisyCircuitFactory
 from ..save_info import save_full_states, save_shots
 
 if TYPE_CHECKING:
+    from numpy.random import Generator, SeedSequence
     from numpy.typing import NDArray
 
     from ...quantum_circuit import QuantumCircuit
@@ -18,16 +17,9 @@ if TYPE_CHECKING:
     from .backendv2 import Backend
 
 
-def generate_seed() -> int:
-    """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
-
-
-def measure_state(vector_data: NDArray[np.complex128]) -> int:
+def measure_state(vector_data: NDArray[np.complex128], rng: Generator) -> int:
     """Measure the quantum state and return the result."""
     probabilities = np.abs(vector_data.ravel()) ** 2
-    rng = np.random.default_rng(generate_seed())
     return rng.choice(len(probabilities), p=probabilities)
 
 
@@ -46,15 +38,17 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
     shots: int = backend.shots
     num_processes: int = mp.cpu_count()
+    # Every shot gets a random stream of its own, whichever worker executes it and whenever it does
+    seeds = np.random.SeedSequence().spawn(shots)
     from . import MISim, TNSim
 
     with mp.Pool(processes=num_processes) as pool:
         if isinstance(backend, TNSim):
             factory = NoisyCircuitFactory(noise_model, circuit)
-            args_tn = [(backend, factory) for _ in range(shots)]
+            args_tn = [(backend, factory, seed) for seed in seeds]
             results = pool.map(stochastic_execution_tn, args_tn)
         elif isinstance(backend, MISim):
-            args_misim = [(backend, circuit, noise_model) for _ in range(shots)]
+            args_misim = [(backend, circuit, noise_model, seed) for seed in seeds]
             results = pool.map(stochastic_execution_mi, args_misim)
         else:
             msg = "Unsupported backend type"
@@ -64,14 +58,16 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
     return results
 
 
-def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory]) -> NDArray | int:
-    backend, factory = args
+def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory, SeedSequence]) -> NDArray | int:
+    backend, factory, seed = args
+    rng = np.random.default_rng(seed)
+    factory.rng = rng
     circuit = factory.generate_circuit()
     vector_data = backend.execute(circuit)
-    return vector_data if backend.full_state_memory else measure_state(vector_data)
+    return vector_data if backend.full_state_memory else measure_state(vector_data, rng)
 
 
-def stochastic_execution_mi(args: tuple[MISim, QuantumCircuit, NoiseModel]) -> NDArray | int:
-    backend, circuit, noise_model = args
+def stochastic_execution_mi(args: tuple[MISim, QuantumCircuit, NoiseModel, SeedSequence]) -> NDArray | int:
+    backend, circuit, noise_model, seed = args
     vector_data = backend.execute(circuit, noise_model)
-    return vector_data if backend.full_state_memory else measure_state(vector_data)
+    return vector_data if backend.full_state_memory else measure_state(vector_data, np.random.default_rng(seed))
diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..2177320 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -27,13 +25,7 @@ class NoisyCircuitFactory:
     def __init__(self, noise_model: NoiseModel, circuit: QuantumCircuit) -> None:
         self.noise_model: NoiseModel = noise_model
         self.circuit: QuantumCircuit = circuit
-        self.rng: Generator = self._initialize_rng()
-
-    @staticmethod
-    def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        self.rng: Generator = np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 476f6360368fca040f213c7c37dab018e32eeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 16/48] fix: raise an error when a worker process dies instead
 of waiting forever

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a8e0e7d..d39e2c2 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -42,14 +43,16 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
     seeds = np.random.SeedSequence().spawn(shots)
     from . import MISim, TNSim
 
-    with mp.Pool(processes=num_processes) as pool:
+    chunksize: int = max(1, -(-shots // (4 * num_processes)))
+    # Unlike a multiprocessing pool, the executor raises an error when one of its processes dies
+    with ProcessPoolExecutor(max_workers=num_processes) as pool:
         if isinstance(backend, TNSim):
             factory = NoisyCircuitFactory(noise_model, circuit)
             args_tn = [(backend, factory, seed) for seed in seeds]
-            results = pool.map(stochastic_execution_tn, args_tn)
+            results = list(pool.map(stochastic_execution_tn, args_tn, chunksize=chunksize))
         elif isinstance(backend, MISim):
             args_misim = [(backend, circuit, noise_model, seed) for seed in seeds]
-            results = pool.map(stochastic_execution_mi, args_misim)
+            results = list(pool.map(stochastic_execution_mi, args_misim, chunksize=chunksize))
         else:
             msg = "Unsupported backend type"
             raise TypeError(msg)
-- 
2.43.0


From 8f5af0c0a394f92f92c77e2b172e1d1ac956bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 17/48] fix: draw the unitary of a random-unitary gate only
 once

---
 src/mqt/qudits/quantum_circuit/gates/randu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/randu.py b/src/mqt/qudits/quantum_circuit/gates/randu.py
index bf2aabc..6f73e13 100644
--- a/src/mqt/qudits/quantum_circuit/gates/randu.py
+++ b/src/mqt/qudits/quantum_circuit/gates/randu.py
@@ -36,10 +36,10 @@ class RandU(Gate):
             control_set=controls,
             qasm_tag="rdu",
         )
+        self._matrix: NDArray[np.complex128] = unitary_group.rvs(reduce(operator.mul, self.dimensions))
 
     def __array__(self) -> NDArray[np.complex128, np.complex128]:  # noqa: PLW3201
-        dim = reduce(operator.mul, self.dimensions)
-        return unitary_group.rvs(dim)
+        return self._matrix.copy()
 
     @property
     def dimensions(self) -> list[int]:
-- 
2.43.0


From b95cc86ce62e819d44b6836560ecc1b19f8d351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 18/48] fix: end variational compilation when the optimiser
 fails or times out and stop its timers

---
 .../ansatz/ansatz_solve_n_search.py           | 22 ++++++++++++-------
 .../opt/optimizer.py                          | 12 ++++++----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..d165ffa 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -50,15 +50,21 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     duration = 3600 * (Optimizer.SINGLE_DIM_0 * Optimizer.SINGLE_DIM_1 / 4)
 
-    result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
+    result_queue: queue.Queue[tuple[float, list[float]] | Exception] = queue.Queue()
 
+    Optimizer.timer_var = False
     thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
-    thread.start()
-
     timer = threading.Timer(duration, interrupt_function)
-    timer.start()
 
-    thread.join()
-    f, x = result_queue.get()
-
-    return f, x
+    timer.start()
+    try:
+        thread.start()
+        thread.join()
+    finally:
+        timer.cancel()
+        timer.join()
+
+    result = result_queue.get_nowait()
+    if isinstance(result, Exception):
+        raise result
+    return result
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..8da1315 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -13,7 +13,7 @@ from ..ansatz.ansatz_gen_utils import bound_1, bound_2, bound_3
 from .distance_measures import fidelity_on_unitares
 
 if typing.TYPE_CHECKING:
-    import multiprocessing
+    import queue
 
     from numpy.typing import NDArray
 
@@ -118,7 +118,7 @@ class Optimizer:
         cls,
         bounds: list[tuple[float, float]],
         ansatz_type: str,
-        result_queue: multiprocessing.Queue[tuple[float, list[float]]],
+        result_queue: queue.Queue[tuple[float, list[float]] | Exception],
     ) -> None:
         try:
             if ansatz_type == "MS":  # MS is 0
@@ -128,7 +128,8 @@ class Optimizer:
             elif ansatz_type == "CU":
                 opt = dual_annealing(cls.objective_fnc_cu, bounds=bounds)
             else:
-                opt = None
+                msg = f"Unknown ansatz type: {ansatz_type}"
+                raise ValueError(msg)  # noqa: TRY301
 
             x = opt.x
             fun = opt.fun
@@ -139,4 +140,7 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            result_queue.put((np.inf, []))
+
+        except Exception as error:  # noqa: BLE001
+            result_queue.put(error)
-- 
2.43.0


From d0163d59f7bed4d5ed5552eb22f1551fc6439bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 19/48] fix: return variationally compiled circuits in the
 right gate order and raise an error when there is none

---
 .../ansatz/ansatz_gen.py                              | 11 +++++++----
 .../ansatz/instantiate.py                             |  3 ++-
 .../layered_compilation.py                            |  8 ++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..27eb1e0 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -13,10 +13,10 @@ from mqt.qudits.quantum_circuit import QuantumCircuit, gates
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
-    from mqt.qudits.quantum_circuit.gate import Gate
 
-
-def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
+def prepare_ansatz(
+    u: NDArray[np.complex128, np.complex128], params: list[list[float]], dims: list[int]
+) -> NDArray[np.complex128, np.complex128]:
     counter = 0
     unitary = gate_expand_to_circuit(np.identity(dims[0], dtype=complex), circuits_size=2, target=0, dims=dims)
 
@@ -38,7 +38,10 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
 
 def cu_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
     params = params_splitter(p, dims)
-    cu = Primitive.CUSTOM_PRIMITIVE
+    if Primitive.CUSTOM_PRIMITIVE is None:
+        msg = "Custom Gate not set."
+        raise ValueError(msg)
+    cu = Primitive.CUSTOM_PRIMITIVE.to_matrix()
     return prepare_ansatz(cu, params, dims)
 
 
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..4af46fa 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -36,7 +36,8 @@ def ansatz_decompose(
 
         counter += 1
 
-    return decomposition
+    # The ansatz is a product of matrices, in which the first factor is the one applied last
+    return decomposition[::-1]
 
 
 def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..45e3ca1 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -25,10 +25,14 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    dim_0, dim_1 = itemgetter(*sorted(target.reference_lines))(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
-    _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
+    _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
+
+    if best_error > tolerance:
+        msg = f"No circuit within the tolerance found with up to {layers} layers"
+        raise RuntimeError(msg)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-- 
2.43.0


From 5c8b6328b0ce9793a9044a26e9872c6d50161a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 20/48] fix: keep variational compilations in several threads
 from disturbing each other

---
 .../layered_compilation.py                    | 43 +++++++++++--------
 .../opt/optimizer.py                          | 18 ++++----
 .../sparsifier.py                             |  5 +--
 3 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index 45e3ca1..f9b728d 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import copy
+import threading
 import typing
 from operator import itemgetter
 
@@ -17,6 +18,9 @@ if typing.TYPE_CHECKING:
     from mqt.qudits.quantum_circuit import QuantumCircuit
     from mqt.qudits.quantum_circuit.gate import Gate
 
+# The state of the search is kept in class variables, so only one search at a time can use it
+_search_lock = threading.Lock()
+
 
 def variational_compile(
     target: Gate,
@@ -26,22 +30,23 @@ def variational_compile(
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
     dim_0, dim_1 = itemgetter(*sorted(target.reference_lines))(target.parent_circuit.dimensions)
-    Primitive.set_class_variables(custom_primitive)
-    Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
-    _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
-
-    if best_error > tolerance:
-        msg = f"No circuit within the tolerance found with up to {layers} layers"
-        raise RuntimeError(msg)
-
-    circuit = copy.deepcopy(target.parent_circuit)
-    if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
-    elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
-    elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
-    else:
-        raise ValueError
-    circuit.set_instructions(gates)
-    return circuit
+    with _search_lock:
+        Primitive.set_class_variables(custom_primitive)
+        Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
+        _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
+
+        if best_error > tolerance:
+            msg = f"No circuit within the tolerance found with up to {layers} layers"
+            raise RuntimeError(msg)
+
+        circuit = copy.deepcopy(target.parent_circuit)
+        if ansatz_type == "MS":  # MS is 0
+            gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        elif ansatz_type == "LS":  # LS is 1
+            gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        elif ansatz_type == "CU":
+            gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        else:
+            raise ValueError
+        circuit.set_instructions(gates)
+        return circuit
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index 8da1315..71df17a 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -64,15 +64,15 @@ class Optimizer:
 
     @classmethod
     def return_bounds(cls, num_layer_search: int = 1) -> list[tuple[float, float]]:
-        num_params_single_unitary_line_0 = -1 + Optimizer.SINGLE_DIM_0**2
-        num_params_single_unitary_line_1 = -1 + Optimizer.SINGLE_DIM_1**2
-
-        bounds_line_0 = Optimizer.bounds_assigner(
-            bound_1, bound_2, bound_3, num_params_single_unitary_line_0, Optimizer.SINGLE_DIM_0
-        )
-        bounds_line_1 = Optimizer.bounds_assigner(
-            bound_1, bound_2, bound_3, num_params_single_unitary_line_1, Optimizer.SINGLE_DIM_1
-        )
+        return cls.bounds_for_dimensions(cls.SINGLE_DIM_0, cls.SINGLE_DIM_1, num_layer_search)
+
+    @staticmethod
+    def bounds_for_dimensions(dim_0: int, dim_1: int, num_layer_search: int = 1) -> list[tuple[float, float]]:
+        num_params_single_unitary_line_0 = -1 + dim_0**2
+        num_params_single_unitary_line_1 = -1 + dim_1**2
+
+        bounds_line_0 = Optimizer.bounds_assigner(bound_1, bound_2, bound_3, num_params_single_unitary_line_0, dim_0)
+        bounds_line_1 = Optimizer.bounds_assigner(bound_1, bound_2, bound_3, num_params_single_unitary_line_1, dim_1)
 
         # Determine the length of the longest bounds list
         # max_length = max(len(bounds_line_0), len(bounds_line_1))
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..f7149bf 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -119,12 +119,11 @@ def objective_function(thetas: list[float], m: NDArray[np.complex128, np.complex
     return compute_f(m_ghost) * den
 
 
-def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:
+def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:  # noqa: ARG001
     m = gate.to_matrix()
     dims = typing.cast(list[int], gate.dimensions)
 
-    Optimizer.set_class_variables(m, tol, dims[0], dims[1])
-    bounds = Optimizer.return_bounds()
+    bounds = Optimizer.bounds_for_dimensions(dims[0], dims[1])
 
     initial_thetas = np.array(list(starmap(uniform, bounds)))
 
-- 
2.43.0


From 96c0881b1af457baa2b55a05ea8ffd4647f608f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 21/48] fix: keep the phase and the inverse of a controlled
 exchange when its levels are mapped

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..feaaee2 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import gc
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -40,8 +42,11 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                # exchanging the levels of the rotation mirrors its phase
+                new_parameters = [new_lb, new_la, new_ctrl_lev, (2 * np.pi - gate.phi) % (2 * np.pi)]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
+            if gate.dagger:
+                tcex.dag()
             return [tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
-- 
2.43.0


From 19b6a15c28783ad7203007bf4496faa54668d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 22/48] fix: compile with level graphs of its own so that a
 compilation does not change the backend

---
 src/mqt/qudits/compiler/dit_compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..7ce3951 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import typing
 from typing import Optional
 
@@ -34,7 +35,15 @@ class QuditCompiler:
     def __init__(self) -> None:
         pass
 
+    @staticmethod
+    def _with_own_level_graphs(backend: Backend) -> Backend:
+        """Return a backend to compile for, as passes change the level graphs while they work on a circuit."""
+        working_backend = copy.copy(backend)
+        working_backend._energy_level_graphs = copy.deepcopy(backend.energy_level_graphs)  # noqa: SLF001
+        return working_backend
+
     def compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
+        backend = self._with_own_level_graphs(backend)
         passes_dict = {}
         new_instr = []
         # Instantiate and execute created classes
@@ -76,6 +85,7 @@ class QuditCompiler:
 
     @staticmethod
     def compile_O1(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
+        backend = QuditCompiler._with_own_level_graphs(backend)
         phyloc = PhyLocQRPass(backend)
         phyent = PhyEntQRCEXPass(backend)
         resynth = NaiveLocResynthOptPass(backend)
@@ -100,6 +110,7 @@ class QuditCompiler:
 
     @staticmethod
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
+        backend = QuditCompiler._with_own_level_graphs(backend)
         phyent = PhyEntQRCEXPass(backend)
 
         lanes = Lanes(circuit)
-- 
2.43.0


From 2666b2d22eb6cd4ec78eb0a383b82b0a61da9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 23/48] fix: select the control and target lines of controlled
 gates for noise

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 2177320..30c8229 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -133,8 +133,7 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
-        qudits_targeted = cast(list[int], instruction.target_qudits)
-        return qudits_targeted[:1]
+        return instruction.reference_lines[:1]
 
     @staticmethod
     def _get_target_qudits(instruction: Gate) -> list[int]:
@@ -150,8 +149,8 @@ class NoisyCircuitFactory:
         List of target qudit indices, excluding control qudits
         """
         if instruction.gate_type != GateTypes.SINGLE:
-            qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
+            num_controls = max(1, len(instruction.get_control_lines))
+            return instruction.reference_lines[num_controls:]
 
         return [cast(int, instruction.target_qudits)]
 
-- 
2.43.0


From ce4c926eb8e17f281677ea06913cf139bbb4ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 24/48] fix: collect the nodes of a tensor network without the
 process-wide collection

---
 src/mqt/qudits/simulation/backends/tnsim.py | 81 ++++++++++-----------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/tnsim.py b/src/mqt/qudits/simulation/backends/tnsim.py
index 7da8a69..007d38e 100644
--- a/src/mqt/qudits/simulation/backends/tnsim.py
+++ b/src/mqt/qudits/simulation/backends/tnsim.py
@@ -67,54 +67,53 @@ class TNSim(Backend):
         return result.reshape(1, state_size)
 
     @staticmethod
-    def __apply_gate(qudit_edges: tn.Edge, gate: NDArray, operating_qudits: list[int]) -> None:
+    def __apply_gate(qudit_edges: tn.Edge, gate: NDArray, operating_qudits: list[int]) -> tn.Node:
         op = tn.Node(gate)
         for i, bit in enumerate(operating_qudits):
             tn.connect(qudit_edges[bit], op[i])
             qudit_edges[bit] = op[i + len(operating_qudits)]
+        return op
 
     def __contract_circuit(
         self, system_sizes: list[int], operations: Sequence[Gate]
     ) -> tn.network_components.AbstractNode:
-        all_nodes: Sequence[tn.network_components.AbstractNode] = []
-
-        with tn.NodeCollection(all_nodes):
-            state_nodes = []
-            for s in system_sizes:
-                z = [0] * s
-                z[0] = 1
-                state_nodes.append(tn.Node(np.array(z, dtype="complex")))
-
-            qudits_legs = [node[0] for node in state_nodes]
-
-            for op in operations:
-                op_matrix = op.to_matrix(identities=1)
-                lines = op.reference_lines
-
-                if op.gate_type == GateTypes.SINGLE:
-                    op_matrix = op_matrix.T
-                    # op_matrix = op_matrix.reshape((system_sizes[lines[0]], system_sizes[lines[0]]))
-
-                elif op.gate_type == GateTypes.TWO and not op.is_long_range:
-                    op_matrix = op_matrix.T
-                    lines = lines.copy()
-                    lines.sort()
-
-                    op_matrix = op_matrix.reshape((
-                        system_sizes[lines[0]],
-                        system_sizes[lines[1]],
-                        system_sizes[lines[0]],
-                        system_sizes[lines[1]],
-                    ))
-
-                elif op.is_long_range or op.gate_type == GateTypes.MULTI:
-                    op_matrix = op_matrix.T
-                    minimum_line, maximum_line = min(lines), max(lines)
-                    interested_lines = list(range(minimum_line, maximum_line + 1))
-                    inputs_outputs_legs = [system_sizes[i] for i in interested_lines] * 2
-                    op_matrix = op_matrix.reshape(tuple(inputs_outputs_legs))
-                    lines = interested_lines
-
-                self.__apply_gate(qudits_legs, op_matrix, lines)
+        # not a tn.NodeCollection, which is shared by all threads
+        all_nodes: list[tn.network_components.AbstractNode] = []
+        for s in system_sizes:
+            z = [0] * s
+            z[0] = 1
+            all_nodes.append(tn.Node(np.array(z, dtype="complex")))
+
+        qudits_legs = [node[0] for node in all_nodes]
+
+        for op in operations:
+            op_matrix = op.to_matrix(identities=1)
+            lines = op.reference_lines
+
+            if op.gate_type == GateTypes.SINGLE:
+                op_matrix = op_matrix.T
+                # op_matrix = op_matrix.reshape((system_sizes[lines[0]], system_sizes[lines[0]]))
+
+            elif op.gate_type == GateTypes.TWO and not op.is_long_range:
+                op_matrix = op_matrix.T
+                lines = lines.copy()
+                lines.sort()
+
+                op_matrix = op_matrix.reshape((
+                    system_sizes[lines[0]],
+                    system_sizes[lines[1]],
+                    system_sizes[lines[0]],
+                    system_sizes[lines[1]],
+                ))
+
+            elif op.is_long_range or op.gate_type == GateTypes.MULTI:
+                op_matrix = op_matrix.T
+                minimum_line, maximum_line = min(lines), max(lines)
+                interested_lines = list(range(minimum_line, maximum_line + 1))
+                inputs_outputs_legs = [system_sizes[i] for i in interested_lines] * 2
+                op_matrix = op_matrix.reshape(tuple(inputs_outputs_legs))
+                lines = interested_lines
+
+            all_nodes.append(self.__apply_gate(qudits_legs, op_matrix, lines))
 
         return tn.contractors.auto(all_nodes, output_edge_order=qudits_legs)
-- 
2.43.0


From e3094b8103f27921ef813daeb490f53b309cc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 25/48] fix: apply the controls of single-qudit gates in the
 decision-diagram simulator

---
 src/python/bindings.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..4d846f6 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -512,8 +512,12 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   dd::Controls controlSet{};
   if ((std::get<0>(control_set).size() > 0) &&
       (std::get<1>(control_set).size() > 0)) {
-    std::vector<dd::QuantumRegister> ctrlQudits = std::get<0>(control_set);
-    std::vector<dd::Control::Type> ctrlLevels = std::get<1>(control_set);
+    const std::vector<dd::QuantumRegister>& ctrlQudits =
+        std::get<0>(control_set);
+    const std::vector<dd::Control::Type>& ctrlLevels = std::get<1>(control_set);
+    for (std::size_t i = 0; i < ctrlQudits.size(); ++i) {
+      controlSet.insert(dd::Control{ctrlQudits.at(i), ctrlLevels.at(i)});
+    }
   }
 
   if (tag == "rxy") {
-- 
2.43.0


From 458083245b4aff376d8bdd6974407a28713714bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 26/48] fix: select the lines of controlled gates for noise in
 the decision-diagram simulator

---
 src/python/bindings.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 4d846f6..fbd07af 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -303,14 +303,13 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
 
     const auto& [tag, dag, dims_gate, gate_type, target_qudits, params,
                  control_set] = instruction;
-    std::vector<int> referenceLines(target_qudits.begin(), target_qudits.end());
-
-    if (!(std::get<0>(control_set).empty()) &&
-        (std::get<1>(control_set).empty())) {
-      auto [ctrl_dits, levels] = control_set; // Decompose the tuple
-
-      referenceLines.insert(referenceLines.end(), ctrl_dits.begin(),
-                            ctrl_dits.end());
+    const auto& ctrl_dits = std::get<0>(control_set);
+    std::vector<int> referenceLines(ctrl_dits.begin(), ctrl_dits.end());
+    referenceLines.insert(referenceLines.end(), target_qudits.begin(),
+                          target_qudits.end());
+    std::size_t numControls = ctrl_dits.size();
+    if (numControls == 0 && target_qudits.size() > 1) {
+      numControls = 1; // the first line of a two-qudit gate
     }
 
     if (noiseModel.find(tag) != noiseModel.end()) {
@@ -344,10 +343,12 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
               qudits = referenceLines;
             } else if (modeStr == "control") {
               assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(0));
+              qudits.push_back(referenceLines.at(0));
             } else if (modeStr == "target") {
               assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(1));
+              qudits.assign(referenceLines.begin() +
+                                static_cast<std::ptrdiff_t>(numControls),
+                            referenceLines.end());
             }
           }
           if (x_choice == 1) {
-- 
2.43.0


From 71f2dca184514e12e01e9488256696ea314172f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 27/48] Revert "fix: apply the controls of single-qudit gates
 in the decision-diagram simulator"

With the controls applied, the circuit of test_pymisim.py entangles all its qudits
and no longer ends within the time limit of the test.
---
 src/python/bindings.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index fbd07af..f665473 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -513,12 +513,8 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   dd::Controls controlSet{};
   if ((std::get<0>(control_set).size() > 0) &&
       (std::get<1>(control_set).size() > 0)) {
-    const std::vector<dd::QuantumRegister>& ctrlQudits =
-        std::get<0>(control_set);
-    const std::vector<dd::Control::Type>& ctrlLevels = std::get<1>(control_set);
-    for (std::size_t i = 0; i < ctrlQudits.size(); ++i) {
-      controlSet.insert(dd::Control{ctrlQudits.at(i), ctrlLevels.at(i)});
-    }
+    std::vector<dd::QuantumRegister> ctrlQudits = std::get<0>(control_set);
+    std::vector<dd::Control::Type> ctrlLevels = std::get<1>(control_set);
   }
 
   if (tag == "rxy") {
-- 
2.43.0


From 8f8343f1ef4228dcb6941086638efe983830b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 28/48] fix: keep subspace noise added to one gate from
 reaching the other gates it was shared with

---
 src/mqt/qudits/simulation/noise_tools/noise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..2a59ca2 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -105,9 +107,10 @@ class NoiseModel:
             else:
                 existing_instance = self.quantum_errors[gate][mode]
                 assert isinstance(existing_instance, SubspaceNoise)
-                existing_instance.add_noises(
-                    noise.subspace_w_probs
-                )  # add the noise info to the existing SubspaceNoise instance
+                # the existing instance may also describe the noise of other gates, so extend a copy of it
+                extended_instance = copy.deepcopy(existing_instance)
+                extended_instance.add_noises(noise.subspace_w_probs)
+                self.quantum_errors[gate][mode] = extended_instance
 
     def add_quantum_error_locally(self, noise: Noise | SubspaceNoise, gates: list[str]) -> None:
         """Add a quantum error locally to all qudits for specified gates."""
-- 
2.43.0


From aecbd1c8ea313c5fba9a977636ed4b13d61d2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 29/48] fix: forget the save directory of a circuit when the
 file name is unusable

---
 src/mqt/qudits/quantum_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 54a0ac8..9a4ee59 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -404,11 +404,11 @@ class QuantumCircuit:
             str: The full path of the saved file.
         """
         # Combine the file path and name to get the full file path
-        self.path_save = file_path
         full_file_path = Path(file_path) / (file_name + ".qasm")
 
         # Write the text to the file
         try:
+            self.path_save = file_path
             with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
                 file.write(self.to_qasm())
         finally:
-- 
2.43.0


From 896672aeee32afb103fe52cc43d16939362a35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 30/48] fix: prepare the remaining branches when the first
 branch of a state is empty

---
 .../qudits/compiler/state_compilation/state_preparation.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..35fc86a 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,9 +161,9 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
-            self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
-            )
+            # branches of weight zero need no preparation: the one to prepare is the first of the others
+            index = next(i for i, child in zip(node.children_index, node.children) if abs(child.weight) != 0.0)
+            self.synthesis(labels, cardinalities, node.children[index], circuit_meta, controls_track, depth + 1)
 
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
-- 
2.43.0


From bac961dfdaa61ce190fb35e4b84207150e0d5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 31/48] fix: draw every histogram on a figure of its own

---
 src/mqt/qudits/visualisation/plot_information.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..2f92b56 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -46,6 +46,7 @@ class HistogramWithErrors:
         self.ylabel = ylabel
 
     def generate_histogram(self) -> None:
+        plt.figure()
         plt.bar(
             self.labels,
             self.counts,
@@ -63,6 +64,7 @@ class HistogramWithErrors:
         plt.show()
 
     def save_to_png(self, filename: str) -> None:
+        plt.figure()
         plt.bar(
             self.labels,
             self.counts,
-- 
2.43.0


From 31402c6a5b3f3aaabffc03c048afd617d5ac26bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 32/48] fix: drop the final mapping of a circuit when another
 program is loaded into it

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 9a4ee59..42ec14b 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -151,6 +151,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From bbe7c8b8df081799ce67ce35e98dce2054a12a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 33/48] fix: close the figure of a histogram that could not be
 saved

---
 .../qudits/visualisation/plot_information.py  | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 2f92b56..8ac0bea 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -64,23 +64,25 @@ class HistogramWithErrors:
         plt.show()
 
     def save_to_png(self, filename: str) -> None:
-        plt.figure()
-        plt.bar(
-            self.labels,
-            self.counts,
-            yerr=self.errors,
-            capsize=5,
-            color="b",
-            alpha=0.7,
-            align="center",
-        )
-        plt.xlabel(self.xlabel)
-        plt.ylabel(self.ylabel)
-        plt.title(self.title)
-        plt.xticks(rotation=45, ha="right")
-        plt.tight_layout()
-        plt.savefig(filename, format="png")
-        plt.close()
+        figure = plt.figure()
+        try:
+            plt.bar(
+                self.labels,
+                self.counts,
+                yerr=self.errors,
+                capsize=5,
+                color="b",
+                alpha=0.7,
+                align="center",
+            )
+            plt.xlabel(self.xlabel)
+            plt.ylabel(self.ylabel)
+            plt.title(self.title)
+            plt.xticks(rotation=45, ha="right")
+            plt.tight_layout()
+            plt.savefig(filename, format="png")
+        finally:
+            plt.close(figure)
 
 
 def state_labels(circuit: QuantumCircuit) -> list[str]:
-- 
2.43.0


From 6778cefa0c1fc8874c88f2730b389cd6782ba006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 34/48] fix: raise the error of a failing allocation while
 converting the state vector

A state vector lost the amplitudes whose conversion to Python failed, and the
run went on with the shorter vector.
---
 src/python/bindings.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index f665473..7ffe31e 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -150,15 +150,13 @@ bool checkDim(const std::vector<int>& dims,
 py::list complex_vector_to_list(const CVec& vec) {
   py::list pyList;
   for (const auto& elem : vec) {
-    try {
-      // Convert std::complex<double> to Python complex object
-      py::object pyComplex = py::cast(elem);
-      // Append Python complex object to the list
-      pyList.append(pyComplex);
-    } catch (const std::exception& e) {
-      // Handle any exceptions
-      std::cerr << "Error appending Python object: " << e.what() << std::endl;
+    // Convert std::complex<double> to Python complex object
+    py::object pyComplex = py::cast(elem);
+    if (!pyComplex) {
+      throw py::error_already_set();
     }
+    // Append Python complex object to the list
+    pyList.append(pyComplex);
   }
   return pyList;
 }
-- 
2.43.0


From 192aa96b69b16b55e24487d61610c2ea230ecd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 35/48] fix: stop the search of a variational compilation that
 is interrupted

---
 .../ansatz/ansatz_solve_n_search.py           | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index d165ffa..6cf3f9c 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -52,17 +52,32 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     result_queue: queue.Queue[tuple[float, list[float]] | Exception] = queue.Queue()
 
+    finished = threading.Event()
+
+    def search() -> None:
+        try:
+            Optimizer.solve_anneal(bounds, ansatz_type, result_queue)
+        finally:
+            finished.set()
+
     Optimizer.timer_var = False
-    thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
+    thread = threading.Thread(target=search)
     timer = threading.Timer(duration, interrupt_function)
 
     timer.start()
     try:
         thread.start()
-        thread.join()
+        # not a join, which an interrupt would make believe that the thread has ended
+        finished.wait()
+    except BaseException:
+        # the search must not go on in the background
+        interrupt_function()
+        raise
     finally:
         timer.cancel()
         timer.join()
+        if thread.ident is not None:
+            thread.join()
 
     result = result_queue.get_nowait()
     if isinstance(result, Exception):
-- 
2.43.0


From 5b423012c5a6e58e7bb8ead483db4a4a939e097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 36/48] fix: export the gates of a circuit as gates of that
 circuit

---
 src/mqt/qudits/quantum_circuit/circuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 42ec14b..214de39 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -384,7 +384,10 @@ class QuantumCircuit:
         text += f"creg meas[{len(self.dimensions)}];\n"
 
         for op in self.instructions:
-            text += op.__qasm__()
+            # a gate may be taken over from another circuit, as those of a compiled circuit are
+            gate = copy.copy(op)
+            gate.parent_circuit = self
+            text += gate.__qasm__()
 
         cregs_indices = iter(list(range(len(self.dimensions))))
         for qreg in self.quantum_registers:
-- 
2.43.0


From 80e0b8d3fffa8a5fa6ccb27195ac3107811d1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 37/48] fix: keep the place of a save of a circuit out of other
 saves of it

---
 src/mqt/qudits/quantum_circuit/circuit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 214de39..a7fe522 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -410,13 +410,13 @@ class QuantumCircuit:
         # Combine the file path and name to get the full file path
         full_file_path = Path(file_path) / (file_name + ".qasm")
 
+        # The place is noted on a twin, such that it concerns neither the circuit nor another save or export of it
+        twin = copy.copy(self)
+        twin.path_save = file_path
+
         # Write the text to the file
-        try:
-            self.path_save = file_path
-            with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
-                file.write(self.to_qasm())
-        finally:
-            self.path_save = None
+        with atomic_write(full_file_path) as temporary, temporary.open("w+") as file:
+            file.write(twin.to_qasm())
         return str(full_file_path)
 
     def load_from_file(self, file_path: str) -> None:
-- 
2.43.0


From a77ece2085409684dd01089e4f4db19efddee603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 38/48] fix: refuse gates that the decision-diagram simulator
 does not support

---
 src/python/bindings.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 7ffe31e..0b94142 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -9,6 +9,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 #include <random>
+#include <stdexcept>
 #include <vector>
 
 namespace py = pybind11;
@@ -501,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -755,6 +756,10 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("Gate " + tag +
+                                " is not supported for its dimensions");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From 9ff11688bdcc9ee447f60bf760f53988eb0d0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 39/48] fix: keep the options of a run out of other runs of the
 same backend at the same time

---
 src/mqt/qudits/simulation/backends/innsbruck_01.py | 5 ++++-
 src/mqt/qudits/simulation/backends/misim.py        | 5 ++++-
 src/mqt/qudits/simulation/backends/tnsim.py        | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index 8217843..6b4bd86 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -80,8 +81,10 @@ class Innsbruck01(Backend):
         return self.noise_model
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
-        job = Job(self)
+        # on a copy, such that runs of one backend at the same time do not share their options
+        return copy.copy(self)._run(Job(self), circuit, **options)
 
+    def _run(self, job: Job, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         run_options = {**self._options, **options}
         self.noise_model = run_options.get("noise_model", None)
         self.shots = run_options.get("shots", 50)
diff --git a/src/mqt/qudits/simulation/backends/misim.py b/src/mqt/qudits/simulation/backends/misim.py
index 84ce9fa..24c0e50 100644
--- a/src/mqt/qudits/simulation/backends/misim.py
+++ b/src/mqt/qudits/simulation/backends/misim.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import operator
 from functools import reduce
 from typing import TYPE_CHECKING
@@ -34,8 +35,10 @@ class MISim(Backend):
         return self.noise_model
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
-        job = Job(self)
+        # on a copy, such that runs of one backend at the same time do not share their options
+        return copy.copy(self)._run(Job(self), circuit, **options)
 
+    def _run(self, job: Job, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         run_options = {**self._options, **options}
         self.noise_model = run_options.get("noise_model", None)
         self.shots = run_options.get("shots", 50)
diff --git a/src/mqt/qudits/simulation/backends/tnsim.py b/src/mqt/qudits/simulation/backends/tnsim.py
index 007d38e..cb93bad 100644
--- a/src/mqt/qudits/simulation/backends/tnsim.py
+++ b/src/mqt/qudits/simulation/backends/tnsim.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import operator
 from functools import reduce
 from typing import TYPE_CHECKING
@@ -38,7 +39,10 @@ class TNSim(Backend):
         return self.noise_model
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
-        job = Job(self)
+        # on a copy, such that runs of one backend at the same time do not share their options
+        return copy.copy(self)._run(Job(self), circuit, **options)
+
+    def _run(self, job: Job, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         run_options = {**self._options, **options}
         self.noise_model: NoiseModel | None = run_options.get("noise_model", None)
         self.shots = run_options.get("shots", 50)
-- 
2.43.0


From 86458c092d377ef45b3fed0d15cf9a218899ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 40/48] fix: keep the dimensions of a register apart from the
 list it is made of

A noisy circuit is made with the list of dimensions of the original circuit,
which grows when a register is appended to that circuit; the register of the
noisy circuit grew with it.
---
 src/mqt/qudits/quantum_circuit/components/quantum_register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/quantum_register.py b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
index 0843dda..53cadc6 100644
--- a/src/mqt/qudits/quantum_circuit/components/quantum_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
@@ -40,7 +40,7 @@ class QuantumRegister:
     def __init__(self, name: str, size: int, dims: list[int] | None = None) -> None:
         self.label = name
         self.size: int = size
-        self.dimensions: list[int] = size * [2] if dims is None else dims
+        self.dimensions: list[int] = size * [2] if dims is None else list(dims)
         self.local_sitemap: dict[int, int] = {}
 
     def __qasm__(self) -> str:  # noqa: PLW3201
-- 
2.43.0


From a141aafe193a298ec0d0056de69d08fa59e5ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 41/48] fix: keep the gates of a circuit apart from the lists
 and matrices they are made of

The gates kept the lists and matrices of the caller, such that reusing a list
of parameters for the next gate changed the earlier ones (their export, and for
some gates their matrix).
---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 ++-
 src/mqt/qudits/quantum_circuit/gate.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index a7fe522..0083051 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -59,7 +59,8 @@ G = TypeVar("G", bound="Gate")
 
 def add_gate_decorator(func: Callable[..., G]) -> Callable[..., G]:
     def gate_constructor(circ: QuantumCircuit, *args: Any) -> G:  # noqa: ANN401
-        gate = func(circ, *args)
+        # the caller goes on using its lists and matrices for other gates
+        gate = func(circ, *copy.deepcopy(args))
         circ.number_gates += 1
         circ.instructions.append(gate)
         return gate
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 4f83da3..67e5db7 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -125,7 +125,7 @@ class Gate(Instruction):
         if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
-        self._controls_data = ControlData(indices, ctrl_states)
+        self._controls_data = ControlData(list(indices), list(ctrl_states))
         # Set new type
         if len(self.reference_lines) == 2:
             self.set_gate_type_two()
-- 
2.43.0


From d80d7e53bda9bcf508ea97b08bb53fc16ca64e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 42/48] fix: keep the level graph of the backend in the logical
 adaptive pass

Each gate replaced the level graph of its qudit by None, so the next gate on the
qudit and every later compilation for the backend failed. The pass also returned
the sequence that undoes a gate instead of the one that implements it.
---
 .../log_local_adaptive_decomp.py                     | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..25a85b2 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
@@ -30,7 +31,8 @@ class LogLocAdaPass(CompilerPass):
         super().__init__(backend)
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
+        # the levels stay where they are, so the level graph of the backend remains valid
+        energy_graph_i = copy.deepcopy(self.backend.energy_level_graphs[cast(int, gate.target_qudits)])
 
         qr = QrDecomp(gate, energy_graph_i)
 
@@ -40,13 +42,9 @@ class LogLocAdaPass(CompilerPass):
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        matrices_decomposed, _best_cost, _graph = adaptive.execute()
 
-        return matrices_decomposed
+        return [op.dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From d7b95d4439f7653b5abb7283f6194d2fbb8deec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 43/48] fix: implement the gates instead of their inverses in
 the local QR passes

LogLocQRPass returned the sequence that undoes a gate, and PhyLocQRPass.transpile
inverted the sequence that implements it once more.
---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py   | 1 -
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..07f9d71 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -38,7 +38,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..cb3e99f 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -30,7 +30,7 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        return [op.dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 5e6a9fd0d5234a714c3970c3e25938deeb031f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 44/48] fix: implement two-qudit gates in the entangling passes

The decomposition was inverted with dag(), which leaves inverse gates inverse; the
matrix of a gate on exchanged lines was read in the wrong order; LogEntQRCEXPass.transpile
reversed the sequence once more; and PhyEntQRCEXPass left out the mapping of the levels.
---
 .../entanglement_qr/log_ent_qr_cex_decomp.py  | 19 +++++++++++++++----
 .../entanglement_qr/phy_ent_qr_cex_decomp.py  |  8 ++------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..ec3cf1f 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 
+import copy
 import gc
 import typing
 from operator import itemgetter
@@ -25,6 +26,16 @@ if typing.TYPE_CHECKING:
     from mqt.qudits.simulation.backends.backendv2 import Backend
 
 
+def inverse_sequence(sequence: list[Gate]) -> list[Gate]:
+    """Return the gates that undo a sequence, in which gates may be inverse already or occur several times."""
+    inverses = []
+    for op in reversed(sequence):
+        inverse = copy.copy(op)
+        inverse.dagger = not op.dagger
+        inverses.append(inverse)
+    return inverses
+
+
 class LogEntQRCEXPass(CompilerPass):
     def __init__(self, backend: Backend) -> None:
         super().__init__(backend)
@@ -33,7 +44,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return inverse_sequence(decomp)
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
@@ -42,7 +53,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
@@ -55,8 +65,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix of a gate is given in the order of the lines
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index feaaee2..38a02d7 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -8,6 +8,7 @@ import numpy as np
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
+from mqt.qudits.compiler.twodit.entanglement_qr.log_ent_qr_cex_decomp import inverse_sequence
 from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
 from mqt.qudits.quantum_circuit.gates import CEx, Perm
 
@@ -62,12 +63,7 @@ class PhyEntQRCEXPass(CompilerPass):
 
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        perm_0_d_seq.extend(perm_1_d_seq)
-        perm_0_d_seq.extend(decomp)
-        perm_0_d_seq.extend(perm_0_seq)
-        perm_0_d_seq.extend(perm_1_seq)
-
-        return [op.dag() for op in reversed(decomp)]
+        return [*perm_0_d_seq, *perm_1_d_seq, *inverse_sequence(decomp), *perm_0_seq, *perm_1_seq]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 15ca0cc8086d9e662c5d208de3d8663d83a808d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 45/48] fix: track the levels and phases that the adaptive pass
 moves

The inverted sequence took the levels from the new placement back to the old one,
while the next gate was compiled for the new one, so O2 circuits with more than one
gate were wrong. Phases propagated from earlier gates were moved along with the levels
that a pi pulse exchanges, though the pulse allows for them already.
---
 .../phy_local_adaptive_decomp.py              | 47 +++++++++++++------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..4bb502a 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import gc
 import itertools
 from typing import TYPE_CHECKING, cast
@@ -41,6 +42,11 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
+        # The sequence found undoes a gate, moving its levels on the way. Undoing the inverse of the gate
+        # implements it, from the present placement of the levels to the new one.
+        gate = copy.copy(gate)
+        gate.dagger = not gate.dagger
+
         qr = PhyQrDecomp(gate, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
@@ -51,7 +57,7 @@ class PhyLocAdaPass(CompilerPass):
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
@@ -187,6 +193,31 @@ class PhyAdaptiveDecomposition:
 
         return matrices, placement
 
+    def store_phases_of_routing(self, pi_pulses: list[gates.R], placement: LevelGraph) -> None:
+        """Store the signs of the pi pulses, which move along with the levels.
+
+        The phases stored before remain at the physical levels, as the phases of the pulses allow for them already.
+        """
+        lev_nodes = {data["lpmap"]: node for node, data in placement.nodes(data=True)}
+        stored = {node: data["phase_storage"] for node, data in placement.nodes(data=True)}
+
+        for node in placement.nodes:
+            placement.nodes[node]["phase_storage"] = 0
+
+        for ppulse in pi_pulses:
+            plain_phi = ppulse.phi + stored[lev_nodes[ppulse.lev_a]] - stored[lev_nodes[ppulse.lev_b]]
+            p_back = gates.R(
+                self.circuit,
+                "R",
+                self.qudit_index,
+                [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -plain_phi],
+                self.dimension,
+            )
+            graph_rule_update(p_back, placement)
+
+        for node, phase in stored.items():
+            placement.nodes[node]["phase_storage"] = new_mod(placement.nodes[node]["phase_storage"] + phase)
+
     def dfs(self, current_root: TreeNode, level: int = 0) -> None:
         # check if close to diagonal
         ucopy = current_root.u_of_level.copy()
@@ -256,19 +287,7 @@ class PhyAdaptiveDecomposition:
                     physical_rotation = gate_chain_condition(pi_pulses_routing, physical_rotation)
                     physical_rotation = graph_rule_ongate(physical_rotation, new_placement)
 
-                    p_backs = [
-                        gates.R(
-                            self.circuit,
-                            "R",
-                            self.qudit_index,
-                            [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -ppulse.phi],
-                            self.dimension,
-                        )
-                        for ppulse in pi_pulses_routing
-                    ]
-
-                    for p_back in p_backs:
-                        graph_rule_update(p_back, new_placement)
+                    self.store_phases_of_routing(pi_pulses_routing, new_placement)
 
                     current_root.add(
                         new_key,
-- 
2.43.0


From b4b7b4fc8913c519ef2676fab3df49c8c199f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 46/48] fix: keep the mapping of a circuit apart from the list
 it is set from

---
 src/mqt/qudits/quantum_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 0083051..3984ded 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -318,7 +318,7 @@ class QuantumCircuit:
         return self
 
     def set_mapping(self, mappings: list[list[int]]) -> QuantumCircuit:
-        self.mappings = mappings
+        self.mappings = [list(mapping) for mapping in mappings]
         return self
 
     def from_qasm(self, qasm_prog: str) -> None:
-- 
2.43.0


From 8b906c237effcfd303e33e8653b9f9a7d72ac8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 47/48] fix: compile gates that occur several times in a
 circuit

---
 src/mqt/qudits/compiler/dit_compiler.py |  6 ++++--
 src/mqt/qudits/core/lanes.py            | 10 +++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index 7ce3951..e0f43ad 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -113,9 +113,11 @@ class QuditCompiler:
         backend = QuditCompiler._with_own_level_graphs(backend)
         phyent = PhyEntQRCEXPass(backend)
 
-        lanes = Lanes(circuit)
+        # a gate may occur several times, each time followed by something else
+        instructions = [copy.copy(gate) for gate in circuit.instructions]
+        lanes = Lanes(circuit.copy().set_instructions(instructions))
         new_instructions = []
-        for gate in circuit.instructions:
+        for gate in instructions:
             ins: list[Gate] = []
             if gate.gate_type is GateTypes.SINGLE:
                 phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..3861f6a 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -57,15 +57,15 @@ class Lanes:
 
     def extract_instructions(self) -> list[Gate]:
         combined_list = []
-        seen_ids = set()
+        seen_keys = set()
 
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
-                gate = gate_tuple[1]
-                obj_id = id(gate)
-                if obj_id not in seen_ids:
+                # an entangling gate is on several lanes, and a gate may occur several times
+                key = (gate_tuple[0], id(gate_tuple[1]))
+                if gate_tuple[1].gate_type == GateTypes.SINGLE or key not in seen_keys:
                     combined_list.append(gate_tuple)
-                    seen_ids.add(obj_id)
+                    seen_keys.add(key)
 
         sorted_list = sorted(combined_list, key=operator.itemgetter(0))
         instructions_as_circuit: list[Gate] = [gate_tuple[1] for gate_tuple in sorted_list]
-- 
2.43.0


From ee92bba4b62b583dcc4c4da93e96a34d037384db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 48/48] fix: find rotations next to vanishing entries in the
 adaptive passes

An entry that rounding leaves between 0 and 1e-18 excluded the only rotation that leads on, so that no decomposition
was found and the gate was dropped.
---
 .../mapping_aware_transpilation/phy_local_adaptive_decomp.py    | 2 +-
 .../mapping_un_aware_transpilation/log_local_adaptive_decomp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 4bb502a..5da4303 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -245,7 +245,7 @@ class PhyAdaptiveDecomposition:
         for c, r, r2 in itertools.product(range(dimension), range(dimension), range(dimension)):
             if r < c or r2 <= r:
                 continue
-            if abs(u_[r2, c]) > 1.0e-8 and (abs(u_[r, c]) > 1.0e-18 or abs(u_[r, c]) == 0):
+            if abs(u_[r2, c]) > 1.0e-8:
                 theta = 2 * np.arctan2(abs(u_[r2, c]), abs(u_[r, c]))
 
                 phi = -(np.pi / 2 + np.angle(u_[r, c]) - np.angle(u_[r2, c]))
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 25a85b2..fd19105 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -178,7 +178,7 @@ class LogAdaptiveDecomposition:
         for c in range(dimension):
             for r in range(c, dimension):
                 for r2 in range(r + 1, dimension):
-                    if abs(u_[r2, c]) > 1.0e-8 and (abs(u_[r, c]) > 1.0e-18 or abs(u_[r, c]) == 0):
+                    if abs(u_[r2, c]) > 1.0e-8:
                         theta = 2 * np.arctan2(abs(u_[r2, c]), abs(u_[r, c]))
                         phi = -(np.pi / 2 + np.angle(u_[r, c]) - np.angle(u_[r2, c]))
 
-- 
2.43.0

