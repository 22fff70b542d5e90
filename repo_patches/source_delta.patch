From d56d2da3abf3e4a27392a5e3b3dc4ede4c09fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 01/75] fix: maximum entropy method reads its data from index 0
 (it skipped the first sample and read past the last)

---
 c/mem.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..67e8a73 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -207,15 +207,15 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
+    wk1[1] = Data[0];
+    wk2[NumberOfData-1] = Data[NumberOfData-1];
 
     for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+        wk1[j]=Data[j-1];
+        wk2[j-1]=Data[j-1];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From 2a2de123ccd8f3e21cfbf59e69106ec4a9aa2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 02/75] fix: maximum entropy method releases its work arrays on
 every path

---
 c/mem.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/mem.c b/c/mem.c
index 67e8a73..7907900 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -173,6 +173,7 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
 
@@ -226,7 +227,10 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) return 0.0;
+        if (fabs(Denominator) < 1.0e-6) {
+            MeanSquareDiscrepancy = 0.0;
+            break;
+        }
 
         Coefficients[k] = 2.0 * Numerator / Denominator;
 
-- 
2.43.0


From 04bc14a0694d3886e2cbe94ebdde6dfedd74a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 03/75] fix: maximum entropy method refuses arguments it would
 read or write out of bounds for

---
 c/mem.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index 7907900..6f6d102 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -120,6 +120,14 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
         return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1 ||
+        PyArray_DIM((PyArrayObject *)velocity_array, 0) < 2 || NumberOfCoefficients < 0) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        PyErr_SetString(PyExc_ValueError, "mem: two or more data, a vector of frequencies and a non-negative number of coefficients are needed");
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int    NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
@@ -135,8 +143,8 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
     double *PowerSpectrum  = (double*)PyArray_DATA(PowerSpectrum_object);
 
     //Declare variables
-    double *Coefficients_r =malloc((NumberOfCoefficients+1)*sizeof(double));
-    double *Coefficients_i =malloc((NumberOfCoefficients+1)*sizeof(double));
+    double *Coefficients_r =malloc(((size_t)NumberOfCoefficients+1)*sizeof(double));
+    double *Coefficients_i =malloc(((size_t)NumberOfCoefficients+1)*sizeof(double));
 
 
     // Divide complex data to 2 double arrays
@@ -205,7 +213,7 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  MeanSquareDiscrepancy;
     double  *wk1 = malloc(NumberOfData*sizeof(double));
     double  *wk2 = malloc(NumberOfData*sizeof(double));
-    double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
+    double  *wkm = malloc((size_t)NumberOfCoefficients*sizeof(double));
 
 
     for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
-- 
2.43.0


From e5f791ecd33fed56d988715c3a3248438dd7bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/75] fix: direct method multiplies the correlation by exp(i
 w t) and averages both ends of each trapezoid

---
 c/correlation.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..b33e16c 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -155,19 +155,19 @@ double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOf
     _Dcomplex Correl_i, Correl_j;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
             Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
-                    Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency * ((i+Increment)*TimeStep))));
+                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency * (i*TimeStep))));
+                    Correl = _Cbuild(creal(Correl) + (creal(Correl_i) + creal(Correl_j))/2.0, cimag(Correl) + (cimag(Correl_i) + cimag(Correl_j))/2.0);
 
                     //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
                     //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
                     // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
                     break;
-- 
2.43.0


From 100d4f1c99c38b2bb258c25282edc0bc3dc440cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 05/75] fix: direct method refuses unknown integration rules
 and impossible steps with an exception

---
 c/correlation.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index b33e16c..c993b22 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -120,6 +120,21 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         return NULL;
     }
 
+    if (IntMethod < 0 || IntMethod > 1) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
+        return NULL;
+    }
+
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1 ||
+        Increment < 1 || Increment > PyArray_DIM((PyArrayObject *)velocity_array, 0)) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        PyErr_SetString(PyExc_ValueError, "correlation_par: vectors of data and frequencies and a step between 1 and the number of data are needed");
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int     NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
@@ -134,12 +149,6 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
 
     double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
 
-    // Maximum Entropy Method Algorithm
-    if (IntMethod < 0 || IntMethod > 1) {
-        puts ("\nIntegration method selected does not exist\n");
-        return NULL;
-    }
-
 # pragma omp parallel for default(shared) private(AngularFrequency)
     for (int i=0;i<NumberOfFrequencies;i++) {
         AngularFrequency = Frequency[i]*2.0*M_PI;
-- 
2.43.0


From 632c28706423db38d5dada8f41934ecd138f556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 06/75] fix: direct method releases its references to the input
 arrays

---
 c/correlation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/correlation.c b/c/correlation.c
index c993b22..5da2944 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -154,6 +154,10 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
-- 
2.43.0


From c97a6b345c19d6f4e5733621ffca0c2cc354226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 07/75] fix: atomic displacements release their cell, cofactor
 and row arrays

---
 c/displacements.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..7d6f07a 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -184,7 +184,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     //Free memory
     for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
     for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
- 	free(Cell_c);
+    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free(Displacement);
 
     // Free python memory
     Py_DECREF(Trajectory_array);
@@ -260,6 +261,9 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
+    for (int i = 0; i < n; i++) free(cof[i]);
+    free(cof);
+
 	return b;
 
 };
-- 
2.43.0


From 49848c8d8aaed3976393b57f5cc7b13b88c586e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 08/75] fix: atomic displacements refuse unreadable positions
 and mismatched dimensions

---
 c/displacements.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/displacements.c b/c/displacements.c
index 7d6f07a..ccfaaa9 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -106,7 +106,7 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     PyObject *Positions_array = PyArray_FROM_OTF(Positions_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     PyObject *Cell_array = PyArray_FROM_OTF(Cell_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
 
-    if (Cell_array == NULL || Trajectory_array == NULL) {
+    if (Cell_array == NULL || Trajectory_array == NULL || Positions_array == NULL) {
          Py_XDECREF(Cell_array);
          Py_XDECREF(Trajectory_array);
          Py_XDECREF(Positions_array);
@@ -114,6 +114,18 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     }
 
 
+    if (PyArray_NDIM((PyArrayObject *)Cell_array) != 2 || PyArray_NDIM((PyArrayObject *)Trajectory_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Positions_array) != 1 ||
+        PyArray_DIM((PyArrayObject *)Cell_array, 0) != PyArray_DIM((PyArrayObject *)Cell_array, 1) ||
+        PyArray_DIM((PyArrayObject *)Trajectory_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Positions_array, 0) != PyArray_DIM((PyArrayObject *)Cell_array, 0)) {
+        Py_DECREF(Cell_array);
+        Py_DECREF(Trajectory_array);
+        Py_DECREF(Positions_array);
+        PyErr_SetString(PyExc_ValueError, "atomic_displacements: trajectory, position and cell dimensions do not match");
+        return NULL;
+    }
+
 //  double _Complex *Cell           = (double _Complex*)PyArray_DATA(Cell_array);
     _Dcomplex *Trajectory     = (_Dcomplex*)PyArray_DATA((PyArrayObject *)Trajectory_array);
     double *Positions               = (double*)PyArray_DATA((PyArrayObject *)Positions_array);
-- 
2.43.0


From 7752a3d39eb773083f77b234c4a659ba8cde471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 09/75] fix: atomic displacements wrap one-dimensional cells
 (the empty minor has determinant one)

---
 c/displacements.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/displacements.c b/c/displacements.c
index ccfaaa9..6c2a1c3 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -287,8 +287,8 @@ static double  Determinant(double  **a,int n)
    double  det = 0;
    double  **m = NULL;
 
-   if (n < 1) { /* Error */
-
+   if (n < 1) { /* Empty minor of a one-dimensional cell */
+      det = 1;
    } else if (n == 1) { /* Shouldn't get used */
       det = a[0][0];
    } else if (n == 2) {
@@ -324,7 +324,7 @@ static double **CoFactor(double  **a,int n)
    double  det;
    double  **c;
 
-   c = malloc((n-1)*sizeof(double  *));
+   c = malloc(n*sizeof(double  *));
    for (i=0;i<n-1;i++)
      c[i] = malloc((n-1)*sizeof(double ));
 
-- 
2.43.0


From 63c130dc1d42986ffff209d045418869c23427af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 10/75] fix: power spectrum unit conversion (u A^2 THz to eV ps
 is 1.0364e-4)

---
 dynaphopy/power_spectrum/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 28b69e9..4eb0810 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -6,7 +6,7 @@ import matplotlib.pyplot as plt
 from dynaphopy.power_spectrum import mem
 from dynaphopy.power_spectrum import correlation
 
-unit_conversion = 0.00010585723  # u * A^2 * THz -> eV*ps
+unit_conversion = 1.0364269e-4  # u * A^2 * THz -> eV*ps
 
 
 def _progress_bar(progress, label):
-- 
2.43.0


From 11d8042bf6036ae948324446d8a8d4269f5514fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 11/75] fix: cropping a trajectory clears everything derived
 from it and works with memory mapping

---
 dynaphopy/dynamics.py | 57 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..3a3f170 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -29,6 +29,7 @@ class Dynamics:
         self._supercell_matrix = None
         self._number_of_atoms = None
         self._mean_displacement_matrix = None
+        self._velocity_from_trajectory = False
 
         if structure is not None:
             self._structure = structure
@@ -61,48 +62,48 @@ class Dynamics:
                 del mapped_array
                 os.remove(filename)
 
-# A bit messy, has to be fixed
+    def _remove_memmap(self, mapped_array):
+        filename = getattr(mapped_array, 'filename', None)
+        if filename is not None:
+            try:
+                os.remove(filename)
+            except OSError:
+                pass
+
     def crop_trajectory(self, last_steps):
 
         if last_steps is None or last_steps <= 0:
             return
 
-        if self._trajectory is not None:
-            self._trajectory = self._trajectory[-last_steps:, :, :]
-            self._relative_trajectory = None
-            self._scaled_trajectory = None
+        # Velocities calculated from the coordinates have to be calculated again
+        if self._velocity_from_trajectory:
+            self._remove_memmap(self._velocity)
+            self._velocity = None
 
-        if self._relative_trajectory is not None:
-            self._relative_trajectory = self._relative_trajectory[-last_steps:, :, :]
-            self._trajectory = None
-            self._scaled_trajectory = None
+        for data in [self._trajectory, self._scaled_trajectory, self._velocity]:
+            if data is not None and last_steps > data.shape[0]:
+                print("Warning: specified step number larger than available")
+                break
 
+        if self._trajectory is not None:
+            self._trajectory = self._trajectory[-last_steps:, :, :]
         if self._scaled_trajectory is not None:
             self._scaled_trajectory = self._scaled_trajectory[-last_steps:, :, :]
-            self._trajectory = None
-            self._relative_trajectory = None
+        if self._velocity is not None:
+            self._velocity = self._velocity[-last_steps:, :, :]
 
         if self._energy is not None:
             self._energy = self._energy[-last_steps:]
         if self._time is not None:
             self._time = self._time[-last_steps:]
 
-        if last_steps > self.velocity.shape[0]:
-            print("Warning: specified step number larger than available")
-
-        self.velocity = self.velocity[-last_steps:, :, :]
-
+        # Clear all data derived from the uncropped trajectory
+        for data in [self._relative_trajectory, self._velocity_mass_average]:
+            self._remove_memmap(data)
+        self._relative_trajectory = None
         self._velocity_mass_average = None
-
-        if self._memmap:
-            filename = self._relative_trajectory.filename
-            self._relative_trajectory = None
-            try:
-                os.remove(filename)
-            except:
-                pass
-        else:
-            self._relative_trajectory = None
+        self._mean_displacement_matrix = None
+        self._time_step_average = None
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
 
@@ -314,6 +315,7 @@ class Dynamics:
     def velocity(self):
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
+            self._velocity_from_trajectory = True
             if self._memmap:
                 self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
                                            dtype='complex',
@@ -330,4 +332,5 @@ class Dynamics:
 
     @velocity.setter
     def velocity(self,velocity):
-        self._velocity = velocity
\ No newline at end of file
+        self._velocity = velocity
+        self._velocity_from_trajectory = False
-- 
2.43.0


From d7a95a834d4e0a2c1a3fae98a854f4d89921e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 12/75] fix: mean displacement matrices relative to average and
 ideal positions are not mixed up

---
 dynaphopy/dynamics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 3a3f170..a2bdd04 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -28,7 +28,7 @@ class Dynamics:
         self._relative_trajectory = None
         self._supercell_matrix = None
         self._number_of_atoms = None
-        self._mean_displacement_matrix = None
+        self._mean_displacement_matrix = {}
         self._velocity_from_trajectory = False
 
         if structure is not None:
@@ -102,7 +102,7 @@ class Dynamics:
             self._remove_memmap(data)
         self._relative_trajectory = None
         self._velocity_mass_average = None
-        self._mean_displacement_matrix = None
+        self._mean_displacement_matrix = {}
         self._time_step_average = None
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
@@ -207,7 +207,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if use_average_positions not in self._mean_displacement_matrix:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -235,9 +235,10 @@ class Dynamics:
                                                                              displacements[:, i, :] - position_difference[i]
                                                                              ).real / primtive_normalization
 
-            self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._mean_displacement_matrix[use_average_positions] = \
+                mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
 
-        return self._mean_displacement_matrix
+        return self._mean_displacement_matrix[use_average_positions]
 
     def average_positions(self, number_of_samples=None, to_unit_cell=False):
 
-- 
2.43.0


From 632ca2e63320fd0f5e0c19058fd7d7e5859618fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 13/75] fix: MD cell mismatches of opposite sign do not cancel
 out

---
 dynaphopy/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index a2bdd04..e1c222f 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -195,8 +195,9 @@ class Dynamics:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
             self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            if abs(sum(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)) > tolerance:
-                print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
+            mismatch = np.sum(np.abs(self._supercell_matrix - supercell_matrix_real)) / np.linalg.norm(supercell_matrix_real)
+            if mismatch > tolerance:
+                print(mismatch)
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
-- 
2.43.0


From e481d10fd0a797aecf4c61e3cb711a7a7e29db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 14/75] fix: a refused MD cell is refused again when asked
 twice

---
 dynaphopy/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index e1c222f..24a2e70 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -193,15 +193,16 @@ class Dynamics:
 
         if self._supercell_matrix is None:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
-            self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
+            supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            mismatch = np.sum(np.abs(self._supercell_matrix - supercell_matrix_real)) / np.linalg.norm(supercell_matrix_real)
+            mismatch = np.sum(np.abs(supercell_matrix - supercell_matrix_real)) / np.linalg.norm(supercell_matrix_real)
             if mismatch > tolerance:
                 print(mismatch)
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
 
+            self._supercell_matrix = supercell_matrix
             print('MD cell size relation: {0}'.format(self._supercell_matrix))
 
         return self._supercell_matrix
-- 
2.43.0


From e713ac4cf05f2642460e4eec3411da07f9695e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 15/75] fix: average positions folded to the unit cell count
 every equivalent atom, and sampling works with current numpy

---
 dynaphopy/dynamics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 24a2e70..ecf8255 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -258,7 +258,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
@@ -274,12 +274,12 @@ class Dynamics:
             index_type = self.structure.get_atom_type_index(supercell=supercell)
 
             number_of_atom_types = self.structure.get_number_of_atom_types()
-            normalization = np.prod(supercell)
+            normalization = np.prod(supercell) * np.unique(index_type_unitcell, return_counts=True)[1]
 
             averaged_unit_cell = np.zeros((number_of_atom_types, number_of_dimensions), dtype=complex)
 
             for i, coordinates  in enumerate(averaged_positions):
-                averaged_unit_cell[index_type[i], :] += coordinates/normalization
+                averaged_unit_cell[index_type[i], :] += coordinates/normalization[index_type[i]]
 
             averaged_positions = []
             for i in range(positions.shape[0]):
-- 
2.43.0


From b19cf138b71c02d2c7545a03bebd96435c1f9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 16/75] fix: every memory mapped array has its own file,
 created once and removed with its owner

---
 dynaphopy/dynamics.py                         | 37 +++++++++++--------
 .../interface/iofile/trajectory_parsers.py    | 17 ++++-----
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index ecf8255..3f68971 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -1,6 +1,22 @@
 import numpy as np
 from dynaphopy.displacements import atomic_displacements
 import os
+import tempfile
+
+
+def create_memmap(name, shape, directory=''):
+    """
+    Create a complex array mapped on a file of its own
+
+    :param name: prefix of the file name
+    :param shape: shape of the array
+    :param directory: directory where the file is placed
+    :return: mapped array
+    """
+    handle, filename = tempfile.mkstemp(prefix='{0}.{1}.'.format(name, os.getpid()),
+                                        dir=os.path.abspath(directory))
+    os.close(handle)
+    return np.memmap(filename, dtype='complex', mode='w+', shape=shape)
 
 
 class Dynamics:
@@ -54,13 +70,9 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
-                try:
-                    filename = mapped_array.filename
-                except AttributeError:
-                    continue
-                del mapped_array
-                os.remove(filename)
+            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
+                                 self._relative_trajectory, self._velocity_mass_average]:
+                self._remove_memmap(mapped_array)
 
     def _remove_memmap(self, mapped_array):
         filename = getattr(mapped_array, 'filename', None)
@@ -144,8 +156,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
-                                                        dtype='complex', mode='w+', shape=self.velocity.shape)
+                self._velocity_mass_average = create_memmap('velocity_mass', self.velocity.shape, self._temp_directory)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
 
@@ -168,8 +179,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
-                                                  dtype='complex', mode='w+', shape=trajectory.shape)
+                normalized_trajectory = create_memmap('r_trajectory', trajectory.shape, self._temp_directory)
             else:
                 normalized_trajectory = self.trajectory.copy()
 
@@ -320,10 +330,7 @@ class Dynamics:
             print('No velocity provided! calculating it from coordinates...')
             self._velocity_from_trajectory = True
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
-                                           dtype='complex',
-                                           mode='w+',
-                                           shape=self.get_relative_trajectory().shape)
+                self._velocity = create_memmap('velocity', self.get_relative_trajectory().shape, self._temp_directory)
             else:
                 self._velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
             for i in range(self.get_number_of_atoms()):
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..c5936e0 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -276,7 +276,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = dyn.create_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions), temp_directory)
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -413,6 +413,13 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
 
+        if memmap:
+            if end_cut:
+                data = dyn.create_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions), temp_directory)
+            else:
+                print('Memory mapping requires to define reading range (use read_from/read_to option)')
+                exit()
+
         while True:
 
             counter += 1
@@ -423,14 +430,6 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
-                if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
-                else:
-                    print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                    exit()
-
-
             #Initial cut control
             if initial_cut > counter:
                 continue
-- 
2.43.0


From a2df8010d5d2cac883ab2a8966f7ccc9bf154349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 17/75] fix: trajectory readers return the requested, complete
 frames with their times

Skipped frames keep no time (XDATCAR), are skipped (OUTCAR), and a frame cut by the end
of the file is left out together with its time. LAMMPS columns are found by their labels.
---
 .../interface/iofile/trajectory_parsers.py    | 123 ++++++++++++------
 1 file changed, 81 insertions(+), 42 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index c5936e0..b3aaff5 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -5,6 +5,25 @@ import dynaphopy.dynamics as dyn
 import warnings
 
 
+def _read_table(file_map, number_of_rows, columns):
+    """
+    Read the coordinates of a frame at the current position of the file
+
+    :param file_map: memory mapped file
+    :param number_of_rows: number of lines (atoms)
+    :param columns: indices of the columns to read
+    :return: array (number_of_rows x columns) or None if the file ends before the end of the frame
+    """
+    rows = []
+    for i in range(number_of_rows):
+        line = file_map.readline()
+        if not line.endswith(b'\n'):
+            return None
+        row = line.split()
+        rows.append([row[j] for j in columns])
+    return np.array(rows, dtype=float)
+
+
 # VASP OUTCAR file parser
 def read_vasp_trajectory(file_name, structure=None, time_step=None,
                          limit_number_steps=10000000,  # Maximum number of steps read (for security)
@@ -74,9 +93,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,18 +101,27 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
+            read_coordinates = _read_table(file_map, number_of_atoms, range(number_of_dimensions)) # in angstrom
+
+            position_number=file_map.find(b'energy(')
+            if read_coordinates is None or position_number < 0:
+                print('Incomplete step at the end of the file is not used')
+                break
+            file_map.seek(position_number)
+            energy_line = file_map.readline()
+            if not energy_line.endswith(b'\n'):
+                print('Incomplete step at the end of the file is not used')
+                break
+            read_energy = energy_line.split()[2]
 
-            read_coordinates = np.array(read_coordinates, dtype=float) # in angstrom
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
 
-            position_number=file_map.find(b'energy(')
-            file_map.seek(position_number)
-            read_energy = file_map.readline().split()[2]
             trajectory.append(read_coordinates.flatten()) #in angstrom
             energy.append(np.array(read_energy, dtype=float))
 
@@ -183,7 +208,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
     data = []
     counter = 0
 
-    lammps_labels = False
+    names = [None]
 
     with open(file_name, "r+") as f:
 
@@ -199,7 +224,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             file_map.seek(position_number)
             file_map.readline()
-            time.append(float(file_map.readline()))
+            step_number = file_map.readline()
 
 
             if number_of_atoms is None:
@@ -282,20 +307,32 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                         exit()
 
             position_number = file_map.find(b'ITEM: ATOMS')
+            if position_number < 0: break
 
             file_map.seek(position_number)
             lammps_labels=file_map.readline()
+            if not lammps_labels.endswith(b'\n'): break
 
             #Initial cut control
             if initial_cut > counter:
-                time = []
                 continue
 
+            #Columns of the position/velocity dump
+            labels = lammps_labels.split()[2:]
+            for names in [[b'vx', b'vy', b'vz'], [b'x', b'y', b'z']]:
+                names = names[:number_of_dimensions]
+                if all(name in labels for name in names):
+                    columns = [labels.index(name) for name in names]
+                    break
+            else:
+                print('LAMMPS parsing error. Data not recognized: {}'.format(lammps_labels))
+                exit()
+
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-            read_coordinates = np.array(read_coordinates, dtype=float)
+            read_coordinates = _read_table(file_map, number_of_atoms, columns)
+            if read_coordinates is None:
+                print('Incomplete step at the end of the file is not used')
+                break
 
             if template is not None:
                 indexing = np.argsort(template)
@@ -304,9 +341,10 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
             try:
                 read_coordinates = np.dot(read_coordinates, transformation_mat)
                 if memmap:
-                    data[counter-initial_cut, :, :] = read_coordinates #in angstroms
+                    data[len(time), :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(step_number))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
@@ -325,31 +363,29 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
-    if b'vx vy' in lammps_labels:
+    if names[0] == b'vx':
         return dyn.Dynamics(structure=structure,
                             velocity=data,
                             time=time,
                             supercell=supercell,
                             memmap=memmap)
 
-    if b'x y' in lammps_labels:
-        return dyn.Dynamics(structure=structure,
-                            trajectory=data,
-                            time=time,
-                            supercell=supercell,
-                            memmap=memmap)
-
-    print('LAMMPS parsing error. Data not recognized: {}'.format(lammps_labels))
-    exit()
+    return dyn.Dynamics(structure=structure,
+                        trajectory=data,
+                        time=time,
+                        supercell=supercell,
+                        memmap=memmap)
 
 
 def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
@@ -428,27 +464,28 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             if position_number < 0: break
 
             file_map.seek(position_number)
-            time.append(float(file_map.readline().split(b'=')[1]))
+            step_number = file_map.readline().split(b'=')[-1]
 
             #Initial cut control
             if initial_cut > counter:
                 continue
 
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            read_coordinates = _read_table(file_map, number_of_atoms, range(number_of_dimensions))
+            if read_coordinates is None:
+                print('Incomplete step at the end of the file is not used')
+                break
 
-            read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
 
             try:
                 if memmap:
-                    data[counter-initial_cut, :, :] = read_coordinates #in angstroms
+                    data[len(time), :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(step_number))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
@@ -467,12 +504,14 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From 2545444fdcad365b6f7d22dbed58cca99d322859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 18/75] fix: XDATCAR cell is multiplied by its scaling factor

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index b3aaff5..498a5e0 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -440,11 +440,12 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         file_map = mmap.mmap(f.fileno(), 0)
 
         #Read cell
-        for i in range(2): file_map.readline()
+        file_map.readline()
+        scale = float(file_map.readline())
         a = file_map.readline().split()
         b = file_map.readline().split()
         c = file_map.readline().split()
-        super_cell = np.array([a, b, c], dtype='double')
+        super_cell = np.array([a, b, c], dtype='double') * scale
 
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
-- 
2.43.0


From b9195f1291f13275323b792d4018e849948a7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 19/75] fix: supercells repeat the unit cell vectors (rows)
 also in non-orthogonal cells

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From f93683be6f33690eae5125490a3fdf59ca8db7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 20/75] fix: equivalent atoms compare their own masses also
 when asked for a supercell first

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..7b055c8 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -285,7 +285,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From 2903836725d1a9b96f59e106492ae12bb25a66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 21/75] fix: replacing the positions of a structure replaces
 what was derived from the old ones

---
 dynaphopy/atoms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 7b055c8..e12ad41 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -134,7 +134,13 @@ class Structure:
 
     # Positions related methods
     def set_positions(self, cart_positions):
+        self._positions = None
         self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
+        self._number_of_cell_atoms = None
+        self._number_of_atoms = None
+        self._number_of_atom_types = None
+        self._number_of_primitive_atoms = None
+        self._atom_type_index = None
 
     def get_positions(self, supercell=None):
         if self._positions is None:
-- 
2.43.0


From 7fe420d42fe50ca4f879cfc22e19540a6cca25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 22/75] fix: VASP structures are written right when the atoms
 of an element are not consecutive

---
 dynaphopy/generate_cell.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..bcfbc12 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -7,13 +7,15 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
-
+    # Consecutive atoms of the same element
+    elements = []
+    elements_count = []
+    for element in types:
+        if len(elements) > 0 and elements[-1] == element:
+            elements_count[-1] += 1
+        else:
+            elements.append(element)
+            elements_count.append(1)
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
     vasp_POSCAR += '1.0\n'
-- 
2.43.0


From 8a6f2824ab558b86a447a6307e4370670a21f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 23/75] fix: POSCAR files are read after the VASP rules (scaled
 Cartesian coordinates, volume, selective dynamics)

---
 dynaphopy/interface/iofile/__init__.py | 53 ++++++++++++--------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..6b6592d 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -280,45 +280,40 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     multiply = float(data_lines[1])
     direct_cell = np.array([data_lines[i].split()
                             for i in range(2, 2+number_of_dimensions)], dtype=float)
+    # Negative scaling factor defines the volume of the cell
+    if multiply < 0:
+        multiply = pow(abs(multiply) / abs(np.linalg.det(direct_cell)), 1.0/number_of_dimensions)
     direct_cell *= multiply
     scaled_positions = None
     positions = None
 
     try:
         number_of_types = np.array(data_lines[3+number_of_dimensions].split(),dtype=int)
-
-        coordinates_type = data_lines[4+number_of_dimensions][0]
-        if coordinates_type == 'D' or coordinates_type == 'd' :
-
-            scaled_positions = np.array([data_lines[8+k].split()[0:3]
-                                         for k in range(np.sum(number_of_types))],dtype=float)
-        else:
-            positions = np.array([data_lines[8+k].split()[0:3]
-                                  for k in range(np.sum(number_of_types))],dtype=float)
-
-        atomic_types = []
-        for i,j in enumerate(data_lines[5].split()):
-            atomic_types.append([j]*number_of_types[i])
-        atomic_types = [item for sublist in atomic_types for item in sublist]
-        # atomic_types = np.array(atomic_types).flatten().tolist()
+        elements = data_lines[2+number_of_dimensions].split()
+        line = 4+number_of_dimensions
 
     # Old style POSCAR format
     except ValueError:
         print ("Reading old style POSCAR")
-        number_of_types = np.array(data_lines[5].split(), dtype=int)
-        coordinates_type = data_lines[6][0]
-        if coordinates_type == 'D' or coordinates_type == 'd':
-            scaled_positions = np.array([data_lines[7+k].split()[0:3]
-                                         for k in range(np.sum(number_of_types))], dtype=float)
-        else:
-            positions = np.array([data_lines[7+k].split()[0:3]
-                                  for k in range(np.sum(number_of_types))], dtype=float)
-
-        atomic_types = []
-        for i,j in enumerate(data_lines[0].split()):
-            atomic_types.append([j]*number_of_types[i])
-        atomic_types = [item for sublist in atomic_types for item in sublist]
-        # atomic_types = np.array(atomic_types).flatten().tolist()
+        number_of_types = np.array(data_lines[2+number_of_dimensions].split(), dtype=int)
+        elements = data_lines[0].split()
+        line = 3+number_of_dimensions
+
+    # Selective dynamics
+    if data_lines[line].strip()[:1] in ['S', 's']:
+        line += 1
+
+    coordinates_type = data_lines[line].strip()[:1]
+    coordinates = np.array([data_lines[line+1+k].split()[0:3]
+                            for k in range(np.sum(number_of_types))], dtype=float)
+    if coordinates_type in ['C', 'c', 'K', 'k']:
+        positions = coordinates * multiply
+    else:
+        scaled_positions = coordinates
+
+    atomic_types = []
+    for i, number_of_atoms in enumerate(number_of_types):
+        atomic_types += [elements[i]] * number_of_atoms
 
     return atomtest.Structure(cell=direct_cell,  # cell_matrix, lattice vectors in rows
                               scaled_positions=scaled_positions,
-- 
2.43.0


From 22bb51b2211035cb41e887657f2c019834c3396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 24/75] fix: concath5 joins the times of all files and skips
 those of the skipped steps

---
 scripts/concath5 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..f492fb9 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -101,11 +101,20 @@ if vc is not None:
 if trajectory is not None:
     trajectory = trajectory[first:]
 
+time_step = (time[-1] - time[0]) / (len(time) - 1) if len(time) > 1 else 0
+time = time[first:]
+
 print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # Time continues after the last step of the previous file
+    new_time = new_time[first:]
+    if len(time) > 0 and len(new_time) > 0:
+        new_time = new_time - new_time[0] + time[-1] + time_step
+    time = np.concatenate((time, new_time), axis=0)
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From a04c7e7861dfb6b4ad9911d9816c551ba0e925f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 25/75] fix: times loaded from a hdf5 file follow the reading
 window

---
 dynaphopy/interface/iofile/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 6b6592d..7b37b98 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -697,6 +697,11 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
     time = hdf5_file['time'][:]
+    if final_cut is not None:
+        time = time[initial_cut-1:final_cut]
+    else:
+        time = time[initial_cut-1:]
+
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From 3013f7edf71770b73a9dc4954b88e95004bbf134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 26/75] fix: the save renormalized frequencies option takes
 effect

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 76f9395e9267610201b639bfa96a5d55dc583ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 27/75] fix: symmetrizing force constants works (option
 --fcsymm and current phonopy)

---
 dynaphopy/interface/phonopy_link.py | 4 ++--
 scripts/dynaphopy                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..7165389 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -393,8 +393,8 @@ def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, str
     if symmetrize:
         print('Symmetrizing force constants')
         set_tensor_symmetry_PJ(force_constants.get_array(),
-                               phonon.supercell.get_cell(),
-                               phonon.supercell.get_scaled_positions(),
+                               phonon.supercell.cell.T,
+                               phonon.supercell.scaled_positions,
                                phonon.symmetry)
 
     return force_constants
diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From 0dbe0b6d95f502f0ab45663bbabd03d9dd51fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 28/75] fix: partial power spectra are calculated again after a
 change of settings

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..c655269 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -68,6 +68,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
-- 
2.43.0


From a8689a206b232bf3d24d5882ae32183a9ddaa63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 29/75] fix: projecting onto an atom type clears the results of
 the previous projection

---
 dynaphopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c655269..248802e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -132,6 +132,9 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self.full_clear()
+                self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-- 
2.43.0


From fc98a86038258e31bffe7d3b29981803f88b200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 30/75] fix: setting QHA force constants clears the results of
 the previous ones

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 248802e..b4eea98 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1448,6 +1448,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From c5f65385a1d27008d5ed2172b5e7582bd152882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 31/75] fix: cropping the trajectory of an analysis clears the
 results of the uncropped one

---
 dynaphopy/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b4eea98..33a2268 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_loaded = vc is not None
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -39,6 +40,7 @@ class Quasiparticle:
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
         self._temperature = None
+        self._temperature_from_trajectory = False
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -46,12 +48,19 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        if self._vc is None or not self._vc_loaded:
+            if last_steps is not None and last_steps > 0:
+                self.full_clear()
+                self.power_spectra_clear()
+                if self._temperature_from_trajectory:
+                    self._temperature = None
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
             if last_steps is not None:
                 self._vc = self._vc[-last_steps:, :, :]
+                self._vq = None
+                self.power_spectra_clear()
             print("Using {0} steps".format(len(self._vc)))
 
     # Memory clear methods
@@ -1093,10 +1102,12 @@ class Quasiparticle:
             self.parameters.silent = True
             self._temperature = energy.boltzmann_distribution(self.dynamic, self.parameters)
             self.parameters.silent = save_status
+            self._temperature_from_trajectory = True
         return self._temperature
 
     def set_temperature(self, temperature):
         self._temperature = temperature
+        self._temperature_from_trajectory = False
 
     def get_algorithm_list(self):
         return power_spectrum_functions.values()
-- 
2.43.0


From 85e266ad1d75726a17953daae29e18c3a8654e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 32/75] fix: full power spectra projected onto different
 coordinates are not mixed up

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 33a2268..aaeaea2 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -34,6 +34,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_direct_coordinate = -1
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
@@ -797,7 +798,7 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or self._power_spectrum_direct_coordinate != projection_on_coordinate:
             print("Calculation full power spectrum")
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
@@ -841,6 +842,7 @@ class Quasiparticle:
                     self.parameters)
 
             self._power_spectrum_direct = np.sum(self._power_spectrum_direct, axis=1)
+            self._power_spectrum_direct_coordinate = projection_on_coordinate
         return self._power_spectrum_direct
 
     def get_power_spectrum_partials(self, save_to_file=None):
-- 
2.43.0


From 4a3a7fd6de8c9e7d106ad303a84749ebadd35977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 33/75] fix: silent full power spectrum works for frequency
 ranges of integers

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index aaeaea2..c53fc0e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -826,7 +826,7 @@ class Quasiparticle:
 
             # Memory efficient algorithm
             if self.parameters.silent:
-                self._power_spectrum_direct = np.zeros_like(self.parameters.frequency_range[None].T)
+                self._power_spectrum_direct = np.zeros_like(self.parameters.frequency_range[None].T, dtype=float)
                 for i in range(velocity_mass_average.shape[1]):
                     for j in range(velocity_mass_average.shape[2]):
                         self._power_spectrum_direct += \
-- 
2.43.0


From c20636bdf1b7b43ac9ea2778ba8653f526bc5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 34/75] fix: writing extra quasiparticle properties does not
 change the stored data

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c53fc0e..feebf88 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1260,6 +1260,7 @@ class Quasiparticle:
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
         quasiparticle_data = self.get_commensurate_points_data()
         if with_extra:
+            quasiparticle_data = dict(quasiparticle_data)
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
 
-- 
2.43.0


From f76a6b0ab7eefae83ec13b01a7d7038a312f89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 35/75] fix: printing phonon dispersion bands uses the band
 ranges

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index feebf88..4b2b839 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -584,7 +584,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From ef34ee790c4164f3605509f9e2a9389d210a04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 36/75] fix: changing the number of coefficients in the
 interactive interface renews the spectra

---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From 4c6dcadb078e170841970fefc3d17d0203e962a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 37/75] fix: the temperature fit takes atoms at rest into
 account

---
 dynaphopy/analysis/energy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/energy.py b/dynaphopy/analysis/energy.py
index fece85b..0ffa72a 100644
--- a/dynaphopy/analysis/energy.py
+++ b/dynaphopy/analysis/energy.py
@@ -18,7 +18,8 @@ def boltzmann_distribution(trajectory, parameters):
     print('Deviation: {0:3.7e} Angstrom/ps'.format(deviation))
     maxwell = stats.maxwell
 
-    params = maxwell.fit(velocity, floc=0, scale=np.average([average, deviation]))
+    # Maximum likelihood fit (location fixed to 0), valid also if some atoms are at rest
+    params = (0, np.sqrt(np.average(velocity**2) / 3))
     print('Distribution parameter: {0:3.7e} Angstrom/ps'.format(params[1]))
 
     temperature = pow(params[1], 2)/ kb_boltzmann
-- 
2.43.0


From baa6410cd420c1f35654991bd54287d0ef34e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 38/75] fix: harmonic calculations use the masses of the
 structure

---
 dynaphopy/interface/phonopy_link.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index 7165389..c6f34ca 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -140,7 +140,8 @@ def get_phonon(structure, NAC=False, setup_forces=True, custom_supercell=None, s
     # Preparing the bulk type object
     bulk = PhonopyAtoms(symbols=structure.get_atomic_elements(),
                         scaled_positions=structure.get_scaled_positions(),
-                        cell=structure.get_cell())
+                        cell=structure.get_cell(),
+                        masses=structure.get_masses())
 
     phonon = PhonopyLegacy(bulk, super_cell_phonon,
                            primitive_matrix=structure.get_primitive_matrix(),
-- 
2.43.0


From 3a484a0ed4f7830c326e4032dfeec0743270f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 39/75] fix: the initial phase of generated trajectories is a
 phase (it scaled the amplitudes)

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 7b37b98..e2a6a5d 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -403,7 +403,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From 4c87444ce6b6c0502a60328492d6984f72af6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 40/75] fix: wave vectors equivalent by symmetry are not
 repeated because of rounding errors

---
 dynaphopy/interface/phonopy_link.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index c6f34ca..6ae60c5 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -360,7 +360,11 @@ def get_equivalent_q_points_by_symmetry(q_point, structure, symprec=None):
         if (q_point_test >= 0).all():
                 tot_points.append(list(q_point_test))
 
-    tot_points_unique = [list(x) for x in set(tuple(x) for x in tot_points)]
+    # Points that differ only by rounding errors are the same point
+    tot_points_unique = []
+    for point in tot_points:
+        if not any(np.allclose(point, point_unique, rtol=0, atol=1e-8) for point_unique in tot_points_unique):
+            tot_points_unique.append(point)
     return tot_points_unique
 
 
-- 
2.43.0


From 8d897dc30a1973d5eca1aa5f7d1f1f145b789436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 41/75] fix: calculating the renormalized force constants keeps
 the frequency range

---
 dynaphopy/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 4b2b839..be50316 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1118,6 +1118,8 @@ class Quasiparticle:
 
         if self._commensurate_points_data is None:
 
+            initial_frequency_range = self.get_frequency_range()
+
             if auto_range:
                 # Get range from harmonic DOS
                 phonopy_dos = pho_interface.obtain_phonopy_dos(self.dynamic.structure,
@@ -1200,6 +1202,10 @@ class Quasiparticle:
                 np.savetxt('renormalized_frequencies', renormalized_frequencies)
             # np.savetxt('test_line', linewidths)
 
+            # Restore the user's frequency range & wave vector
+            self._set_frequency_range(initial_frequency_range)
+            self.set_reduced_q_vector(initial_reduced_q_vector)
+
             self._commensurate_points_data = {'frequencies': renormalized_frequencies,
                                               'eigenvectors': eigenvectors,
                                               'linewidths': linewidths,
@@ -1207,8 +1213,6 @@ class Quasiparticle:
                                               'q_points': q_points_list,
                                               'fc_supercell': fc_supercell}
 
-            self.set_reduced_q_vector(initial_reduced_q_vector)
-
         return self._commensurate_points_data
 
     def get_renormalized_force_constants(self):
-- 
2.43.0


From 4a41910e0c3d3fe1a470ff33b1563b7de839cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 42/75] fix: keeping the last steps of a loaded projection
 keeps their times

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index be50316..628658f 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -60,6 +60,7 @@ class Quasiparticle:
         else:
             if last_steps is not None:
                 self._vc = self._vc[-last_steps:, :, :]
+                self._dynamic.crop_trajectory(last_steps)
                 self._vq = None
                 self.power_spectra_clear()
             print("Using {0} steps".format(len(self._vc)))
-- 
2.43.0


From 2c38c09717947b07295399d8beaaf871bbdbf127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 43/75] fix: automatic ordering finds the order of atoms
 wrapped across the cell boundaries

---
 dynaphopy/interface/iofile/__init__.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index e2a6a5d..bee41fe 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -35,12 +35,12 @@ def check_atoms_order(filename, trajectory_reading_function, structure):
     # Only using first step
     reference = trajectory.trajectory[0]
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell=trajectory.get_supercell_matrix())
 
     return template
 
 
-def get_correct_arrangement(reference, structure):
+def get_correct_arrangement(reference, structure, supercell=None):
 
     # print structure.get_scaled_positions()
     scaled_coordinates = []
@@ -51,22 +51,24 @@ def get_correct_arrangement(reference, structure):
 
     number_of_cell_atoms = structure.get_number_of_atoms()
     number_of_supercell_atoms = len(scaled_coordinates)
-    supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    if supercell is None:
+        supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    else:
+        supercell_dim = np.array(supercell, dtype=int)
 
-    unit_cell_scaled_coordinates = scaled_coordinates - np.array(scaled_coordinates, dtype=int)
+    unit_cell_scaled_coordinates = scaled_coordinates - np.floor(scaled_coordinates)
 
     atom_unit_cell_index = []
     for coordinate in unit_cell_scaled_coordinates:
         # Only works for non symmetric cell (must be changed)
 
-        diff = np.abs(np.array([coordinate]*number_of_cell_atoms) - structure.get_scaled_positions())
+        diff = np.array([coordinate]*number_of_cell_atoms) - structure.get_scaled_positions()
 
-        diff[diff >= 0.5] -= 1.0
-        diff[diff < -0.5] += 1.0
+        diff -= np.round(diff)
 
         # print 'diff', diff
         # print 'postions', structure.get_scaled_positions()
-        index = np.argmin(np.linalg.norm(diff, axis=1))
+        index = np.argmin(np.linalg.norm(np.dot(diff, structure.get_cell()), axis=1))
 
         # print 'test', coordinate, index
         atom_unit_cell_index.append(index)
@@ -91,11 +93,7 @@ def get_correct_arrangement(reference, structure):
         lattice_points_coordinates = coordinate - structure.get_scaled_positions()[atom_unit_cell_index[i]]
         # print 'c', i, coordinate, coordinate2
 
-        for k in range(3):
-            if lattice_points_coordinates[k] > supercell_dim[k] - 0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] - supercell_dim[k]
-            if lattice_points_coordinates[k] < -0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] + supercell_dim[k]
+        lattice_points_coordinates = np.mod(np.round(lattice_points_coordinates), supercell_dim)
 
         comparison_cell = np.array([lattice_points_coordinates]*number_of_supercell_atoms)
         diference = np.linalg.norm(diff_matrix(original_conf, comparison_cell, supercell_dim), axis=1)
@@ -119,7 +117,7 @@ def get_correct_arrangement(reference, structure):
     # np.savetxt('lp.txt', lp_coordinates[inv_template])
     # np.savetxt('diff.txt', dm)
 
-    if len(np.unique(template)) < len(template):
+    if not np.array_equal(np.sort(template), np.arange(len(template))):
         print ('template failed, auto-order will not be applied')
         print ('unique: {} / {}'.format(len(np.unique(template)), len(template)))
         return range(len(template))
-- 
2.43.0


From fcc0fa4756e5d1acf7601aea6a75d6455b75570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 44/75] fix: saved atomic displacement histograms are centered
 on their bins

---
 dynaphopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 628658f..0dbac6d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1093,7 +1093,8 @@ class Quasiparticle:
 
     def write_atomic_displacements(self, direction, file_name):
         distributions, distance = self.get_atomic_displacements(direction)
-        reading.write_curve_to_file(distance, distributions.T, file_name)
+        distance_centers = distance[:-1] + (distance[1] - distance[0])
+        reading.write_curve_to_file(distance_centers, distributions.T, file_name)
 
     # Molecular dynamics analysis related methods
     def show_boltzmann_distribution(self):
-- 
2.43.0


From ce35e1beef4fcd87d5388777400de6f3b99a8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 45/75] fix: free energy does not overflow at low temperatures

---
 dynaphopy/analysis/thermal_properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index c6dad4f..f4ccbc7 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -48,7 +48,11 @@ def get_total_energy(temperature, frequency, dos):
 
 def get_free_energy(temperature, frequency, dos):
 
-    free_energy = np.nan_to_num([dos[i] * k_b * temperature * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature)))
+    # log(2 sinh(x)), without the overflow of sinh at low temperatures
+    def log_2_sinh(x):
+        return x + np.log1p(-np.exp(-2 * x))
+
+    free_energy = np.nan_to_num([dos[i] * k_b * temperature * log_2_sinh(h_bar * freq / (2 * k_b * temperature))
                                  for i, freq in enumerate(frequency)])
 
     free_energy[0] = 0
-- 
2.43.0


From 2cc0ba44a08f78213494306d381d2574f03c5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 46/75] fix: free energy includes the first frequency when it
 is not zero

---
 dynaphopy/analysis/thermal_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index f4ccbc7..579a34f 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -55,7 +55,7 @@ def get_free_energy(temperature, frequency, dos):
     free_energy = np.nan_to_num([dos[i] * k_b * temperature * log_2_sinh(h_bar * freq / (2 * k_b * temperature))
                                  for i, freq in enumerate(frequency)])
 
-    free_energy[0] = 0
+    free_energy[np.array(frequency) == 0] = 0
     free_energy = simps(free_energy, x=frequency) * N_a / 1000  # KJ/K/mol
     return free_energy
 
-- 
2.43.0


From 9d90dd21666dc47b12c0bd75f93cff18f8d00767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 47/75] fix: entropy does not overflow at low temperatures

---
 dynaphopy/analysis/thermal_properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index 579a34f..11c29b6 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -92,10 +92,14 @@ def get_free_energy_correction_dos(temperature, frequency, dos, dos_r):
 def get_entropy(temperature, frequency, dos):
 
     def coth(x):
-        return  np.cosh(x)/np.sinh(x)
+        return 1.0 / np.tanh(x)
+
+    # log(2 sinh(x)), without the overflow of sinh at low temperatures
+    def log_2_sinh(x):
+        return x + np.log1p(-np.exp(-2 * x))
 
     entropy = np.nan_to_num([dos[i]*(1.0 / (2. * temperature) * h_bar * freq * coth(h_bar * freq / (2 * k_b * temperature))
-                                     - k_b * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature))))
+                                     - k_b * log_2_sinh(h_bar * freq / (2 * k_b * temperature)))
                              for i, freq in enumerate(frequency)])
     entropy = simps(entropy, x=frequency) * N_a # J/K/mol
     return entropy
-- 
2.43.0


From 2b8aff658abfdb69c98da1955acfcce0c013668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 48/75] fix: damped oscillator fit starts from the height of
 the peak

---
 dynaphopy/analysis/fitting/fitting_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/fitting/fitting_functions.py b/dynaphopy/analysis/fitting/fitting_functions.py
index d1d7dba..13e96a5 100644
--- a/dynaphopy/analysis/fitting/fitting_functions.py
+++ b/dynaphopy/analysis/fitting/fitting_functions.py
@@ -232,7 +232,8 @@ class Damped_harmonic:
                 fit_params, fit_covariances = curve_fit(self._function,
                                                         self.test_frequencies_range,
                                                         self.power_spectrum,
-                                                        p0=[self.guess_pos, 0.1, self.guess_height, 0.0])
+                                                        p0=[self.guess_pos, 0.1,
+                                                            self.guess_height*(0.1*self.guess_pos)**2, 0.0])
             self._fit_covariances = fit_covariances
             self._fit_params = fit_params
 
-- 
2.43.0


From a4462ac1274ee1a11317446ae861b3f90b94fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 49/75] fix: area of asymmetric and damped peaks leaves out the
 base line

---
 dynaphopy/analysis/fitting/fitting_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/analysis/fitting/fitting_functions.py b/dynaphopy/analysis/fitting/fitting_functions.py
index 13e96a5..4ef1851 100644
--- a/dynaphopy/analysis/fitting/fitting_functions.py
+++ b/dynaphopy/analysis/fitting/fitting_functions.py
@@ -165,8 +165,9 @@ class Lorentzian_asymmetric:
             width = 2.0 * self._g_a(frequency, fit_params[0], fit_params[1], fit_params[4])
             asymmetry = fit_params[4]
 
+            # the base line is not part of the peak
             area, error_integration = quad(self._function, 0, self.test_frequencies_range[-1],
-                                           args=tuple(fit_params),
+                                           args=tuple(fit_params[:3]) + (0.0,) + tuple(fit_params[4:]),
                                            epsabs=1e-8)
         #    area = fit_params[2]
 
@@ -255,8 +256,9 @@ class Damped_harmonic:
             maximum = self.get_curve(frequency)
 
 
+            # the base line is not part of the peak
             area, error_integration = quad(self._function, 0, self.test_frequencies_range[-1],
-                                           args=tuple(fit_params),
+                                           args=tuple(fit_params[:3]) + (0.0,) + tuple(fit_params[4:]),
                                            epsabs=1e-8)
 #            area = fit_params[2]*np.pi/(fit_params[0]**3*width)
 
-- 
2.43.0


From 166e694e48a16632cffbc163fc33b70ff17a5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 50/75] Revert "fix: saved atomic displacement histograms are
 centered on their bins"

This reverts commit fcc0fa4756e5d1acf7601aea6a75d6455b75570b.
---
 dynaphopy/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 0dbac6d..628658f 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1093,8 +1093,7 @@ class Quasiparticle:
 
     def write_atomic_displacements(self, direction, file_name):
         distributions, distance = self.get_atomic_displacements(direction)
-        distance_centers = distance[:-1] + (distance[1] - distance[0])
-        reading.write_curve_to_file(distance_centers, distributions.T, file_name)
+        reading.write_curve_to_file(distance, distributions.T, file_name)
 
     # Molecular dynamics analysis related methods
     def show_boltzmann_distribution(self):
-- 
2.43.0


From d42e9a0fe9cc3a1c6ec314627d061f5d0bf01f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 51/75] fix: rfc_calc reads the quasiparticle files that
 dynaphopy writes

---
 scripts/rfc_calc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..9499464 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -56,14 +56,16 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     renormalized_frequencies = []
     import yaml
     with open(freq_filename, 'r') as stream:
-        data_dict = yaml.safe_load(stream)
+        data = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
-                # print q_point
-                # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+            for q_point in data:
+                # wave vectors are written with 8 decimals
+                if np.allclose(q_point['reduced_wave_vector'], wv, rtol=0, atol=1e-6):
                     renormalized_frequencies.append(q_point['frequencies'])
-                    # com_points.append(q_point['reduced_wave_vector'])
+                    break
+            else:
+                print('Wave vector {0} not found in {1}'.format(wv, freq_filename))
+                exit(1)
 
     renormalized_frequencies = np.array(renormalized_frequencies)
     #com_points = np.array(com_points)
-- 
2.43.0


From 5c272cda75b3badbe2ecfdb03087561417a77bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 52/75] fix: rfc_calc uses the supercell given with --dim

---
 scripts/rfc_calc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 9499464..bf431f6 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -49,6 +49,8 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
         else:
             print('please define supercell phonon in inputfile')
             exit()
+    else:
+        fc_supercell = np.diag(args.dim)
 
     com_points = pho_interface.get_commensurate_points(structure, fc_supercell)
 
-- 
2.43.0


From c72d45fad47d70a432dd2dfe64308449a76f9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 53/75] fix: every branch is kept when renormalized bands are
 matched to the harmonic ones

---
 dynaphopy/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 628658f..e240753 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -13,6 +13,7 @@ import matplotlib.pyplot as plt
 
 
 from dynaphopy.power_spectrum import power_spectrum_functions
+from scipy.optimize import linear_sum_assignment
 try:
     from scipy.integrate import simps
 except ImportError:
@@ -419,7 +420,7 @@ class Quasiparticle:
                 if i > 0:
                     ref = bands[3][i-1][-1]
                     metric = np.abs(np.dot(ref.conjugate().T, ev_bands[0]))
-                    order = np.argmax(metric, axis=1)
+                    order = linear_sum_assignment(-metric)[1]
                     bands[2][i] = bands[2][i].T[order].T
                     bands[3][i] = bands[3][i].T[order].T
 
@@ -442,7 +443,8 @@ class Quasiparticle:
             metric = np.zeros_like(np.abs(np.dot(ev_bands[0].conjugate().T, ev_renormalized[0])))
             for ev_ref, ev in zip(ev_bands, ev_renormalized):
                 metric += np.abs(np.dot(ev_ref.conjugate().T, ev))
-            order = np.argmax(metric, axis=1,)
+            # every renormalized branch is used once
+            order = linear_sum_assignment(-metric)[1]
             return order
 
         def set_order(bands, renormalized_bands):
-- 
2.43.0


From 784628ce2f4a149c048ff7b4ef4cab7b5d59426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 54/75] fix: band structure files do not store the path bounds
 as numpy objects

---
 dynaphopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index e240753..3830f3c 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -521,7 +521,8 @@ class Quasiparticle:
         for i, q_path in enumerate(_bands[1]):
 
             band = {'q_path_distances': q_path.tolist(),
-                    'q_bounds': {'inf': list(band_ranges[i][0]), 'sup': list(band_ranges[i][1])},
+                    'q_bounds': {'inf': np.array(band_ranges[i][0]).tolist(),
+                                 'sup': np.array(band_ranges[i][1]).tolist()},
                     'harmonic_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
                                              enumerate(_bands[2][i].T)},
                     'renormalized_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
-- 
2.43.0


From 36588e3d0352eac0a241268f666923514fb42d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 55/75] fix: blank lines and comments are allowed anywhere in
 input files

---
 dynaphopy/interface/iofile/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index bee41fe..3788cf2 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -536,12 +536,11 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
         print (file_name + ' file does not exist')
         exit()
 
+    # Blank lines and comments may be anywhere
     with open(file_name, "r") as f:
-        input_file = f.readlines()
+        input_file = [line for line in f.readlines() if line.strip() != '' and not line.strip().startswith('#')]
 
     for i, line in enumerate(input_file):
-        if line[0] == '#':
-            continue
 
         if "STRUCTURE FILE OUTCAR" in line:
             input_parameters.update({'structure_file_name_outcar': input_file[i+1].replace('\n','').strip()})
-- 
2.43.0


From d1fb051f5948660d1e88e9b14bef3b752a8c93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 56/75] fix: band labels stay with their bands when some bands
 have none

---
 dynaphopy/interface/iofile/__init__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 3788cf2..4beaae6 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -571,11 +571,7 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
             labels = []
             while i < len(input_file)-1:
                 line = input_file[i + 1].replace('\n', '')
-                try:
-                    labels.append(line.split(':')[1].replace('\n','').split(','))
-                    line = line.split(':')[0]
-                except:
-                    pass
+                line, _, label = line.partition(':')
                 try:
                     band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
                 except IOError:
@@ -584,9 +580,11 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
                     break
                 i += 1
                 bands.append(band)
-            labels = [(label[0].replace(' ',''), label[1].replace(' ','')) for label in labels]
+                # one pair of labels per band, empty if not given
+                labels.append(label.split(',') if label.strip() else ['', ''])
+            labels = [(label[0].strip().replace(' ',''), label[1].strip().replace(' ','')) for label in labels]
 
-            if labels != []:
+            if any(labels_pair != ('', '') for labels_pair in labels):
                 input_parameters.update({'_band_ranges': {'ranges': bands,
                                                           'labels': labels}})
             else:
-- 
2.43.0


From 0798ff4b34a9cc0fe5e3f036b9df52adcf47a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 57/75] fix: MD cell mismatches of short axes are not hidden by
 long ones

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 3f68971..b333714 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -205,7 +205,7 @@ class Dynamics:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
             supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            mismatch = np.sum(np.abs(supercell_matrix - supercell_matrix_real)) / np.linalg.norm(supercell_matrix_real)
+            mismatch = np.sum(np.abs(supercell_matrix / supercell_matrix_real - 1)) / np.sqrt(len(supercell_matrix))
             if mismatch > tolerance:
                 print(mismatch)
                 print('Warning! Defined unit cell and MD supercell do not match!')
-- 
2.43.0


From deb183b3807c381ce3c786eb775daa803c3a3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 58/75] fix: the mesh can follow the bands in input files

---
 dynaphopy/interface/iofile/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 4beaae6..3a440c2 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -570,10 +570,9 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
             bands = []
             labels = []
             while i < len(input_file)-1:
-                line = input_file[i + 1].replace('\n', '')
-                line, _, label = line.partition(':')
+                band_line, _, label = input_file[i + 1].replace('\n', '').partition(':')
                 try:
-                    band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
+                    band = np.array(band_line.replace(',',' ').split(), dtype=float).reshape((2,3))
                 except IOError:
                     break
                 except ValueError:
-- 
2.43.0


From 9c55eb709639f318216d01bc685eda2d7d09af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 59/75] fix: fitdata uses the first row of the data also
 without band indices

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..aa5c622 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -63,6 +63,7 @@ except IOError:
 
 if args.bi is None:
     data_num = len(input_file.readline().split())
+    input_file.seek(0)
     degeneracy = [[i] for i in range(1, data_num)]
 else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
-- 
2.43.0


From 23b88e772df212fc817779addc16a19298b3b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 60/75] fix: MEM of small or predictable signals is not
 discarded

---
 c/mem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index 6f6d102..9e85092 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -235,8 +235,9 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) {
-            MeanSquareDiscrepancy = 0.0;
+        // Nothing left to predict (relative to the signal): remaining coefficients are zero
+        if (Denominator <= 1.0e-14 * p) {
+            for (i=k; i <= NumberOfCoefficients; i++) Coefficients[i] = 0.0;
             break;
         }
 
-- 
2.43.0


From 948cc836835708f0a7c3b6970ff3bd47e37da956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:14 +0000
Subject: [PATCH 61/75] fix: atoms of LAMMPS live runs are put in the order of
 their ids

---
 dynaphopy/interface/lammps_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..762e9d9 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -94,7 +94,7 @@ def generate_lammps_trajectory(structure,
 
     na = lmp.get_natoms()
     id = lmp.extract_atom("id", 0)
-    id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+    id = np.argsort([id[i] for i in range(na)])
 
     xp = lmp.extract_atom("x", 3)
     reference = np.array([[xp[i][0], xp[i][1], xp[i][2]] for i in range(na)], dtype=float)[id, :]
@@ -123,7 +123,7 @@ def generate_lammps_trajectory(structure,
         energy.append(lmp.extract_variable('energy', 'all', 0))
 
         id = lmp.extract_atom("id", 0)
-        id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+        id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
         velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
-- 
2.43.0


From 3330cf2a5781da17253e608d1debd94ed2df6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:14 +0000
Subject: [PATCH 62/75] fix: LAMMPS live runs take the number of steps asked
 for

---
 dynaphopy/interface/lammps_link.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 762e9d9..98ff7ef 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -105,13 +105,13 @@ def generate_lammps_trajectory(structure,
     template = get_correct_arrangement(reference, structure)
     indexing = np.argsort(template)
 
-    lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-    lmp.command('run {}'.format(int(relaxation_time/time_step)))
+    lmp.command('variable energy equal pe'.format(int(round(relaxation_time / time_step))))
+    lmp.command('run {}'.format(int(round(relaxation_time / time_step))))
 
     if not silent:
         _progress_bar(0, 'lammps')
 
-    n_loops = int(total_time / time_step / sampling_interval)
+    n_loops = int(round(total_time / time_step) / sampling_interval)
     for i in range(n_loops):
         if not silent:
             _progress_bar(float((i+1) * time_step * sampling_interval) / total_time, 'lammps', )
-- 
2.43.0


From 5b1a89b2ee4ac411b767e57ca18d257bc762c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 63/75] fix: LAMMPS live runs are turned into the frame of the
 unit cell and ordered with their MD cell

---
 dynaphopy/interface/lammps_link.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 98ff7ef..568cc8c 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -88,6 +88,13 @@ def generate_lammps_trajectory(structure,
                            [0,  yhi-ylo,  yz],
                            [0,   0,  zhi-zlo]]).T
 
+    # rotate lammps cell to match unit cell orientation
+    def unit_matrix(matrix):
+        return np.array([np.array(row)/np.linalg.norm(row) for row in matrix])
+
+    transformation_mat = np.dot(np.linalg.inv(unit_matrix(structure.get_cell())), unit_matrix(simulation_cell)).T
+    simulation_cell = np.dot(simulation_cell, transformation_mat)
+
     positions = []
     velocity = []
     energy = []
@@ -102,7 +109,8 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
-    template = get_correct_arrangement(reference, structure)
+    supercell_matrix = dyn.Dynamics(structure=structure, supercell=simulation_cell).get_supercell_matrix()
+    template = get_correct_arrangement(np.dot(reference, transformation_mat), structure, supercell=supercell_matrix)
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(round(relaxation_time / time_step))))
@@ -126,12 +134,12 @@ def generate_lammps_trajectory(structure,
         id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
-        velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
+        velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :].dot(transformation_mat))
         # velocity.append(np.array([vc[i] for i in range(na * 3)]).reshape((na, 3))[indexing, :])
 
         if not velocity_only:
             xc = lmp.extract_atom("x", 3)
-            positions.append(np.array([[xc[i][0], xc[i][1], xc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
+            positions.append(np.array([[xc[i][0], xc[i][1], xc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :].dot(transformation_mat))
             # positions.append(np.array([xc[i] for i in range(na * 3)]).reshape((na, 3))[indexing, :])
 
     positions = np.array(positions, dtype=complex)
-- 
2.43.0


From c54454d2e074dfa9881d3006c30a427c79402cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 64/75] fix: plots against time place each step at its time

---
 dynaphopy/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 3830f3c..1e4366d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -670,8 +670,7 @@ class Quasiparticle:
         plt.xlabel('Time [ps]')
         plt.ylabel('$u^{1/2}\AA/ps$')
 
-        time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+        time = np.arange(self.get_vc().shape[0]) * self.dynamic.get_time_step_average()
 
         for mode in modes:
             plt.plot(time, self.get_vq()[:, mode].real, label='mode: ' + str(mode))
@@ -683,8 +682,7 @@ class Quasiparticle:
             atoms = [0]
         if not coordinates:
             coordinates = [0]
-        time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+        time = np.arange(self.get_vc().shape[0]) * self.dynamic.get_time_step_average()
 
         plt.suptitle('Wave vector projection')
         plt.xlabel('Time [ps]')
@@ -964,8 +962,7 @@ class Quasiparticle:
         if coordinates is None: coordinates = [0]
 
         plt.suptitle('Trajectory')
-        time = np.linspace(0, self.dynamic.trajectory.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.trajectory.shape[0])
+        time = np.arange(self.dynamic.trajectory.shape[0]) * self.dynamic.get_time_step_average()
         for atom in atoms:
             for coordinate in coordinates:
                 plt.plot(time, self.dynamic.trajectory[:, atom, coordinate].real,
@@ -981,8 +978,7 @@ class Quasiparticle:
         if not coordinates: coordinates = [0]
 
         plt.suptitle('Velocity')
-        time = np.linspace(0, self.dynamic.velocity.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.velocity.shape[0])
+        time = np.arange(self.dynamic.velocity.shape[0]) * self.dynamic.get_time_step_average()
 
         for atom in atoms:
             for coordinate in coordinates:
-- 
2.43.0


From ae50e966c8b9f8bf488c61aef3d6a692da7b17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 65/75] fix: eigenvector plots weight each atom with its own
 mass

---
 dynaphopy/analysis/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index 73dcd61..bef3add 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -76,7 +76,7 @@ def plot_phonon_modes(structure, eigenvectors, q_vector,
         for i, position in enumerate(positions):
             eigenvector_atom = np.array(eigenvectors[i_phonon, atom_type[i], :])
             phase = 1.j * np.dot(position, q_vector)
-            vector = (eigenvector_atom / np.sqrt(masses[atom_type[i]]) * np.exp(phase) * vectors_scale).real
+            vector = (eigenvector_atom / np.sqrt(masses[i]) * np.exp(phase) * vectors_scale).real
  #           vector = np.dot(vector, np.linalg.inv(structure.get_primitive_matrix().T))
             a = Arrow3D([position[0], position[0]+vector[0]], [position[1], position[1]+vector[1]],
                         [position[2], position[2]+vector[2]], mutation_scale=20, lw=3, arrowstyle="-|>", color="r")
-- 
2.43.0


From 6134095423e0b6cfab4fdeac4a720c4cadec9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 66/75] fix: scan of MEM coefficients leaves out fits without
 error bars

---
 dynaphopy/power_spectrum/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 4eb0810..55c0e62 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -145,7 +145,7 @@ def mem_coefficient_scan_analysis(vq, trajectory, parameters):
             fitting_parameters = fitting_function.get_fitting()
 
 
-            if not fitting_parameters['all_good']:
+            if not fitting_parameters['all_good'] or not np.isfinite(fitting_parameters['global_error']):
                 print('Warning: Fitting error, skipping point {0}'.format(number_of_coefficients))
                 continue
 
-- 
2.43.0


From 5d1ec998cdf597a78af6b4bc1ee5623c46a98a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 67/75] fix: scan of MEM coefficients reports the position of
 the peak

---
 dynaphopy/power_spectrum/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 55c0e62..e5b194f 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -149,14 +149,14 @@ def mem_coefficient_scan_analysis(vq, trajectory, parameters):
                 print('Warning: Fitting error, skipping point {0}'.format(number_of_coefficients))
                 continue
 
-#            frequency = fitting_parameters['peak_position']
+            frequency = fitting_parameters['peak_position']
             area = fitting_parameters['area']
             width = fitting_parameters['width']
 #            base_line = fitting_parameters['base_line']
             maximum = fitting_parameters['maximum']
             error = fitting_parameters['global_error']
 
-            fit_data.append([number_of_coefficients, width, error, area])
+            fit_data.append([number_of_coefficients, width, error, area, frequency])
             scan_params.append(fitting_function._fit_params)
             power_spectra.append(power_spectrum)
             if not(parameters.silent):
@@ -186,7 +186,7 @@ def mem_coefficient_scan_analysis(vq, trajectory, parameters):
         scan_params = mem_full_dict[i][4]
         best_index = mem_full_dict[i][2]
 
-        print ('Position (best fit): {0} THz'.format(scan_params[best_index][0]))
+        print ('Position (best fit): {0} THz'.format(fit_data[4][best_index]))
         print ('Area (best fit): {0} eV'.format(fit_data[3][best_index]))
         print ('Coefficients num (best fit): {0}'.format(fit_data[0][best_index]))
         print ('Fitting global error (best fit): {0}'.format(fit_data[2][best_index]))
-- 
2.43.0


From f07ba1d45cf3f79c4349bda725e7fce486a6560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 68/75] fix: keys not offered leave the non analytical
 corrections as they are

---
 dynaphopy/interface/interactive_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 8ae16d7..762fbdc 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -280,7 +280,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
                 # SUB OPT 2 : # Non analytical corrections
                 if x2 == ord('2'):
                     x3 = ord("9")
-                    while int(chr(int(x3))) > 2:
+                    while x3 not in (ord('1'), ord('2')):
                         screen = curses.initscr()
                         screen.clear()
                         screen.border(0)
-- 
2.43.0


From 398fe2faba7dcbcaf95441c1b34eed01e7137f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 69/75] fix: qha_extract keeps force constants with their
 volumes

---
 scripts/qha_extract | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/qha_extract b/scripts/qha_extract
index 7178267..c7a4d37 100755
--- a/scripts/qha_extract
+++ b/scripts/qha_extract
@@ -128,7 +128,7 @@ for filename in fc_filenames:
     force_constants = phonopy_link.get_force_constants_from_file(filename, fc_supercell=fc_supercell)
     force_constants_mat.append(force_constants.get_array())
 
-force_constants_mat = np.array(force_constants_mat).T
+force_constants_mat = np.array(force_constants_mat)[sort_index].T
 f_temperature = interp1d(volumes, force_constants_mat, kind='quadratic')
 
 # Get force constants at the requested temperature
-- 
2.43.0


From 1ad3ec050ae379e68af2c9c11407e6834d994d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 70/75] fix: the printed table of the bands has one complete
 row per wave vector

Rows of many branches were broken over several lines, and of crystals with
more than ten atoms most values were left out.
---
 dynaphopy/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1e4366d..b318f85 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -590,9 +590,11 @@ class Quasiparticle:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
                                                                        self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
-        np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-            print(str(np.hstack([self._bands[1][i][None].T, self._bands[2][i]])).replace('[', '').replace(']', ''))
+            # one line per wave vector and no value left out, whatever the number of branches
+            table = np.array2string(np.hstack([self._bands[1][i][None].T, self._bands[2][i]]),
+                                    max_line_width=np.inf, threshold=np.inf)
+            print(table.replace('[', '').replace(']', ''))
 
     def plot_eigenvectors(self):
         modes.plot_phonon_modes(self.dynamic.structure,
-- 
2.43.0


From 7ef1e5a45575ccdc6b519a50d234ed6ffbcf1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 71/75] fix: fitdata smooths short spectra and accepts the full
 smoothing factor

---
 scripts/fitdata | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fitdata b/scripts/fitdata
index aa5c622..f28f609 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -38,7 +38,7 @@ args = parser.parse_args()
 def loess(x, y, f=2./3.):
 
     n = len(x)
-    r = int(np.ceil(f*n))
+    r = min(int(np.ceil(f*n)), n-1)
     h = [np.sort(np.abs(x - x[i]))[r] for i in range(n)]
     w = np.clip(np.abs((x[:, None] - x[None, :]) / h), 0.0, 1.0)
     w = (1.0 - w**3)**3
@@ -49,7 +49,7 @@ def loess(x, y, f=2./3.):
             b = np.array([np.sum(weights*y), np.sum(weights*y*x)])
             a = np.array([[np.sum(weights), np.sum(weights*x)],
                           [np.sum(weights*x), np.sum(weights*x*x)]])
-            beta = np.linalg.solve(a, b)
+            beta = np.linalg.lstsq(a, b, rcond=None)[0]
             y_smooth[i] = beta[0] + beta[1]*x[i]
 
     return y_smooth
-- 
2.43.0


From 986125b431754d26cc881d89a716e9b128a0c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 72/75] fix: rfc_calc draws the bands given in the input file,
 in one set of axes

---
 scripts/rfc_calc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index bf431f6..da3e80d 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -86,7 +86,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
 
     if '_band_ranges' in input_parameters:
-        band_ranges = input_parameters['_band_ranges']
+        band_ranges = input_parameters['_band_ranges']['ranges']
     else:
         band_ranges = structure.get_path_using_seek_path()['ranges']
 
@@ -103,8 +103,8 @@ def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
     for i,freq in enumerate(renormalized_bands[1]):
         plt.plot(bands[1][i],bands[2][i],color ='b', label='Harmonic (0K)')
         plt.plot(renormalized_bands[1][i],renormalized_bands[2][i],color ='r', label='Renormalized')
-        plt.axes().get_xaxis().set_visible(False)
-    plt.axes().get_xaxis().set_ticks([])
+        plt.gca().get_xaxis().set_visible(False)
+    plt.gca().get_xaxis().set_ticks([])
     plt.ylabel('Frequency [THz]')
     plt.xlabel('Wave vector')
     plt.xlim([0, renormalized_bands[1][-1][-1]])
-- 
2.43.0


From 7c78cd97f9816c23bfb96a85ba072df9017c7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 73/75] fix: average over symmetry leaves out wave vectors the
 MD supercell does not contain

---
 dynaphopy/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b318f85..78a5b68 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -642,6 +642,16 @@ class Quasiparticle:
 
         return commensurate
 
+    def _get_equivalent_q_points(self):
+        q_point = self.get_reduced_q_vector()
+        q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(q_point, self.dynamic.structure)
+
+        # The MD supercell may have less symmetry than the crystal: projections onto equivalent
+        # wave vectors that are not commensurate with it mix modes of other wave vectors
+        if self.check_commensurate(q_point):
+            q_points_equivalent = [q for q in q_points_equivalent if self.check_commensurate(q)]
+        return q_points_equivalent
+
     # Projections related methods
     def get_vc(self):
         if self._vc is None:
@@ -743,8 +753,7 @@ class Quasiparticle:
             if self.parameters.use_symmetry:
                 initial_reduced_q_point = self.get_reduced_q_vector()
                 power_spectrum_phonon = []
-                q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(self.get_reduced_q_vector(),
-                                                                                        self.dynamic.structure)
+                q_points_equivalent = self._get_equivalent_q_points()
                 #                print(q_points_equivalent)
                 for q_point in q_points_equivalent:
                     self.set_reduced_q_vector(q_point)
@@ -771,8 +780,7 @@ class Quasiparticle:
             if self.parameters.use_symmetry:
                 initial_reduced_q_point = self.get_reduced_q_vector()
                 power_spectrum_wave_vector = []
-                q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(self.get_reduced_q_vector(),
-                                                                                        self.dynamic.structure)
+                q_points_equivalent = self._get_equivalent_q_points()
                 #  print(q_points_equivalent)
                 for q_point in q_points_equivalent:
                     self.set_reduced_q_vector(q_point)
-- 
2.43.0


From 7c3a3f85efaac4e40d106e574b332a20c68db2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:06 +0000
Subject: [PATCH 74/75] fix: force sets of supercells with a non-diagonal
 matrix are refused

---
 dynaphopy/atoms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index e12ad41..5c41348 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -193,7 +193,8 @@ class Structure:
 
         if not isinstance(self._force_sets,type(None)):
             force_atoms_file = self._force_sets.get_dict()['natom']
-            force_atoms_input = np.prod(np.diagonal(self._force_sets.get_supercell())) * self.get_number_of_atoms()
+            number_of_cells = int(round(abs(np.linalg.det(self._force_sets.get_supercell()))))
+            force_atoms_input = number_of_cells * self.get_number_of_atoms()
 
             if force_atoms_file != force_atoms_input:
                 print("Error: FORCE_SETS file does not match with SUPERCELL MATRIX")
-- 
2.43.0


From 8090822793b2ac72669779d90b501228de4e7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:11 +0000
Subject: [PATCH 75/75] fix: numbers which touch each other in the tables of
 OUTCAR files are read

---
 dynaphopy/interface/iofile/__init__.py           | 10 +++++-----
 dynaphopy/interface/iofile/trajectory_parsers.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 3a440c2..81f9c7e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -218,13 +218,13 @@ def read_from_file_structure_outcar(file_name):
                            for j in range(atoms_per_type.shape[0])],[])
         atomic_mass = np.array(atomic_mass,dtype='double')
 
-        # Reading cell
+        # Reading cell (columns are of fixed width, negative numbers may touch the previous one)
         position_number = file_map.find(b'direct lattice vectors')
         file_map.seek(position_number)
         file_map.readline()
         direct_cell = []    #Direct Cell
         for i in range (number_of_dimensions):
-            direct_cell.append(file_map.readline().split()[0:number_of_dimensions])
+            direct_cell.append(file_map.readline().replace(b'-', b' -').split()[0:number_of_dimensions])
         direct_cell = np.array(direct_cell,dtype='double')
 
         file_map.seek(position_number)
@@ -232,7 +232,7 @@ def read_from_file_structure_outcar(file_name):
 
         reciprocal_cell = []    #Reciprocal cell
         for i in range (number_of_dimensions):
-            reciprocal_cell.append(file_map.readline().split()[number_of_dimensions:number_of_dimensions*2])
+            reciprocal_cell.append(file_map.readline().replace(b'-', b' -').split()[number_of_dimensions:number_of_dimensions*2])
         reciprocal_cell = np.array(reciprocal_cell,dtype='double')
 
         # Reading positions fractional cartesian
@@ -242,7 +242,7 @@ def read_from_file_structure_outcar(file_name):
 
         positions_fractional = []
         for i in range (number_of_atoms):
-            positions_fractional.append(file_map.readline().split()[0:number_of_dimensions])
+            positions_fractional.append(file_map.readline().replace(b'-', b' -').split()[0:number_of_dimensions])
         positions_fractional = np.array(positions_fractional,dtype='double')
 
         # Reading positions cartesian
@@ -252,7 +252,7 @@ def read_from_file_structure_outcar(file_name):
 
         positions = []
         for i in range (number_of_atoms):
-            positions.append(file_map.readline().split()[0:3])
+            positions.append(file_map.readline().replace(b'-', b' -').split()[0:3])
         positions = np.array(positions,dtype='double')
 
     file_map.close()
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 498a5e0..47ebd4e 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,7 +74,7 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         file_map.readline()
         super_cell = []
         for i in range (number_of_dimensions):
-            super_cell.append(file_map.readline().split()[0:number_of_dimensions])
+            super_cell.append(file_map.readline().replace(b'-', b' -').split()[0:number_of_dimensions])
         super_cell = np.array(super_cell, dtype='double')
 
         file_map.seek(position_number)
-- 
2.43.0

