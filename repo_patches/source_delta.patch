From db3058f13db071c352c16f380c763a0c3107a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 01/72] fix: distribute all rows when npy_load picks the counts

The comparison bound weaker than the addition, so every rank asked for at
most one row and the rest of the array was silently dropped.
---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..bd86acc 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -285,7 +285,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From e6fb0f5f97ffd881bc0bdf774ae8c0618e54d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 02/72] fix: index snapshots relative to the dataset they are
 read from

The 1-stage reader subtracted the number of snapshots read so far in this
call, which is only the start of the dataset when reading from time 0. A
single-snapshot read (streaming) past the first dataset therefore failed and
the stream was taken to have ended.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..8ceb1f8 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -97,7 +97,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 749173b8b651e01e02e2d2baf80c06a64e4bd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 03/72] fix: use np.prod in the MATLAB reader

np.product was removed in NumPy 2.
---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8ceb1f8..c1ea373 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -522,7 +522,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From 1ca5c129284cb6badd3b078696f310a51f013b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 04/72] fix: read .npy data files

read_data called npy_load, which is not defined in this module.
---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From b4ee296cbad424fde502bece7e9d3a2a6cb74305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 05/72] fix: return the index of the nearest coordinate along
 its own axis

The grid is built with 'ij' indexing, so coordinate i varies along axis i;
the index was taken from the mirrored axis, which is 0 in most cases.
---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..5e9d5e4 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 8bce0ec329b1f82c71c727ad0686419bf9571c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 06/72] fix: leave the working directory alone in get_all_modes

It changed into the modes folder and stayed there, so relative paths used
afterwards (including a second call) no longer resolved.
---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 5e9d5e4..3307fe0 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -132,9 +132,8 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
         flist = []
-        for filename in glob.glob("*.npy"):
+        for filename in glob.glob(os.path.join(modes_path, "*.npy")):
             flist.append(filename)
         flist.sort()
         m = [None] * len(flist)
-- 
2.43.0


From b887490b2b662f0d2ba6dea0924d3cf5507b3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 07/72] fix: relative errors are relative to the magnitude of
 the reference

With a negative reference linf_rel picked the smallest error and returned
a negative number.
---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..63b821d 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -17,7 +17,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
-    e_rel = ef / data_ref.flatten('C')
+    e_rel = ef / np.abs(data_ref.flatten('C'))
     if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n
     elif norm_type == 'l2'  : error_norm = np.linalg.norm(ef) / n
     elif norm_type == 'linf': error_norm = np.amax(ef)
-- 
2.43.0


From 77a3e41304880c4e338917278aed3df9762d3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 08/72] fix: sum the squared derivative errors in the h1 norm

The sum was taken before squaring, so errors of opposite sign cancelled.
---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 63b821d..28155ed 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum((uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From ac2ed0b978e8ed55566d941df7f96e181bef9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 09/72] fix: label the first negative frequency of odd-length
 blocks

For complex data and odd n_dft the frequency axis kept -(n_dft-1)/2 at its
alias above the Nyquist frequency.
---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..7def859 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -627,7 +627,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From dd1319ed05b89a48e7f153cb5b991b5d6a55ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 10/72] fix: double exactly the frequencies a one-sided
 spectrum folds

The full spectrum of real data was doubled as well, except for its first and
last entry, so the energies at f and -f differed; and for odd n_dft, which has
no Nyquist frequency, the last frequency of the one-sided spectrum was left
out.
---
 pyspod/spod/standard.py  | 5 +++--
 pyspod/spod/streaming.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..6fcc0e8 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -353,8 +353,9 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        if self._isrealx and not self._fullspectrum:
+            pos = slice(1, (self._n_dft + 1) // 2)
+            L[pos,:] = 2 * L[pos,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..6daf37e 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -77,7 +77,9 @@ class Streaming(Base):
 
         ## check if real for frequency axis
         if self._isrealx:
-            dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]
+            if not self._fullspectrum:
+                pos = slice(1, (self._n_dft + 1) // 2)
+                dft[:,pos] = 2 * dft[:,pos]
             if self._fullspectrum:
                 freq_idx = np.arange(0, int(self._n_dft), 1)
             else:
-- 
2.43.0


From ad0d674a6c30cef7deeb10b2cb3395847886a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 11/72] fix: store and reuse FFT blocks of multi-variable and
 flattened data

The blocks were reshaped to the spatial dimensions only, so savefft failed
for more than one variable and for data distributed as flattened points.
---
 pyspod/spod/standard.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 6fcc0e8..812a33e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -59,11 +59,14 @@ class Standard(Base):
         # loop over number of blocks and generate Fourier realizations,
         # if blocks are not saved in storage
 
+        ## spatial shape of the stored blocks
+        block_xshape = [self._nx] if self._reader._flattened else self._xshape
+
         ## check if blocks already computed or not
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            size_qhat = [*block_xshape, self._nv, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +75,8 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = \
+                        np.load(path).reshape(size_qhat[:-1])
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,7 +111,7 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
+                        shape = [*block_xshape, self._nv]
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
-- 
2.43.0


From 863488d403778b40925412b3274d2d0c8b4cca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 12/72] fix: reuse FFT blocks without saving them again

The blocks folder was only known with savefft on, so reuse_blocks alone
raised AttributeError.
---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 7def859..fcf69f1 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
-- 
2.43.0


From 8fc2f0726cd63347caed04d9112fdf746418faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 13/72] fix: do not overwrite the weights passed by the user

apply_normalization divided them in place, so fitting a second time with the
same weights normalized them twice; integer weights were truncated.
---
 pyspod/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..619bfd1 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,9 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    ## do not overwrite the weights passed by the user
+    weights = np.array(weights, dtype=np.result_type(weights, np.float32))
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From c87e716373584e85b6d6d99e419324471cd370dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 14/72] fix: keep the imaginary part of complex data

Complex data was copied into a real buffer, so a two-sided spectrum of its
real part was returned.
---
 pyspod/spod/base.py     | 3 ++-
 pyspod/spod/standard.py | 2 +-
 pyspod/utils/reader.py  | 6 +++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index fcf69f1..2758ef4 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -602,7 +602,8 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape,
+                dtype=np.result_type(data.dtype, np.float64))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 812a33e..b541390 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -177,7 +177,7 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index c1ea373..1158df2 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,11 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        self._is_real = all(
+            not np.issubdtype(d.dtype, np.complexfloating)
+            or bool(np.isreal(d).all()) for d in data_list)
+        if not self._is_real:
+            self._dtype = np.result_type(self._dtype, np.complex64)
         self._max_axis = np.argmax(self._shape[1:])
         del x_tmp
         del data
-- 
2.43.0


From bce8fc1d0f95095772d4928c0827bce55b856d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 15/72] fix: compute coefficients for an explicit list of
 frequencies

With freq_idx the period bounds were used regardless, which failed when they
were not given and sized the mode matrix from them when they were.
---
 pyspod/spod/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..e840f99 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,12 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +131,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +282,12 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = min(freq_idx)
+        f_idx_ub = max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +295,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From f0c1c173389f4b5ac4484c2f9a270b13ba6e6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 16/72] fix: convolution coefficients in parallel, of a band,
 and their modes

The partial inner products were not summed over the ranks; the modes of a
frequency band were stored by absolute index and those not read were left
uninitialized; single-mode results were squeezed; and the modes were saved for
reconstruction as [frequency, space, mode] memory relabelled as
[space, frequency, mode].
---
 pyspod/spod/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index e840f99..35731c4 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -329,12 +329,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -388,8 +388,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = (Q_blk * weights[:,0])
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
@@ -398,6 +398,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
@@ -414,7 +415,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.moveaxis(phir, 0, 1).reshape(shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 00abd26b8e1d38e1c248f98e58c6c9edb0fd3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 17/72] fix: accept multi-variable data in POD

---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..51391d8 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From 04a8010537cfda42adada0031f66fe09d0615e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 18/72] fix: POD with the default number of modes

---
 pyspod/pod/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 51391d8..d224d99 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -234,6 +234,7 @@ class Base():
         for d in data_list:
             assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
+        self._n_modes_save = int(min(self._n_modes_save, self._nt))
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
-- 
2.43.0


From c3091ba0c0955b98a41cd3fdaf01dd42caf85cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 19/72] fix: rank POD modes by energy before truncation

---
 pyspod/pod/standard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..c4f727f 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -50,6 +50,8 @@ class Standard(Base):
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
         w, v = scipy.linalg.eig(Q)
+        idx = np.argsort(w.real)[::-1]
+        w, v = w[idx], v[:,idx]
 
         # bases
         self._pr0(f' ')
-- 
2.43.0


From c784a00d396d627df66dec98ee23135833ea6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 20/72] fix: orthogonality check of integer mode ids and
 complex products

---
 pyspod/spod/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 35731c4..c7b1e0c 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -58,8 +58,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     ## get modes
     phir = _get_modes(results_dir, n_freq,
         freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir1 = phir[:,mode_idx1]
-    phir2 = phir[:,mode_idx2]
+    phir1 = phir[:,np.atleast_1d(mode_idx1)]
+    phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
@@ -69,9 +69,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From 3f3593b9e64ac094e6605c8bb391c2c07addc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 21/72] fix: do not let users of loaded modes overwrite the
 saved files

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 3307fe0..9ae9984 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -158,7 +158,7 @@ def get_data_from_file(filename):
 
     if ext.lower() == '.npy':
         # m = np.load(filename)
-        m = np.lib.format.open_memmap(filename)
+        m = np.lib.format.open_memmap(filename, mode='c')
         # mode='r+', dtype=None, shape=None, fortran_order=False, version=None)
     # elif ext.lower() == '.mat':
     #     pass
-- 
2.43.0


From c2ef4f4cd398e6f28cdc0df85fd3a6b25c76c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 22/72] fix: orthogonality check of an integer frequency id

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index c7b1e0c..9c6bb22 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -56,8 +56,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     weights = np.reshape(weights, [xsize, 1])
 
     ## get modes
-    phir = _get_modes(results_dir, n_freq,
-        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
+    phir = _get_modes(results_dir, n_freq, np.atleast_1d(freq_idx),
+        max_axis, xsize, n_modes_save, dt_complex, comm)
     phir1 = phir[:,np.atleast_1d(mode_idx1)]
     phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
-- 
2.43.0


From f12f5c5770cd180767706a50cfc1d3db5c2a0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 23/72] fix: integer and big-endian data files are real

---
 pyspod/utils/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 1158df2..a6634c4 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -208,7 +208,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if np.issubdtype(d.dtype, np.complexfloating):
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -505,7 +505,8 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if not np.issubdtype(data.dtype, np.number) or \
+                np.issubdtype(data.dtype, np.complexfloating):
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From a4889e8472af4f95f85752aefe4d5dbcaad28ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 24/72] fix: select netCDF snapshots by position

---
 pyspod/utils/reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index a6634c4..8d676eb 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -274,10 +274,8 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
 
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)}) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 142314e0e06010ae726b20955be63aa4447c7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 25/72] fix: inference when the horizon is not a multiple of
 n_seq_out

---
 pyspod/emulation/neural_nets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..a77ca5e 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -155,7 +155,7 @@ class Neural_Nets(Base):
         nt = data_in.shape[1]
         # check the size of the input array
         if nt < n_seq_in:
-            raise ValueError(network.lower(), 'data input error.')
+            raise ValueError(self._network.lower(), 'data input error.')
 
         # initialization of variables and vectors
         input_batch = np.zeros([1, n_seq_in, n_features])
@@ -198,7 +198,8 @@ class Neural_Nets(Base):
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
             ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(ub, nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From c74c3a53104952526e0839a1afbe878db56076ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 26/72] fix: store weights and mean of flattened data with
 their spatial shape

---
 pyspod/spod/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2758ef4..ab1a666 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -685,6 +685,11 @@ class Base():
         utils_par.npy_save(self._comm, path_weights, self._weights, axis=md)
         utils_par.npy_save(self._comm, path_lt_mean, self._lt_mean, axis=md)
 
+        ## restore the spatial shape of flattened data, as for the modes
+        if self._reader._flattened and self._rank == 0:
+            for path in [path_weights, path_lt_mean]:
+                np.save(path, np.load(path).reshape(*self._xshape,self._nv))
+
         # save params; eigs and freq
         if self._rank == 0:
             ## save dictionaries of modes and params
-- 
2.43.0


From a2ef031b1b784a106eb2fdd1f47cd0d0939c6a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 27/72] fix: save the mean of the whole stream

---
 pyspod/spod/streaming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 6daf37e..34297b7 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -250,6 +250,9 @@ class Streaming(Base):
         # phi.shape = shape
         # utils_par.npy_save(self._comm, path_modes, phi, axis=self._max_axis+1)
 
+        ## mean of the whole stream
+        self._lt_mean = mu.real.copy() if self._isrealx else mu
+
         ## transpose eigs
         self._eigs = self._eigs.T
 
-- 
2.43.0


From 0bd8449c9b60fe22087d0a88e61490fd8325be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 28/72] fix: scale identically zero coefficients

---
 pyspod/emulation/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 2ee8c22..6a98ffa 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -72,6 +72,9 @@ class Base():
                     vec[i] = 1.0 + 1j
         else:
             raise TypeError('You need to specify data_type; real or complex.')
+        ## leave identically zero coefficients as they are
+        vec.real[vec.real == 0] = 1
+        if np.iscomplexobj(vec): vec.imag[vec.imag == 0] = 1
         return vec
 
 
-- 
2.43.0


From 30bfbeee99fe5c365a66d2a30daa1df93b428207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 29/72] fix: flat weights in parallel runs

---
 pyspod/pod/base.py  | 3 +++
 pyspod/spod/base.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index d224d99..8dbe20d 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -327,6 +327,9 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index ab1a666..752714d 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,6 +562,9 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From adff865032b3f7d0f29595471fd71531f8ba26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 30/72] fix: one space point per process and one kept mode

---
 pyspod/spod/standard.py  | 2 +-
 pyspod/spod/streaming.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index b541390..69845c1 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -199,7 +199,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 34297b7..e382946 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -162,10 +162,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 1ac41f2b36916fa54b2e036adce1d554d6892c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 31/72] fix: detect the end of a stream of single values

---
 pyspod/spod/streaming.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index e382946..aba8d93 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -100,12 +100,11 @@ class Streaming(Base):
 
             ## get new snapshot and abort if data stream runs dry
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
+                if ti == self._nt:
                     self._pr0(f'--> Data stream ended.')
                     break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From 152441d0cd940f3693faeb372719a58bd03c62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 32/72] fix: streaming update by a block that adds no new
 direction

---
 pyspod/spod/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index aba8d93..133278b 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -179,7 +179,7 @@ class Streaming(Base):
                         abs_up = np.sqrt(abs_up)
 
                         ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        u_new = u_p / (abs_up if abs_up != 0 else 1)
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From 201816935205b852926f808c04f2309abf6bb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 33/72] fix: modes without energy are zero, not invalid

---
 pyspod/spod/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 69845c1..c4343f7 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -226,7 +226,10 @@ class Standard(Base):
 
         # compute spatial modes for given frequency
         L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
-        L_diag_inv = 1. / L_diag
+        # (modes without energy are zero)
+        energetic = L.real > 0
+        L_diag_inv = np.zeros_like(L_diag)
+        L_diag_inv[energetic] = 1. / L_diag[energetic]
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From 8641bff7777f5baa0cb5440345fdecad2d7e1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 34/72] fix: parallel variance of complex data and of empty
 slices

---
 pyspod/utils/parallel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index bd86acc..831b978 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,17 +29,22 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
-    d = data - m
-    d *= d
-    v = np.sum(d)/n
+    if n > 0:
+        m = np.mean(data)
+        d = np.abs(data - m)
+        d *= d
+        v = np.sum(d)/n
+    else:
+        m, v = 0.0, 0.0
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
+        if na == 0: return b
+        if nb == 0: return a
         n = na + nb
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*np.abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
-- 
2.43.0


From fddae64acb4d5bc88d14dd95876dd8822f5431c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 35/72] fix: streaming modes beyond the rank of the data

---
 pyspod/spod/streaming.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 133278b..59e56e8 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -179,7 +179,13 @@ class Streaming(Base):
                         abs_up = np.sqrt(abs_up)
 
                         ## normalized orthogonal complement
-                        u_new = u_p / (abs_up if abs_up != 0 else 1)
+                        ## (a residual of the size of rounding errors adds
+                        ## no new direction)
+                        if abs_up.real > np.sqrt(np.finfo(self._float).eps) * la.norm(Ux):
+                            u_new = u_p / abs_up
+                        else:
+                            abs_up = np.zeros_like(abs_up)
+                            u_new = np.zeros_like(u_p)
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
-- 
2.43.0


From 1aa2e8e8d1ca3c106c5625374eb84edb68101f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 36/72] fix: save the upper confidence bound as the upper one

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 752714d..b8dc4df 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -699,8 +699,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_u = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From 00f30754aef0935f597a51bb32b0b77aaefea28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 37/72] fix: load all modes stored one by one with the
 documented layout

---
 pyspod/utils/postproc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 9ae9984..40e49cf 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -135,10 +135,10 @@ def get_all_modes(results_path):
         flist = []
         for filename in glob.glob(os.path.join(modes_path, "*.npy")):
             flist.append(filename)
-        flist.sort()
-        m = [None] * len(flist)
-        for f_idx, f in enumerate(flist):
-            m[f_idx] = get_data_from_file(f)
+        # one file per frequency (freq_idx_*) or per mode (freq_idx_f*_m*)
+        ids = set(os.path.basename(f)[len('freq_idx_'):].lstrip('f')[:8]
+            for f in flist)
+        m = [get_modes_at_freq(results_path, int(i)) for i in sorted(ids)]
         m = np.stack(m)
     else:
         raise TypeError('Modes must be a string to modes.npy')
-- 
2.43.0


From d423e60289e6b3783eaf7a484f0f59c567cb5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 38/72] fix: convolution coefficients of data with a complex
 mean

---
 pyspod/spod/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 9c6bb22..9a37b8e 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -321,7 +321,8 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(
+        data, axis=0, dtype=np.result_type(data.dtype, np.float64))
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From ebbbc4cad3832ae1dc3aae52449650a8a1389c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 39/72] fix: POD modes beyond the rank of the data are zero,
 not invalid

---
 pyspod/pod/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index c4f727f..9c12b06 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -57,7 +57,11 @@ class Standard(Base):
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
         st = time.time()
-        phi = np.real(d @ v) / np.sqrt(w[:])
+        # modes without energy (beyond the rank of the data) are zero
+        w_min = len(w) * np.finfo(Q.dtype).eps * np.max(w.real)
+        w_inv = np.zeros_like(w)
+        np.divide(1, np.sqrt(w), out=w_inv, where=w.real > w_min)
+        phi = np.real(d @ v) * w_inv
 
         # truncation and save
         phi_r = phi[:,0:self._n_modes_save]
-- 
2.43.0


From 87218b3409ade73798a0f874bc1b2b280938ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 40/72] fix: project on POD modes with the inner product they
 are orthonormal in

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..f2ec74f 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From 57ebc0d009b30d0003e21f7c9f199f375a34eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 41/72] fix: convert arrays to the native byte order instead of
 reinterpreting them

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 831b978..468a6a0 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -166,7 +166,7 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        data = data.astype(data.dtype.newbyteorder('='), copy=False)
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -192,7 +192,7 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         array = np.asarray(array)
         dtype = array.dtype
         shape = array.shape
-- 
2.43.0


From e7afe4c27badb3616132f898b1b9c0438e767ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 42/72] fix: do not modify the parameters passed by the user

---
 pyspod/pod/base.py  | 6 +++---
 pyspod/spod/base.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 8dbe20d..d4b8a43 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -43,10 +43,10 @@ class Base():
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
-        params['savedir'] = self._savedir
 
-        ## parse other inputs
-        self._params = params
+        ## parse other inputs (the parameters passed by the user are not modified)
+        self._params = dict(params)
+        self._params['savedir'] = self._savedir
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index b8dc4df..46418ed 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -80,10 +80,10 @@ class Base():
         # where to save data
         self._savedir = params.get('savedir', os.path.join(CWD,'spod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
-        params['savedir'] = self._savedir
 
-        ## parse other inputs
-        self._params = params
+        ## parse other inputs (the parameters passed by the user are not modified)
+        self._params = dict(params)
+        self._params['savedir'] = self._savedir
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
-- 
2.43.0


From 5f0682fad419402ac514d8709dd56dcd06fb7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 43/72] fix: number of modes kept when an object is fitted
 again to more data

---
 pyspod/pod/base.py  | 3 ++-
 pyspod/spod/base.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index d4b8a43..3256a51 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -40,6 +40,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
@@ -234,7 +235,7 @@ class Base():
         for d in data_list:
             assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
-        self._n_modes_save = int(min(self._n_modes_save, self._nt))
+        self._n_modes_save = int(min(self._n_modes_requested, self._nt))
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 46418ed..2ad8385 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -75,6 +75,7 @@ class Base():
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
         self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_requested = self._n_modes_save
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -497,6 +498,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
+        self._n_modes_save = self._n_modes_requested
         if self._n_modes_save > self._n_blocks:
             self._n_modes_save = self._n_blocks
 
-- 
2.43.0


From b366024485f81359a30cbb1f712a1473fc4f52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 44/72] fix: parameters given as numpy scalars can be reloaded
 after a fit

---
 pyspod/pod/base.py  | 4 +++-
 pyspod/spod/base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 3256a51..a6bd6c9 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -46,7 +46,9 @@ class Base():
         self._savedir = os.path.join(CWD, self._savedir)
 
         ## parse other inputs (the parameters passed by the user are not modified)
-        self._params = dict(params)
+        ## numpy scalars are stored as numbers: they could not be reloaded
+        self._params = {k: v.item() if isinstance(v, np.generic) else v
+            for k, v in params.items()}
         self._params['savedir'] = self._savedir
         self._weights_tmp = weights
         self._comm = comm
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 2ad8385..3125e8e 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -83,7 +83,9 @@ class Base():
         self._savedir = os.path.join(CWD, self._savedir)
 
         ## parse other inputs (the parameters passed by the user are not modified)
-        self._params = dict(params)
+        ## numpy scalars are stored as numbers: they could not be reloaded
+        self._params = {k: v.item() if isinstance(v, np.generic) else v
+            for k, v in params.items()}
         self._params['savedir'] = self._savedir
         self._weights_tmp = weights
         self._comm = comm
-- 
2.43.0


From e3d226bca0228f85ab5fb65411b532d4ad9f88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 45/72] fix: energy spectra include the imaginary part of the
 Fourier coefficients

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 40e49cf..56a613b 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1526,7 +1526,7 @@ def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
 
 def compute_energy_spectrum(u):
     # transform to Fourier space
-    array_hat = np.real(np.fft.fft(u))
+    array_hat = np.fft.fft(u)
     # normalizing data
     nx = u.size
     array_new = np.copy(array_hat / float(nx))
-- 
2.43.0


From 233a9c7f5cce717503962c07f981c430041c9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 46/72] fix: h1 error of complex data

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 28155ed..672c9d1 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * np.sum((uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From 577ecea5dc1627e89a4660ecd30f43f41f232e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 47/72] fix: report files that cannot be read on all the
 processes instead of hanging

---
 pyspod/utils/parallel.py | 12 +++++
 pyspod/utils/reader.py   | 97 +++++++++++++++++++++++-----------------
 2 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 468a6a0..6b3dc94 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -51,6 +51,18 @@ def pvar(data, comm):
     return v, m, n
 
 
+def raise_on_all(error, comm):
+    '''
+    Raise on all the processes an error met by the first one only, so
+    that none is left waiting for it in the next collective call.
+    '''
+    message = comm.bcast(None if error is None else str(error), root=0)
+    if error is not None:
+        raise error
+    if message is not None:
+        raise ValueError(message)
+
+
 def create_subcomm(comm):
     '''Create subcommunicator'''
     MPI = _get_module_MPI(comm)
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8d676eb..21be026 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -190,37 +190,21 @@ class reader_2stage():
         assert variables is not None, 'Variable(s) has to be provided for the 2-stage reader'
         assert isinstance(variables,list), 'Variable(s) has to be provided as a list'
 
-        # data_list should be a list of filenames
-        if comm.rank == 0:
-            for f in data_list:
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-
         self._max_axes = np.array([1,0]) # time is the first dimension (not listed), then nvar, then the spatial dimension
-        nt = 0
-        shape = None
+        error = None
         if comm.rank == 0:
-            for f in data_list:
-                d = xr.open_dataset(f,cache=False)[variables[0]]
-                # make sure that all files have the same spatial shape
-                if shape is not None:
-                    assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
-                shape = d.shape
-                self._file_time[f] = (nt, nt+shape[0])
-                nt += shape[0]
-                if np.issubdtype(d.dtype, np.complexfloating):
-                    self._is_real = False
-                d.close()
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-            self._shape = (nt,) + shape[1:] + (self._nv,)
+            try:
+                self._inspect_files()
+            except Exception as e:
+                error = e
+        utils_par.raise_on_all(error, comm)
 
         self._shape     = comm.bcast(self._shape,     root=0)
         self._is_real   = comm.bcast(self._is_real,   root=0)
         self._file_time = comm.bcast(self._file_time, root=0)
 
         if comm.rank == 0:
-            assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
+            nt = self._shape[0]
             mb_per_chunk_per_reader = 256
             item_size = np.dtype(self._dtype).itemsize
             size_per_ts = np.prod(self._shape[1:])*item_size/1024/1024
@@ -237,6 +221,32 @@ class reader_2stage():
         self._local_shape = None
         utils_par.pr0(f'--- init finished in {time.time()-st:.2f} s', comm)
 
+    def _inspect_files(self):
+        # data_list should be a list of filenames
+        for f in self._data_list:
+            # check if file exists
+            assert os.path.isfile(f), f'File {f} does not exist'
+
+        nt = 0
+        shape = None
+        for f in self._data_list:
+            with xr.open_dataset(f,cache=False) as ds:
+                for variable in self._variables:
+                    assert variable in ds, f'File {f} has no variable {variable}'
+                d = ds[self._variables[0]]
+                # make sure that all files have the same spatial shape
+                if shape is not None:
+                    assert d.shape[1:] == shape[1:], f'File {f} has different shape than the previous ones'
+                shape = d.shape
+                self._file_time[f] = (nt, nt+shape[0])
+                nt += shape[0]
+                if np.issubdtype(d.dtype, np.complexfloating):
+                    self._is_real = False
+            self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+        assert nt >= self._nchunks*self._nblocks, f'Number of chunks {self._nchunks} and blocks {self._nblocks} is too large for the nt ({nt}) (nt must be equal at least self._nchunks*self._nblocks)'
+        self._shape = (nt,) + shape[1:] + (self._nv,)
+
     def get_data_for_time(self, ts, te):
         stime = time.time()
 
@@ -490,24 +500,13 @@ class reader_mat():
 
         nt = len(data_list)
 
-        # data_list should be a list of filenames
+        error = None
         if comm.rank == 0:
-            for f in sorted(data_list):
-                # check if file exists
-                assert os.path.isfile(f), f'File {f} does not exist'
-                #print(f'file {f} exists')
-                self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
-
-
-            # check the first file to find dimensions
-            f = h5py.File(data_list[0], "r")
-            group_key = list(f.keys())[0]
-            data = f.get(group_key)
-            if not np.issubdtype(data.dtype, np.number) or \
-                np.issubdtype(data.dtype, np.complexfloating):
-                self._is_real = False
-
-            self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+            try:
+                self._inspect_files()
+            except Exception as e:
+                error = e
+        utils_par.raise_on_all(error, comm)
 
         self._shape     = comm.bcast(self._shape,    root=0)
         self._is_real   = comm.bcast(self._is_real,  root=0)
@@ -532,6 +531,24 @@ class reader_mat():
         self._local_shape = None
         utils_par.pr0(f'--- init finished in {time.time()-st:.2f} s', comm)
 
+    def _inspect_files(self):
+        # data_list should be a list of filenames
+        for f in sorted(self._data_list):
+            # check if file exists
+            assert os.path.isfile(f), f'File {f} does not exist'
+            #print(f'file {f} exists')
+            self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
+
+        # check the first file to find dimensions
+        with h5py.File(self._data_list[0], "r") as f:
+            group_key = list(f.keys())[0]
+            data = f.get(group_key)
+            if not np.issubdtype(data.dtype, np.number) or \
+                np.issubdtype(data.dtype, np.complexfloating):
+                self._is_real = False
+
+            self._shape = (len(self._data_list), data.shape[1], data.shape[2], data.shape[3], data.shape[0])
+
     # in this case, "time" is "step" (one file per step)
     def get_data_for_time(self, ts, te):
         stime = time.time()
-- 
2.43.0


From 6f7830e6de827d17d8c2d509666ee1055070a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 48/72] fix: data type of the emulation scaling is not case
 sensitive

---
 pyspod/emulation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 6a98ffa..0c56d7c 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -47,7 +47,7 @@ class Base():
             else:
                 for i in range (data.shape[0]):
                     vec[i] = 1.0
-        elif self._data_type == 'complex':
+        elif self._data_type.lower() == 'complex':
             vec = np.zeros(data.shape[0], dtype=complex)
             if self._normalization.lower() == 'localmax':
                 max_re = np.amax(data[:,:].real,axis=1) * 10
-- 
2.43.0


From 4332afb222539e5aca3a83db29159ad7ada168ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 49/72] fix: scale integer data without truncating them

---
 pyspod/emulation/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 0c56d7c..1ff6634 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -85,7 +85,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No normalization performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros(data.shape, np.result_type(data, np.float32))
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
                 data_out[:,j]= data[:,j] / vec.real
@@ -102,7 +102,7 @@ class Base():
         if vec.shape[0] == 0:
             print('No denormalization is performed')
             return
-        data_out = np.zeros_like(data)
+        data_out = np.zeros(data.shape, np.result_type(data, np.float32))
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
                 data_out[:,j]= data[:,j].real * vec.real
-- 
2.43.0


From 8c6df2298662b01ea715803c1f9109da8559b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 50/72] fix: read all the parameters listed in one item of a
 configuration file

---
 pyspod/utils/io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 3b4eeb9..e37f3c1 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -79,9 +79,7 @@ def read_config(parsed_file=None):
 def _parse_yaml(l):
     params = dict()
     for i,d in enumerate(l):
-        k = list(d.keys())[0]
-        v = d[k]
-        params[k] = v
+        params.update(d)
     return params
 
 
-- 
2.43.0


From 76097bf79e77502f98265b79f62e334f6cc0f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 51/72] fix: accept an empty optional section in configuration
 files

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index e37f3c1..8fb535c 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -67,7 +67,7 @@ def read_config(parsed_file=None):
     params_req = _parse_yaml(l_req)
     f, k = _check_keys(params_req, keys_r)
     f, _ = _check_keys(l, 'optional')
-    if f:
+    if f and l['optional'] is not None:
         l_opt = l['optional']
         params_opt = _parse_yaml(l_opt)
         params = {**params_req, **params_opt}
-- 
2.43.0


From 54ad78ca6cb7f96961c1d224dbafd870b780c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 52/72] fix: do not modify the longitudes passed to shifted
 plots

---
 pyspod/utils/postproc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 56a613b..1e85d8e 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -405,7 +405,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -529,8 +529,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From b1ad801ca640b7627c47ca626cc8ccc3914ac5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 53/72] fix: shift plots along the longitudes whatever the
 order of the axes

---
 pyspod/utils/postproc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 1e85d8e..1a0f8ff 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -423,9 +423,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             ## extract mode
             mode = np.squeeze(modes[:,:,var_id,mode_id])
 
-            if shift180:
-                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
-
             ## check dimensions
             if mode.ndim != 2:
                 raise ValueError('Dimension of the modes is not 2D.')
@@ -438,6 +435,8 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             if x1_tmp.shape[0] != mode.shape[1] or \
                x2_tmp.shape[0] != mode.shape[0]:
                 mode = mode.T
+            if shift180:
+                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
             mode = mode[limits_x2,limits_x1]
 
             # check dimension axes and data
-- 
2.43.0


From ea903b6f26cb708bcccdde98feb6afbd0404d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 54/72] fix: lines through the maximum of a mode cross at the
 maximum

---
 pyspod/utils/postproc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 1a0f8ff..19fbc4b 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1509,8 +1509,10 @@ def _apply_2d_coastlines(coastlines, ax):
     return ax
 
 def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
-    ax.axhline(x1[idx1], xmin=0, xmax=1,color='k',linestyle='--')
-    ax.axvline(x2[idx2], ymin=0, ymax=1,color='k',linestyle='--')
+    for i in idx2:
+        ax.axhline(x2[i], xmin=0, xmax=1,color='k',linestyle='--')
+    for i in idx1:
+        ax.axvline(x1[i], ymin=0, ymax=1,color='k',linestyle='--')
     return ax
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 206d9110253b5c4f2fc8924f938ebd2cc8416385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 55/72] fix: mark the maximum of 3D mode slices on the axes of
 the slice

---
 pyspod/utils/postproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 19fbc4b..6248a4f 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -852,9 +852,9 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                     imag_ax = _apply_2d_vertical_lines(
-                        imag_ax, x1, x2, idx_x1, idx_x2)
+                        imag_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 imag_divider = make_axes_locatable(imag_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
@@ -897,7 +897,7 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
                 plt.colorbar(real, cax=real_cax)
-- 
2.43.0


From 2fcc4104ef25c0e00d55caf36ac377244d7cc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 56/72] fix: axes of 3D mode slices when dimensions have equal
 sizes

---
 pyspod/utils/postproc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 6248a4f..07a3202 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -826,6 +826,12 @@ def plot_3d_modes_slice_at_frequency(
             elif (mode.shape[1] == x3.shape[0]) and (flag1 != 'x3'):
                 yy = x3; flag2 = 'x3'
 
+            # dimensions of equal size: keep the order of the dimensions
+            axes = [('x1', x1), ('x2', x2), ('x3', x3)]
+            del axes[slice_dim]
+            if mode.shape == (axes[0][1].shape[0], axes[1][1].shape[0]):
+                (flag1, xx), (flag2, yy) = axes
+
             # perform fft shift if required
             if fftshift:
                 mode = np.fft.fftshift(mode, axes=1)
-- 
2.43.0


From 9d60b9cc7b315fc9b1f7ebb97fd7a5e342cc416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 57/72] fix: mode tracers of several variables

---
 pyspod/utils/postproc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 07a3202..217c120 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1008,12 +1008,12 @@ def plot_mode_tracers(
         if not isinstance(coords, tuple):
             raise TypeError('each element of `coords` must be a tuple.')
         coords, idx_coords = find_nearest_coords(coords, x, xdim)
-        fig, spec = plt.subplots(
-            ncols=1, nrows=len(modes_idx),
-            figsize=(wsize,1.5*len(modes_idx)),
-            squeeze=False, sharex=True)
-        cnt = 0
         for var_id in vars_idx:
+            fig, spec = plt.subplots(
+                ncols=1, nrows=len(modes_idx),
+                figsize=(wsize,1.5*len(modes_idx)),
+                squeeze=False, sharex=True)
+            cnt = 0
             for mode_id in modes_idx:
                 mode = np.squeeze(modes[...,var_id,mode_id])
                 if fftshift:
-- 
2.43.0


From 4cfb5fd60ab8782e1bb32e2dcab6afa469602ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 58/72] fix: mode tracers of data with one point along a
 dimension

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 217c120..ebb14f2 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1015,7 +1015,7 @@ def plot_mode_tracers(
                 squeeze=False, sharex=True)
             cnt = 0
             for mode_id in modes_idx:
-                mode = np.squeeze(modes[...,var_id,mode_id])
+                mode = modes[...,var_id,mode_id]
                 if fftshift:
                     mode = np.fft.fftshift(mode, axes=1)
                 mode_point_phase = mode[idx_coords] * phase.conj()
-- 
2.43.0


From bc7b59040cb34407bebaedd69a73a132fb082ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 59/72] fix: time axis of mode tracers

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index ebb14f2..42a96ac 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -998,7 +998,7 @@ def plot_mode_tracers(
     # calculate period and time vector
     n_points = 100
     period = 1. / freq_req
-    t = np.linspace(0,period,n_points)
+    t = np.linspace(0,5*period,n_points)
 
     # pre-compute auxiliary phase vector and shape it accordingly
     phase = np.exp(complex(0,1) * np.linspace(0,10*np.pi,n_points))
-- 
2.43.0


From 6e56eafa3a442694a3fdadeeb172e683b6b1ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 60/72] fix: draw each coefficient in a figure of its own

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 42a96ac..ca806cf 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1041,9 +1041,9 @@ def plot_mode_tracers(
 def plot_coeffs(coeffs, coeffs_idx=[0], equal_axes=False,
     figsize=(12,8), path='CWD', filename=None):
 
-    # initialize figure
-    fig = plt.figure(figsize=figsize)
     for ci in coeffs_idx:
+        # initialize figure
+        fig = plt.figure(figsize=figsize)
         plt.plot(coeffs[ci,:], 'k-')
         plt.xlabel('time')
         plt.ylabel(f'coeff {ci}')
-- 
2.43.0


From d93e2aa99ea1882ea7f4fafcb456a469b1af0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 61/72] fix: tracers of data that do not start at the first
 snapshot

---
 pyspod/spod/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 3125e8e..08f36c3 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -992,8 +992,7 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+        data = self.get_data(data, t_0=0, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
-- 
2.43.0


From 4add66df1a3d593adf4beba64c307364d21f6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 62/72] fix: videos of data that do not start at the first
 snapshot

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 08f36c3..06589e7 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -1104,7 +1104,7 @@ class Base():
         data = self.get_data(
             data, t_0=time_limits[0], t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=[0,time_limits[-1]-time_limits[0]], vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From 40ddbec1470eec1e6e8049ff2b845404aa7d4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 63/72] fix: reading of files with more values than 32-bit
 counts allow

---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 21be026..fd44527 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -308,8 +308,9 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
@@ -609,8 +610,9 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
-- 
2.43.0


From 77d96e65d8f705f5ba2ab57a0b03350baab221c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 64/72] fix: reading of large files in chunks of one or two
 snapshots

---
 pyspod/utils/reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index fd44527..29bad84 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -390,7 +390,6 @@ class reader_2stage():
         if ts is None:
             st = time.time()
             nchunks = self._nchunks
-            nblks = self._nblocks
 
             data_dict = {}
 
@@ -401,8 +400,10 @@ class reader_2stage():
 
                 x = self.get_data_for_time(t_s,t_e)
 
+                # (no empty blocks when there are few snapshots per chunk)
+                nblks = min(self._nblocks, t_n)
                 for blk in range(0,nblks):
-                    blk_idx = chunk*nblks + blk
+                    blk_idx = chunk*self._nblocks + blk
 
                     blk_t_n, blk_t_s = utils_par._blockdist(t_e-t_s, nblks, blk)
                     blk_t_e = blk_t_s + blk_t_n
@@ -692,7 +693,6 @@ class reader_mat():
         if ts is None:
             st = time.time()
             nchunks = self._nchunks
-            nblks = self._nblocks
 
             data_dict = {}
 
@@ -703,8 +703,10 @@ class reader_mat():
 
                 x = self.get_data_for_time(t_s,t_e)
 
+                # (no empty blocks when there are few snapshots per chunk)
+                nblks = min(self._nblocks, t_n)
                 for blk in range(0,nblks):
-                    blk_idx = chunk*nblks + blk
+                    blk_idx = chunk*self._nblocks + blk
 
                     blk_t_n, blk_t_s = utils_par._blockdist(t_e-t_s, nblks, blk)
                     blk_t_e = blk_t_s + blk_t_n
-- 
2.43.0


From a1df970da1d1caa7ac7ac234f37ec1f3c31aa8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 65/72] fix: methods use the results and coefficients folders
 passed to them

---
 pyspod/pod/base.py  | 7 ++++---
 pyspod/spod/base.py | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index a6bd6c9..d8e68ad 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -383,7 +383,8 @@ class Base():
         See method implementation in the pod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, modes_idx=modes_idx,
+            results_dir=self._savedir_sim if results_dir is None else results_dir,
             comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -399,8 +400,8 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,
-                comm=self._comm)
+                coeffs_dir=self._coeffs_dir if coeffs_dir is None else coeffs_dir,
+                coeffs=coeffs, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 06589e7..d3c2e8c 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -645,7 +645,8 @@ class Base():
         See method implementation in the spod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, modes_idx=modes_idx,
+            results_dir=self._savedir_sim if results_dir is None else results_dir,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -661,7 +662,8 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)
+                coeffs_dir=self._coeffs_dir if coeffs_dir is None else coeffs_dir,
+                time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
-- 
2.43.0


From 6294804fdbefc48aa7ddf437ad5d547464d37d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 66/72] fix: no modes of an earlier fit are left among those of
 the last one

---
 pyspod/spod/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index d3c2e8c..6a506fe 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -531,6 +531,10 @@ class Base():
         if self._rank == 0:
             if not os.path.exists(self._modes_dir):
                 os.makedirs(self._modes_dir)
+            ## modes of an earlier fit into the same folder
+            for file in os.listdir(self._modes_dir):
+                if file.startswith('freq_idx_'):
+                    os.remove(os.path.join(self._modes_dir, file))
 
         ## create folder to save fft blocks
         self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
-- 
2.43.0


From aabb4375afbf6fc967a9282fbadd56fef56c8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 67/72] fix: blocks of an earlier fit are not left among those
 of an interrupted one

---
 pyspod/spod/standard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c4343f7..321d8d4 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -85,6 +85,14 @@ class Standard(Base):
                 Q_hats[f] = np.reshape(Q_hats[f], shape)
             del self.data
         else:
+            # blocks of an earlier fit are not mixed with those of this one,
+            # should it be interrupted
+            if self._savefft and self._rank == 0:
+                for file in os.listdir(self._blocks_folder):
+                    if file.startswith('fft_block'):
+                        os.remove(os.path.join(self._blocks_folder, file))
+            utils_par.barrier(self._comm)
+
             # loop over number of blocks and generate Fourier realizations
             if isinstance(self.data, dict):
                 last_key = list(self.data)[-1]
-- 
2.43.0


From 985b0d25b954e2e5bc67e8f2d2a5c19529b7df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 68/72] fix: normalize weights of variables distributed over
 processes

---
 pyspod/utils/weights.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 619bfd1..452c3cc 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -115,6 +115,12 @@ def apply_normalization(
     ## do not overwrite the weights passed by the user
     weights = np.array(weights, dtype=np.result_type(weights, np.float32))
 
+    ## variables distributed over the processes (data with more variables
+    ## than points along any dimension): each holds all the data of its own
+    if data.shape[-1] < n_vars:
+        n_vars = data.shape[-1]
+        comm = None
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
@@ -136,7 +142,7 @@ def apply_normalization(
             print('')
             print('Normalization by variance - serial')
             print('----------------------------------')
-            axis = tuple(np.arange(0, data[...,0].ndim))
+            axis = tuple(np.arange(0, data.ndim-1))
             for i in range(0, n_vars):
                 var = np.nanvar(data[...,i], axis=axis)
                 weights[...,i] = weights[...,i] / var
-- 
2.43.0


From e2494eb8e22c528103025dedb73698ee8190cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 69/72] fix: normalize weights with data read from files

---
 pyspod/spod/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6a506fe..4cf69c1 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -476,8 +476,11 @@ class Base():
         ## normalize weights if required
         if self._normalize_weights:
             self._pr0('- normalizing weights')
+            data = self.data
+            if isinstance(data, dict):
+                data = np.concatenate([v["v"] for v in data.values()])
             self._weights = utils_weights.apply_normalization(
-                data=self.data, weights=self._weights,
+                data=data, weights=self._weights,
                 n_vars=self._nv, comm=self._comm, method='variance')
 
         ## flatten weights to number of space x variables points
-- 
2.43.0


From 9b0aee7a85de15b0208f3572e83a70726e67f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:33 +0000
Subject: [PATCH 70/72] fix: keep the modes of long streams orthogonal in
 streaming SPOD

The projection on the current modes was made once, so the rounding errors
of each update added up: after some hundred blocks, modes of weak energy
were no longer orthogonal to the others, and where there are fewer points
than modes to save, modes without energy got some.
---
 pyspod/spod/streaming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 59e56e8..c4f544a 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -173,6 +173,14 @@ class Streaming(Base):
                         ## orthogonal complement to U, eqn. (27)
                         u_p = x - np.matmul(U, Ux)
 
+                        ## repeat the projection (the rounding errors of
+                        ## the first one would accumulate over the blocks,
+                        ## and the modes would lose their orthogonality)
+                        dUx = np.matmul(U.conj().T, u_p)
+                        dUx = utils_par.allreduce(dUx, comm=self._comm)
+                        u_p = u_p - np.matmul(U, dUx)
+                        Ux = Ux + dUx
+
                         ## norm of orthogonal complement
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
-- 
2.43.0


From 852557c1124027af87079106d313d87e1c9f1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:17 +0000
Subject: [PATCH 71/72] fix: SPOD modes of equal energy are orthogonal

The cross-spectral density is Hermitian, but was decomposed by the general
eigenvalue routine, whose eigenvectors are not orthogonal where
eigenvalues coincide (symmetric flows).
---
 pyspod/spod/standard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 321d8d4..4bc3fcf 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -216,7 +216,9 @@ class Standard(Base):
         st = time.time()
 
         ## compute eigenvalues and eigenvectors
-        L, V = la.eig(M)
+        ## (those of a Hermitian matrix: modes are orthogonal also where
+        ## eigenvalues coincide)
+        L, V = la.eigh(M)
         L = np.real_if_close(L, tol=1000000)
         del M
 
-- 
2.43.0


From bbb78459c8962d24b33af9cb490fb808266fb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:17 +0000
Subject: [PATCH 72/72] fix: POD modes of equal energy are real and orthogonal

The correlation matrix is symmetric, but was decomposed by the general
eigenvalue routine: for coinciding eigenvalues (any travelling wave) it
returned complex or non-orthogonal vectors, of which the real part was kept.
---
 pyspod/pod/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index 9c12b06..33d31bb 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -49,7 +49,10 @@ class Standard(Base):
         ## eigendecomposition
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
-        w, v = scipy.linalg.eig(Q)
+        ## (of a Hermitian matrix: modes are real and orthogonal also where
+        ## eigenvalues coincide, as those of travelling waves)
+        w, v = scipy.linalg.eigh(Q)
+        w = w.astype(np.result_type(w, np.complex64))
         idx = np.argsort(w.real)[::-1]
         w, v = w[idx], v[:,idx]
 
-- 
2.43.0

